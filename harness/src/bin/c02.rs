//! C02: every constructor builds the same tree from the same data.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::Store;
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    /// None: level cache
    store: Option<StoreKind>,
    discard: u8,
    leaves: Leaves,
    data_len: u8,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C02";
    const RULE: &'static str = "case = (shape, element and algorithm, store incl. level cache with a discard count, raw data); every constructor the store supports runs on \
        the same data; non-trivial: at least two levels and data that are not all equal";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![
                20 => shape(ARITIES, 512, 4096, 30, 1),
                4 => shape(ARITIES, 4096, 32768, 60, 1),
            ],
            0u8..2,
            prop_oneof![3 => store_kind().prop_map(Some), 2 => Just(None)],
            any::<u8>(),
            leaves(),
            0u8..40,
        )
            .prop_map(|(shape, ea, store, discard, leaves, data_len)| Case { shape, ea, store, discard, leaves, data_len })
            .boxed()
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4000, 60_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for store in [Some(StoreKind::Vec), Some(StoreKind::Disk), Some(StoreKind::Mmap), None] {
            for (arity, levels) in [(2, 19), (8, 6)] {
                v.push(Case { shape: Shape { arity, levels }, ea: 0, store, discard: 2, leaves: Leaves { seed: 3, mode: 0 }, data_len: 5 });
            }
        }
        v
    }
    fn rayon_threads() -> usize {
        3
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, match c.store {
            Some(s) => with_store!(s, E, S, plain::<E, A, S, B>(c, cx)),
            None => cached::<E, A, B>(c, cx),
        })
    }
    fn assumptions() -> Vec<String> {
        vec!["building a tree in a level-cache store is supported with a configuration only; its base layer is read through an external reader".into()]
    }
}

fn raw_data(c: &Case) -> Vec<Vec<u8>> {
    let k = c.leaves.items::<El<48>>(c.shape.leafs());
    k.iter().map(|e| e.0[..(c.data_len as usize)].to_vec()).collect()
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;

fn plain<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let kind = c.store.unwrap();
    let data = raw_data(c);
    let items: Vec<E> = data.iter().map(|d| A::r_data(d)).collect();
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    cx.label(format!("{:?}", kind));
    if c.shape.levels > 1 && c.data_len > 0 && c.leaves.mode != 1 && c.leaves.mode != 3 {
        cx.nontrivial();
    }
    let dir = cx.dir();
    let n = items.len();
    let hashed = to_bytes(r.leaves());
    let flat = r.flat_bytes();
    let ok = |i: &E| -> anyhow::Result<E> { Ok(*i) };
    let builders: Vec<(&str, Box<dyn Fn() -> anyhow::Result<T<E, A, S, B>> + '_>)> = vec![
        ("new", Box::new(|| T::new(items.iter().copied()))),
        ("new_with_config", Box::new(|| T::new_with_config(items.iter().copied(), config(&dir, "a", 0)))),
        ("try_from_iter", Box::new(|| T::try_from_iter(items.iter().map(ok)))),
        ("try_from_iter_with_config", Box::new(|| T::try_from_iter_with_config(items.iter().map(ok), config(&dir, "b", 0)))),
        ("from_par_iter", Box::new(|| T::from_par_iter(items.par_iter().copied()))),
        ("from_par_iter_with_config", Box::new(|| T::from_par_iter_with_config(items.par_iter().copied(), config(&dir, "c", 0)))),
        ("from_data", Box::new(|| T::from_data(data.iter().cloned()))),
        ("from_data_with_config", Box::new(|| T::from_data_with_config(data.iter().cloned(), config(&dir, "d", 0)))),
        ("from_byte_slice", Box::new(|| T::from_byte_slice(&hashed))),
        ("from_byte_slice_with_config", Box::new(|| T::from_byte_slice_with_config(&hashed, config(&dir, "e", 0)))),
        ("from_tree_slice", Box::new(|| T::from_tree_slice(&flat, n))),
        ("from_tree_slice_with_config", Box::new(|| T::from_tree_slice_with_config(&flat, n, config(&dir, "f", 0)))),
        ("from_data_store", Box::new(|| T::from_data_store(S::new_from_slice(flat.len() / E::LEN, &flat)?, n))),
        ("from_data_store (config)", Box::new(|| {
            T::from_data_store(S::new_from_slice_with_config(flat.len() / E::LEN, c.shape.arity, &flat, config(&dir, "g", 0))?, n)
        })),
    ];
    for (name, f) in &builders {
        let t = f().map_err(|e| format!("{} failed on valid data: {:?}", name, e))?;
        same_tree(&t, &r, c.leaves.seed, 6).map_err(|e| format!("{}: {}", name, e))?;
    }
    if kind != StoreKind::Vec {
        for id in ["a", "b", "c", "d", "e", "f", "g"] {
            let b = read_file(&data_file(&dir, id)).ok_or(format!("no persisted file for {}", id))?;
            req!(b == flat, "the persisted file {} is not the tree", id);
        }
    }
    Ok(())
}

fn cached<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let data = raw_data(c);
    let items: Vec<E> = data.iter().map(|d| A::r_data(d)).collect();
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let d = c.discard as usize % (c.shape.max_discard() + 1);
    cx.label("LevelCache");
    cx.label(format!("LevelCache discard {}", d));
    if c.shape.levels > 1 && c.data_len > 0 && c.leaves.mode != 1 && c.leaves.mode != 3 {
        cx.nontrivial();
    }
    let dir = cx.dir();
    let n = items.len();
    let hashed = to_bytes(r.leaves());
    let flat = r.flat_bytes();
    let replica = dir.join("replica");
    write_file(&replica, &hashed);
    let cfg = |id: &str| config(&dir, id, d);
    let ok = |i: &E| -> anyhow::Result<E> { Ok(*i) };
    type L<E, A, B> = MerkleTree<E, A, Lc<E>, B>;
    let direct: Vec<(&str, &str, Box<dyn Fn() -> anyhow::Result<L<E, A, B>> + '_>)> = vec![
        ("new_with_config", "a", Box::new(|| L::new_with_config(items.iter().copied(), cfg("a")))),
        ("try_from_iter_with_config", "b", Box::new(|| L::try_from_iter_with_config(items.iter().map(ok), cfg("b")))),
        ("from_par_iter_with_config", "c", Box::new(|| L::from_par_iter_with_config(items.par_iter().copied(), cfg("c")))),
        ("from_data_with_config", "d", Box::new(|| L::from_data_with_config(data.iter().cloned(), cfg("d")))),
        ("from_byte_slice_with_config", "e", Box::new(|| L::from_byte_slice_with_config(&hashed, cfg("e")))),
    ];
    for (name, id, f) in &direct {
        let mut t = f().map_err(|e| format!("level cache {} failed on valid data: {:?}", name, e))?;
        t.set_external_reader_path(&replica).map_err(|e| format!("{}: set_external_reader_path: {:?}", name, e))?;
        same_lc_tree(&t, &r, d, c.leaves.seed, 6).map_err(|e| format!("level cache {} (discard {}): {}", name, d, e))?;
        let b = read_file(&data_file(&dir, id)).ok_or(format!("no persisted file for {}", id))?;
        req!(b == to_bytes(&r.cached(d)), "level cache {}: the file does not hold exactly the cached rows", name);
    }
    let t = L::<E, A, B>::from_tree_slice_with_config(&flat, n, cfg("f"))
        .map_err(|e| format!("level cache from_tree_slice_with_config: {:?}", e))?;
    same_lc_tree(&t, &r, d, c.leaves.seed, 6).map_err(|e| format!("level cache from_tree_slice_with_config (discard {}): {}", d, e))?;
    // leaves without a configuration: refused, or the right tree
    let bare: Vec<(&str, Box<dyn Fn() -> anyhow::Result<L<E, A, B>> + '_>)> = vec![
        ("new", Box::new(|| L::new(items.iter().copied()))),
        ("try_from_iter", Box::new(|| L::try_from_iter(items.iter().map(ok)))),
        ("from_par_iter", Box::new(|| L::from_par_iter(items.par_iter().copied()))),
        ("from_data", Box::new(|| L::from_data(data.iter().cloned()))),
        ("from_byte_slice", Box::new(|| L::from_byte_slice(&hashed))),
    ];
    for (name, f) in &bare {
        match guard(f) {
            Ok(Ok(t)) => same_tree(&t, &r, c.leaves.seed, 6).map_err(|e| format!("level cache {} without a configuration: {}", name, e))?,
            Ok(Err(_)) => {}
            Err(p) => fail!("level cache {} without a configuration panics: {}", name, p),
        }
    }
    // a complete tree with or without a configuration
    let t = L::<E, A, B>::from_tree_slice(&flat, n).map_err(|e| format!("level cache from_tree_slice: {:?}", e))?;
    same_tree(&t, &r, c.leaves.seed, 6).map_err(|e| format!("level cache from_tree_slice: {}", e))?;
    let elements = flat.len() / E::LEN;
    let t = L::<E, A, B>::from_data_store(Lc::<E>::new_from_slice(elements, &flat).map_err(|e| format!("level cache new_from_slice: {:?}", e))?, n)
        .map_err(|e| format!("level cache from_data_store: {:?}", e))?;
    same_tree(&t, &r, c.leaves.seed, 6).map_err(|e| format!("level cache from_data_store: {}", e))?;
    let store = Lc::<E>::new_from_slice_with_config(elements, c.shape.arity, &flat, cfg("g")).map_err(|e| format!("level cache new_from_slice_with_config: {:?}", e))?;
    let t = L::<E, A, B>::from_data_store(store, n).map_err(|e| format!("level cache from_data_store (config): {:?}", e))?;
    same_lc_tree(&t, &r, d, c.leaves.seed, 6).map_err(|e| format!("level cache from_data_store (config, discard {}): {}", d, e))?;
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
