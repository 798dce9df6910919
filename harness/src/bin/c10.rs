//! C10: trees of trees: whichever way they are put together, order and contents are kept.
use merkletree::merkle::{get_merkle_tree_len_generic, MerkleTree};
use merkletree::store::{DiskStore, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    k: usize,
    levels: u32,
    store: StoreKind,
    leaves: Leaves,
    /// the same components in another order
    shuffle: u64,
    pick: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C10";
    const RULE: &'static str = "case = (arities of the layers, size of the base trees, store, leaf values, a permutation of the components); every constructor of that kind of \
        tree runs; non-trivial: at least two base trees with different leaves";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![8 => compound(64), 1 => compound(t.pick(512, 4096))],
            store_kind(),
            leaves(),
            prop_oneof![Just(0u64), any::<u64>()],
            any::<u64>(),
        )
            .prop_map(|((k, levels), store, leaves, shuffle, pick)| Case { k, levels, store, leaves, shuffle, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(100_000, 1_500_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_compound!(c.k, E, A, B, Sub, Top, with_store!(c.store, E, S, go::<E, A, S, B, Sub, Top>(c, cx)))
    }
    fn assumptions() -> Vec<String> {
        vec!["11 combinations of arities, base trees of at most 4096 leaves; layer roots are hashed as nodes of row 1".into()]
    }
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;
type TS<E, A, S, B, Sub> = MerkleTree<E, A, S, B, Sub>;
type TT<E, A, S, B, Sub, Top> = MerkleTree<E, A, S, B, Sub, Top>;

fn permute(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if seed != 0 {
        for i in (1..n).rev() {
            v.swap(i, (fin(seed ^ i as u64) % (i as u64 + 1)) as usize);
        }
    }
    v
}

fn go<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let (arity, sub, top) = COMPOUNDS[c.k];
    let (first, items) = ref_compound::<E, A>(c.k, c.levels, c.leaves);
    let count = items.len();
    let order = permute(count, c.shuffle);
    let items: Vec<Vec<E>> = order.iter().map(|i| items[*i].clone()).collect();
    let r = RefCompound::new::<A>(order.iter().map(|i| first.bases[*i].clone()).collect(), sub, top);
    cx.label(format!("{:?} {:?}", COMPOUNDS[c.k], c.store));
    if count > 1 && c.leaves.mode != 3 && c.leaves.mode != 6 {
        cx.nontrivial();
    }
    let dir = cx.dir();
    let w = r.bases[0].leaves().len();
    let slices: Vec<Vec<u8>> = r.bases.iter().map(|b| b.flat_bytes()).collect();
    let sl: Vec<&[u8]> = slices.iter().map(|s| &s[..]).collect();
    let trees = || -> anyhow::Result<Vec<T<E, A, S, B>>> { items.iter().map(|v| T::new(v.iter().copied())).collect() };
    let stores = || -> anyhow::Result<Vec<S>> { slices.iter().map(|s| S::new_from_slice(s.len() / E::LEN, s)).collect() };
    let configs = |p: &str| -> Vec<StoreConfig> { (0..count).map(|i| config(&dir, &format!("{}{}", p, i), 0)).collect() };
    // persisted base trees
    let on_disk = configs("p");
    if c.store != StoreKind::Vec {
        for (v, cfg) in items.iter().zip(&on_disk) {
            T::<E, A, DiskStore<E>, B>::new_with_config(v.iter().copied(), cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
        }
    }
    let look = |name: &str, t: anyhow::Result<TT<E, A, S, B, Sub, Top>>| -> Result<(), String> {
        let t = t.map_err(|e| format!("{}: {:?}", name, e))?;
        observe(c, &t, &r, w).map_err(|e| format!("{}: {}", name, e))
    };
    if top == 0 {
        look("from_trees", trees().and_then(TT::from_trees))?;
        look("from_stores", stores().and_then(|s| TT::from_stores(w, s)))?;
        look("from_slices_with_configs", TT::from_slices_with_configs(&sl, w, &configs("s")))?;
        // declared for trees without a top layer only
        let t = TS::<E, A, S, B, Sub>::from_slices(&sl, w).map_err(|e| format!("from_slices: {:?}", e))?;
        observe(c, &t, &r, w).map_err(|e| format!("from_slices: {}", e))?;
        if c.store != StoreKind::Vec {
            look("from_store_configs", TT::from_store_configs(w, &on_disk))?;
        }
    } else {
        look("from_sub_trees_as_trees", trees().and_then(TT::from_sub_trees_as_trees))?;
        let groups = || -> anyhow::Result<Vec<TS<E, A, S, B, Sub>>> {
            let mut all = trees()?.into_iter();
            (0..top).map(|_| TS::from_trees(all.by_ref().take(sub).collect())).collect()
        };
        look("from_sub_trees", groups().and_then(TT::from_sub_trees))?;
        let groups = || -> anyhow::Result<Vec<TS<E, A, S, B, Sub>>> { sl.chunks(sub).map(|g| TS::<E, A, S, B, Sub>::from_slices(g, w)).collect() };
        look("from_sub_trees of slices", groups().and_then(TT::from_sub_trees))?;
        if c.store != StoreKind::Vec {
            look("from_sub_tree_store_configs", TT::from_sub_tree_store_configs(w, &on_disk))?;
        }
    }
    if c.store != StoreKind::Vec {
        for (i, s) in slices.iter().enumerate() {
            req!(read_file(&data_file(&dir, &format!("p{}", i))).as_ref() == Some(s), "a persisted base tree changed");
            if top == 0 {
                req!(read_file(&data_file(&dir, &format!("s{}", i))).as_ref() == Some(s), "a base tree is not persisted under its configuration");
            }
        }
    }
    let want = get_merkle_tree_len_generic::<B, Sub, Top>(w).map_err(|e| format!("get_merkle_tree_len_generic: {:?}", e))?;
    req!(want == r.len(), "get_merkle_tree_len_generic = {} instead of {} (arity {})", want, r.len(), arity);
    Ok(())
}

fn observe<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(
    c: &Case,
    t: &MerkleTree<E, A, S, B, Sub, Top>,
    r: &RefCompound<E>,
    w: usize,
) -> Result<(), String> {
    req!(t.root() == r.root, "root differs");
    let got = (t.leafs(), t.len(), t.row_count());
    let want = (r.leafs(), r.len(), r.row_count());
    req!(got == want, "(leafs, len, row_count) is {:?} instead of {:?}", got, want);
    req!(t.data().is_none(), "a tree of trees has no store of its own");
    let n = r.leafs();
    let mut idx = positions(n, c.pick, 150);
    idx.extend((0..r.bases.len()).flat_map(|b| [b * w, b * w + w - 1]));
    for i in idx {
        let e = t.read_at(i).map_err(|e| format!("read_at({}): {:?}", i, e))?;
        req!(e == r.leaf(i), "read_at({}) is not leaf {} of base tree {}", i, i % w, i / w);
    }
    for i in [n, n + 1, n + w, 2 * n, t.len() - 1, t.len()] {
        if i >= n {
            match guard(|| t.read_at(i)) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => fail!("read_at({}) of {} leaves is no error", i, n),
                Err(p) => fail!("read_at({}) of {} leaves panics: {}", i, n, p),
            }
        }
    }
    for (b, j) in (0..r.bases.len()).map(|b| (b, (fin(c.pick ^ b as u64) % w as u64) as usize)) {
        let i = b * w + j;
        let p = t.gen_proof(i).map_err(|e| format!("gen_proof({}): {:?}", i, e))?;
        same_proof(&p, &r.proof(i)).map_err(|e| format!("proof of leaf {}: {}", i, e))?;
        match p.validate::<A>() {
            Ok(true) => {}
            o => fail!("proof of leaf {} is not accepted: {:?}", i, o),
        }
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
