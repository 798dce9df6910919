//! C01: the tree that is built is the tree the documentation describes.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, Store};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum How {
    Iter,
    ParIter,
    IterConfig,
    ParIterConfig,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    store: StoreKind,
    how: How,
    leaves: Leaves,
    ranges: Vec<(u32, u32)>,
}

const ALL: &[usize] = &[2, 4, 8, 16, 32, 64, 128];

struct P;
impl Prop for P {
    const ID: &'static str = "C01";
    const RULE: &'static str = "case = (arity, levels, element size and hash algorithm, store, way of feeding the leaves, leaf values); \
        non-trivial: at least two levels above the leaves and leaf values that are not all equal";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = t.pick(1usize << 19, 1 << 21);
        (
            prop_oneof![
                60 => shape(ALL, 1 << 10, 1 << 10, 0, 1),
                32 => shape(ALL, 1 << 13, 1 << 16, 25, 1),
                2 => shape(ARITIES, 1 << 18, big, 60, 4),
            ],
            0u8..2,
            store_kind(),
            prop_oneof![Just(How::Iter), Just(How::ParIter), Just(How::IterConfig), Just(How::ParIterConfig)],
            leaves(),
            proptest::collection::vec((any::<u32>(), any::<u32>()), 0..6),
        )
            .prop_map(|(shape, ea, store, how, leaves, ranges)| Case { shape, ea, store, how, leaves, ranges })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(8000, 100_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        // one build per store that spans several populate blocks
        let mut v = vec![];
        for store in [StoreKind::Vec, StoreKind::Disk, StoreKind::Mmap] {
            for (how, arity, levels) in [
                (How::Iter, 2, 20),
                (How::ParIter, 2, 20),
                (How::ParIterConfig, 4, 10),
                (How::IterConfig, 2, 19),
                // every arity over several chunks of nodes
                (How::IterConfig, 4, 8),
                (How::Iter, 8, 6),
                (How::ParIterConfig, 16, 5),
                (How::Iter, 32, 3),
                (How::ParIter, 64, 3),
                (How::IterConfig, 128, 2),
            ] {
                v.push(Case {
                    shape: Shape { arity, levels },
                    ea: 1,
                    store,
                    how,
                    leaves: Leaves { seed: 7, mode: 0 },
                    ranges: vec![],
                });
            }
        }
        v
    }
    fn rayon_threads() -> usize {
        3
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c.shape.arity {
            32 => with_store!(c.store, El<8>, S, go::<El<8>, MixH, S, typenum::U32>(c, cx)),
            128 => with_store!(c.store, El<20>, S, go::<El<20>, Mix, S, typenum::U128>(c, cx)),
            _ => with_eab!(c.shape.arity, c.ea, E, A, B, with_store!(c.store, E, S, go::<E, A, S, B>(c, cx))),
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "elements of 8, 20, 32 and 48 bytes; arities 2 to 128; at most 2^20 (quick) or 2^21 (thorough) leaves".into(),
            "node values are compared under one order-sensitive streaming hash with the library's default prefixes and one with its own leaf rule and row-bound nodes".into(),
        ]
    }
}

fn go<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let reference = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    cx.label(format!("{:?}/{:?}", c.store, c.how));
    cx.label(format!("arity {}", c.shape.arity));
    cx.label(match n {
        0..=1024 => "leaves <= 1024",
        1025..=4096 => "leaves <= 4096",
        4097..=262_144 => "leaves <= 262144",
        _ => "leaves > 262144",
    });
    if c.shape.levels >= 2 && c.leaves.mode != 1 && c.leaves.mode != 3 {
        cx.nontrivial();
    }
    let dir = cx.dir();
    let cfg = config(&dir, "t", 0);
    type T<E, A, S, B> = MerkleTree<E, A, S, B>;
    let t: anyhow::Result<T<E, A, S, B>> = match c.how {
        How::Iter => T::try_from_iter(items.iter().map(|x| Ok(*x))),
        How::ParIter => T::from_par_iter(items.clone().into_par_iter()),
        How::IterConfig => T::try_from_iter_with_config(items.iter().map(|x| Ok(*x)), cfg),
        How::ParIterConfig => T::from_par_iter_with_config(items.clone().into_par_iter(), cfg),
    };
    let t = t.map_err(|e| format!("a valid build failed: {:?}", e))?;
    observe(&t, &reference, c)?;
    // the documented location and layout of persisted trees
    if matches!(c.how, How::IterConfig | How::ParIterConfig) && c.store == StoreKind::Disk {
        let bytes = std::fs::read(data_file(&dir, "t")).map_err(|e| format!("store file: {}", e))?;
        req!(bytes == reference.flat_bytes(), "the store file does not hold the tree in linear layout");
        let d = DiskStore::<E>::new_from_disk(reference.len(), c.shape.arity, &config(&dir, "t", 0))
            .map_err(|e| format!("reopen: {:?}", e))?;
        req!(d.last().ok() == Some(reference.root()), "the reopened store ends in another root");
    }
    Ok(())
}

fn observe<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(
    t: &MerkleTree<E, A, S, B>,
    r: &RefTree<E>,
    c: &Case,
) -> Result<(), String> {
    let flat = r.flat();
    req!(t.root() == r.root(), "root is {} instead of {}", hex(t.root().bytes()), hex(r.root().bytes()));
    req!(t.leafs() == r.leaves().len(), "leafs() = {}", t.leafs());
    req!(t.len() == flat.len(), "len() = {} instead of {}", t.len(), flat.len());
    req!(t.row_count() == r.rows.len(), "row_count() = {} instead of {}", t.row_count(), r.rows.len());
    req!(!t.is_empty(), "is_empty() of a built tree");
    let all = t.read_range(0, flat.len()).map_err(|e| format!("read_range of everything: {:?}", e))?;
    if let Some(d) = diff(&all, &flat) {
        fail!("{}", d);
    }
    for i in positions(flat.len(), c.leaves.seed, 300) {
        let e = t.read_at(i).map_err(|e| format!("read_at({}): {:?}", i, e))?;
        req!(e == flat[i], "read_at({}) differs from the tree", i);
        let mut buf = vec![0xEEu8; E::LEN];
        t.read_into(i, &mut buf).map_err(|e| format!("read_into({}): {:?}", i, e))?;
        req!(buf == flat[i].bytes(), "read_into({}) differs from the tree", i);
    }
    for &(a, b) in &c.ranges {
        let a = a as usize % flat.len();
        let b = a + 1 + b as usize % (flat.len() - a);
        let got = t.read_range(a, b).map_err(|e| format!("read_range({},{}): {:?}", a, b, e))?;
        if let Some(d) = diff(&got, &flat[a..b]) {
            fail!("read_range({},{}): {}", a, b, d);
        }
        if c.store == StoreKind::Disk {
            let mut buf = vec![0xEEu8; (b - a) * E::LEN];
            t.read_range_into(a, b, &mut buf).map_err(|e| format!("read_range_into({},{}): {:?}", a, b, e))?;
            req!(buf == to_bytes(&flat[a..b]), "read_range_into({},{}) differs", a, b);
        }
    }
    let s = t.data().ok_or("no data store")?;
    req!(s.last().ok() == Some(r.root()), "the last element of the store is not the root");
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
