//! C11: what is not the shape of a tree is refused with an error, and leaves nothing behind.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, ReplicaConfig, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::{Unsigned, U0};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    Vec,
    Disk,
    Mmap,
    Lc,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// a number of leaves that is no power of the arity
    Count { arity: usize, ea: u8, kind: Kind, n: usize, discard: usize, leaves: Leaves },
    /// an arity that is no power of two (or zero)
    Arity { arity: usize, kind: Kind, n: usize, leaves: Leaves },
    /// bytes that do not match the number of leaves they are declared to have
    Bytes { arity: usize, ea: u8, kind: Kind, levels: u32, declared: usize, elements: i64, bytes: usize, leaves: Leaves },
    /// iterators without a size, or that deliver fewer items than announced
    Iter { arity: usize, ea: u8, kind: Kind, levels: u32, drop: Vec<u16>, hint: bool, leaves: Leaves },
    /// trees of trees from the wrong parts
    Compound { k: usize, levels: u32, kind: Kind, wrong: Wrong, at: u16, leaves: Leaves },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Wrong {
    /// this many parts instead of the right number
    Parts(usize),
    /// one part is larger
    Larger,
    /// one part is missing on disk
    Missing,
    /// a list of configurations or offsets of another length
    Lists(i8),
    /// declared with another number of leaves
    Leafs(usize),
    /// layers that the type does not have, or has in addition
    Layers,
}

fn arity() -> impl Strategy<Value = usize> {
    prop_oneof![3 => Just(2usize), 3 => Just(4), 3 => Just(8), 1 => Just(16), 1 => Just(64)]
}
fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![Just(Kind::Vec), Just(Kind::Disk), Just(Kind::Mmap), Just(Kind::Lc)]
}
fn count() -> impl Strategy<Value = usize> {
    prop_oneof![
        4 => 0usize..70,
        2 => (1u32..14).prop_map(|k| 1usize << k),
        2 => (1u32..13, 0usize..3).prop_map(|(k, d)| ((1usize << k) + d).saturating_sub(1)),
        2 => 0usize..5000,
    ]
}
fn is_power(n: usize, a: usize) -> bool {
    let mut x = a;
    while x < n {
        x *= a;
    }
    x == n
}

struct P;
impl Prop for P {
    const ID: &'static str = "C11";
    const RULE: &'static str = "case = (a constructor family, a store, and one thing that is wrong with the shape: number of leaves, arity, byte length, declared leaves, iterator \
        shorter than announced or without a size, parts of a tree of trees missing, surplus, of unequal size or not on disk); non-trivial: the input really has no valid shape";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        prop_oneof![
            4 => (arity(), 0u8..2, kind(), count(), 0usize..4, leaves())
                .prop_map(|(arity, ea, kind, n, discard, leaves)| Case::Count { arity, ea, kind, n, discard, leaves }),
            1 => (prop_oneof![Just(0usize), Just(3), Just(5), Just(6), Just(7), Just(9), Just(12)], kind(), prop_oneof![count(), (1u32..5).prop_map(|k| 3usize.pow(k)), (1u32..4).prop_map(|k| 6usize.pow(k))], leaves())
                .prop_map(|(arity, kind, n, leaves)| Case::Arity { arity, kind, n, leaves }),
            4 => (arity(), 0u8..2, kind(), 1u32..7, prop_oneof![3 => Just(0usize), 2 => count()], prop_oneof![1 => Just(0i64), 3 => -3i64..4, 1 => -400i64..400], prop_oneof![2 => Just(0usize), 1 => 1usize..60], leaves())
                .prop_map(|(arity, ea, kind, levels, declared, elements, bytes, leaves)| Case::Bytes { arity, ea, kind, levels, declared, elements, bytes, leaves }),
            3 => (arity(), 0u8..2, kind(), 1u32..7, prop_oneof![Just(vec![]), proptest::collection::vec(any::<u16>(), 1..6), proptest::collection::vec(any::<u16>(), 1..200)], prop::bool::weighted(0.8), leaves())
                .prop_map(|(arity, ea, kind, levels, drop, hint, leaves)| Case::Iter { arity, ea, kind, levels, drop, hint, leaves }),
            5 => (compound(64), kind(), prop_oneof![
                    (0usize..14).prop_map(Wrong::Parts), Just(Wrong::Larger), Just(Wrong::Missing), (-3i8..4).prop_map(Wrong::Lists), count().prop_map(Wrong::Leafs), Just(Wrong::Layers)
                ], any::<u16>(), leaves())
                .prop_map(|((k, levels), kind, wrong, at, leaves)| Case::Compound { k, levels, kind, wrong, at, leaves }),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(160_000, 2_400_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        let leaves = Leaves { seed: 2, mode: 0 };
        for kind in [Kind::Vec, Kind::Disk, Kind::Mmap, Kind::Lc] {
            for (arity, n) in [(4, 1 << 13), (8, 1 << 13), (16, 1 << 13), (64, 1 << 13), (2, 6000), (4, 1 << 17), (8, 1 << 16), (2, 100_000)] {
                v.push(Case::Count { arity, ea: 0, kind, n, discard: 1, leaves });
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c {
            Case::Count { arity, ea, kind, n, discard, leaves } => {
                if is_power(*n, *arity) {
                    cx.label("valid after all");
                    return Ok(());
                }
                cx.label(format!("count {:?}", kind));
                cx.nontrivial();
                with_eab!(*arity, *ea, E, A, B, bases::<E, A, B>(*kind, *n, *discard, *leaves, cx))
            }
            Case::Arity { arity, kind, n, leaves } => {
                cx.label(format!("arity {}", arity));
                cx.nontrivial();
                use typenum::*;
                type E = [u8; 32];
                match arity {
                    0 => bases::<E, Mix, U0>(*kind, *n, 1, *leaves, cx),
                    3 => bases::<E, Mix, U3>(*kind, *n, 1, *leaves, cx),
                    5 => bases::<E, Mix, U5>(*kind, *n, 1, *leaves, cx),
                    6 => bases::<E, Mix, U6>(*kind, *n, 1, *leaves, cx),
                    7 => bases::<E, Mix, U7>(*kind, *n, 1, *leaves, cx),
                    9 => bases::<E, Mix, U9>(*kind, *n, 1, *leaves, cx),
                    _ => bases::<E, Mix, U12>(*kind, *n, 1, *leaves, cx),
                }
            }
            Case::Bytes { arity, ea, kind, levels, declared, elements, bytes, leaves } => {
                let s = Shape { arity: *arity, levels: fit(*arity, *levels) };
                with_eab!(*arity, *ea, E, A, B, match kind {
                    Kind::Vec => slices::<E, A, merkletree::store::VecStore<E>, B>(*kind, s, *declared, *elements, *bytes, *leaves, cx),
                    Kind::Disk => slices::<E, A, DiskStore<E>, B>(*kind, s, *declared, *elements, *bytes, *leaves, cx),
                    Kind::Mmap => slices::<E, A, merkletree::store::MmapStore<E>, B>(*kind, s, *declared, *elements, *bytes, *leaves, cx),
                    Kind::Lc => slices::<E, A, Lc<E>, B>(*kind, s, *declared, *elements, *bytes, *leaves, cx),
                })
            }
            Case::Iter { arity, ea, kind, levels, drop, hint, leaves } => {
                let s = Shape { arity: *arity, levels: fit(*arity, *levels) };
                with_eab!(*arity, *ea, E, A, B, match kind {
                    Kind::Vec => iters::<E, A, merkletree::store::VecStore<E>, B>(*kind, s, drop, *hint, *leaves, cx),
                    Kind::Disk => iters::<E, A, DiskStore<E>, B>(*kind, s, drop, *hint, *leaves, cx),
                    Kind::Mmap => iters::<E, A, merkletree::store::MmapStore<E>, B>(*kind, s, drop, *hint, *leaves, cx),
                    Kind::Lc => iters::<E, A, Lc<E>, B>(*kind, s, drop, *hint, *leaves, cx),
                })
            }
            Case::Compound { k, levels, kind, wrong, at, leaves } => {
                cx.label(format!("compound {}", format!("{:?}", wrong).split('(').next().unwrap()));
                match kind {
                    Kind::Vec => with_compound!(*k, E, A, B, Sub, Top, parts::<E, A, merkletree::store::VecStore<E>, B, Sub, Top>(*k, *levels, *kind, *wrong, *at, *leaves, cx)),
                    Kind::Disk => with_compound!(*k, E, A, B, Sub, Top, parts::<E, A, DiskStore<E>, B, Sub, Top>(*k, *levels, *kind, *wrong, *at, *leaves, cx)),
                    Kind::Mmap => with_compound!(*k, E, A, B, Sub, Top, parts::<E, A, merkletree::store::MmapStore<E>, B, Sub, Top>(*k, *levels, *kind, *wrong, *at, *leaves, cx)),
                    Kind::Lc => with_compound!(*k, E, A, B, Sub, Top, replicas::<E, A, B, Sub, Top>(*k, *levels, *wrong, *at, *leaves, cx)),
                }
            }
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "iterators keep the contract of their size hint; arities of one and leaf counts above 2^17 are not tried".into(),
            "that nothing is left on disk is required of the disk and level-cache stores: deleting is documented as a no-op for the others".into(),
            "reads past the end of an in-memory store panic, so a byte length with a partial element is not tried on it".into(),
        ]
    }
}

fn fit(arity: usize, levels: u32) -> u32 {
    let mut l = levels;
    while arity.pow(l) > 4096 {
        l -= 1;
    }
    l
}

/// must be an error, and not a panic
fn refused<T>(name: &str, f: impl FnOnce() -> anyhow::Result<T>) -> Result<(), String> {
    match guard(f) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{} accepts it", name)),
        Err(p) => Err(format!("{} panics: {}", name, p)),
    }
}
fn no_files(dir: &std::path::Path, what: &str) -> Result<(), String> {
    let names: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_else(|e| infra(format!("{}", e)));
    if names.is_empty() {
        return Ok(());
    }
    Err(format!("{} leaves {:?} behind", what, names))
}

fn bases<E: RElem, A: RefAlg<E>, B: Unsigned>(kind: Kind, n: usize, discard: usize, leaves: Leaves, cx: &mut Cx) -> Result<(), String> {
    match kind {
        Kind::Vec => base::<E, A, merkletree::store::VecStore<E>, B>(kind, n, discard, leaves, cx),
        Kind::Disk => base::<E, A, DiskStore<E>, B>(kind, n, discard, leaves, cx),
        Kind::Mmap => base::<E, A, merkletree::store::MmapStore<E>, B>(kind, n, discard, leaves, cx),
        Kind::Lc => base::<E, A, Lc<E>, B>(kind, n, discard, leaves, cx),
    }
}
/// every constructor on n leaves, which cannot form a tree of that arity
fn base<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(kind: Kind, n: usize, discard: usize, leaves: Leaves, cx: &mut Cx) -> Result<(), String> {
    type T<E, A, S, B> = MerkleTree<E, A, S, B>;
    let items: Vec<E> = leaves.items(n);
    let bytes = to_bytes(&items);
    let dir = cx.dir();
    let mut ids = 0;
    let mut cfg = || {
        ids += 1;
        config(&dir, &format!("t{}", ids), discard)
    };
    let what = |s: &str| format!("{} of {} leaves (arity {}, {:?})", s, n, B::to_usize(), kind);
    let gone = |s: &str| if kind == Kind::Disk || kind == Kind::Lc { no_files(&dir, s) } else { Ok(()) };
    if kind != Kind::Lc {
        refused(&what("new"), || T::<E, A, S, B>::new(items.iter().copied()))?;
        refused(&what("try_from_iter"), || T::<E, A, S, B>::try_from_iter(items.iter().map(|x| Ok(*x))))?;
        refused(&what("from_par_iter"), || T::<E, A, S, B>::from_par_iter(items.par_iter().copied()))?;
        refused(&what("from_data"), || T::<E, A, S, B>::from_data(items.iter().map(|x| x.bytes().to_vec())))?;
        refused(&what("from_byte_slice"), || T::<E, A, S, B>::from_byte_slice(&bytes))?;
    }
    let c = cfg();
    refused(&what("new_with_config"), || T::<E, A, S, B>::new_with_config(items.iter().copied(), c))?;
    gone(&what("new_with_config"))?;
    let c = cfg();
    refused(&what("try_from_iter_with_config"), || T::<E, A, S, B>::try_from_iter_with_config(items.iter().map(|x| Ok(*x)), c))?;
    let c = cfg();
    refused(&what("from_par_iter_with_config"), || T::<E, A, S, B>::from_par_iter_with_config(items.par_iter().copied(), c))?;
    gone(&what("from_par_iter_with_config"))?;
    let c = cfg();
    refused(&what("from_data_with_config"), || T::<E, A, S, B>::from_data_with_config(items.iter().map(|x| x.bytes().to_vec()), c))?;
    let c = cfg();
    refused(&what("from_byte_slice_with_config"), || T::<E, A, S, B>::from_byte_slice_with_config(&bytes, c))?;
    gone(&what("from_byte_slice_with_config"))?;
    Ok(())
}

/// complete trees as bytes, with a wrong length or a wrong number of declared leaves
fn slices<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(kind: Kind, s: Shape, declared: usize, elements: i64, partial: usize, leaves: Leaves, cx: &mut Cx) -> Result<(), String> {
    type T<E, A, S, B> = MerkleTree<E, A, S, B>;
    let n = s.leafs();
    let flat = leaves.items::<E>((s.len() as i64 + elements).max(0) as usize);
    let mut bytes = to_bytes(&flat);
    let partial = if kind == Kind::Vec { 0 } else { partial % E::LEN };
    bytes.extend(std::iter::repeat(7u8).take(partial));
    let declared = if declared == 0 { n } else { declared };
    let right = is_power(declared, s.arity) && bytes.len() == (Shape { arity: s.arity, levels: (1..64).find(|l| s.arity.pow(*l) == declared).unwrap_or(1) }.len()) * E::LEN;
    if right {
        cx.label("valid after all");
        return Ok(());
    }
    cx.label(format!("bytes {:?}", kind));
    cx.nontrivial();
    let dir = cx.dir();
    let what = |s: &str| format!("{} of {} bytes as a tree of {} leaves (arity {}, {:?})", s, bytes.len(), declared, B::to_usize(), kind);
    refused(&what("from_tree_slice"), || T::<E, A, S, B>::from_tree_slice(&bytes, declared))?;
    refused(&what("from_tree_slice_with_config"), || T::<E, A, S, B>::from_tree_slice_with_config(&bytes, declared, config(&dir, "a", 0)))?;
    if kind == Kind::Disk || kind == Kind::Lc {
        no_files(&dir, &what("from_tree_slice_with_config"))?;
    }
    if partial == 0 && !flat.is_empty() {
        refused(&what("from_data_store"), || T::<E, A, S, B>::from_data_store(S::new_from_slice(flat.len(), &bytes)?, declared))?;
    }
    // leaves with a partial element at the end
    if partial > 0 {
        let mut b = to_bytes(&leaves.items::<E>(n));
        b.extend(std::iter::repeat(7u8).take(partial));
        if kind != Kind::Lc {
            refused(&what("from_byte_slice"), || T::<E, A, S, B>::from_byte_slice(&b))?;
        }
        refused(&what("from_byte_slice_with_config"), || T::<E, A, S, B>::from_byte_slice_with_config(&b, config(&dir, "b", 0)))?;
        if kind == Kind::Disk || kind == Kind::Lc {
            no_files(&dir, &what("from_byte_slice_with_config"))?;
        }
    }
    Ok(())
}

fn iters<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(kind: Kind, s: Shape, drop: &[u16], hint: bool, leaves: Leaves, cx: &mut Cx) -> Result<(), String> {
    type T<E, A, S, B> = MerkleTree<E, A, S, B>;
    let n = s.leafs();
    let items: Vec<E> = leaves.items(n);
    let dir = cx.dir();
    let skip: std::collections::HashSet<usize> = drop.iter().map(|d| *d as usize % n).collect();
    if hint && skip.is_empty() {
        cx.label("valid after all");
        return Ok(());
    }
    cx.label(if hint { "iterator shorter than announced" } else { "iterator without a size" });
    cx.nontrivial();
    // a filter announces the length of what it filters; a from_fn announces nothing
    let it = || -> Box<dyn Iterator<Item = E> + '_> {
        let mut inner = items.iter().copied().enumerate().filter(|(i, _)| !skip.contains(i)).map(|(_, x)| x);
        if hint {
            Box::new(inner)
        } else {
            Box::new(std::iter::from_fn(move || inner.next()))
        }
    };
    let what = |f: &str| format!("{} of {} announced and {} delivered leaves (size known: {}, {:?})", f, n, n - skip.len(), hint, kind);
    let gone = |f: &str| if kind == Kind::Disk || kind == Kind::Lc { no_files(&dir, &what(f)) } else { Ok(()) };
    if kind != Kind::Lc {
        refused(&what("new"), || T::<E, A, S, B>::new(it()))?;
        refused(&what("try_from_iter"), || T::<E, A, S, B>::try_from_iter(it().map(Ok)))?;
        refused(&what("from_data"), || T::<E, A, S, B>::from_data(it().map(|x| x.bytes().to_vec())))?;
    }
    refused(&what("new_with_config"), || T::<E, A, S, B>::new_with_config(it(), config(&dir, "a", 0)))?;
    gone("new_with_config")?;
    refused(&what("try_from_iter_with_config"), || T::<E, A, S, B>::try_from_iter_with_config(it().map(Ok), config(&dir, "b", 0)))?;
    refused(&what("from_data_with_config"), || T::<E, A, S, B>::from_data_with_config(it().map(|x| x.bytes().to_vec()), config(&dir, "c", 0)))?;
    gone("from_data_with_config")
}

type T1<E, A, S, B> = MerkleTree<E, A, S, B>;
type T2<E, A, S, B, Sub> = MerkleTree<E, A, S, B, Sub>;
type T3<E, A, S, B, Sub, Top> = MerkleTree<E, A, S, B, Sub, Top>;

fn parts<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(
    k: usize,
    levels: u32,
    kind: Kind,
    wrong: Wrong,
    at: u16,
    leaves: Leaves,
    cx: &mut Cx,
) -> Result<(), String> {
    let (arity, sub, top) = COMPOUNDS[k];
    let right = sub * top.max(1);
    let n = arity.pow(levels);
    let mut sizes = vec![n; right];
    let mut declared = n;
    let mut lists = 0i8;
    match wrong {
        Wrong::Parts(p) if p != right => sizes = vec![n; p],
        Wrong::Larger if right > 1 => {
            let i = at as usize % right;
            sizes[i] = n * arity;
        }
        Wrong::Missing if kind != Kind::Vec => {}
        Wrong::Lists(d) if d != 0 => lists = d,
        Wrong::Leafs(d) if d != n => declared = d,
        Wrong::Layers => {}
        _ => {
            cx.label("valid after all");
            return Ok(());
        }
    }
    cx.nontrivial();
    let refs: Vec<RefTree<E>> = sizes.iter().enumerate().map(|(i, n)| RefTree::from_items::<A>(&leaves.offset(i as u64).items::<E>(*n), arity)).collect();
    let flats: Vec<Vec<u8>> = refs.iter().map(|r| r.flat_bytes()).collect();
    let sl: Vec<&[u8]> = flats.iter().map(|f| &f[..]).collect();
    let dir = cx.dir();
    let trees = || -> Vec<T1<E, A, S, B>> {
        flats
            .iter()
            .zip(&sizes)
            .map(|(f, n)| match T1::<E, A, S, B>::from_tree_slice(f, *n) {
                Ok(t) => t,
                Err(e) => infra(format!("building a valid part failed: {:?}", e)),
            })
            .collect()
    };
    let stores = || -> Vec<S> { flats.iter().map(|f| S::new_from_slice(f.len() / E::LEN, f).unwrap_or_else(|e| infra(format!("part: {:?}", e)))).collect() };
    let what = |s: &str| format!("{} with {:?} (layers {:?}, {:?})", s, wrong, COMPOUNDS[k], kind);
    // files of the parts, as configurations refer to them
    let mut cfgs: Vec<StoreConfig> = (0..flats.len()).map(|i| config(&dir, &format!("p{}", i), 0)).collect();
    let hole = if wrong == Wrong::Missing { Some(at as usize % cfgs.len()) } else { None };
    for (i, f) in flats.iter().enumerate() {
        if Some(i) != hole {
            write_file(&data_file(&dir, &format!("p{}", i)), f);
        }
    }
    for i in 0..lists.unsigned_abs() as usize {
        if lists > 0 {
            cfgs.push(config(&dir, &format!("more{}", i), 0));
            write_file(&data_file(&dir, &format!("more{}", i)), &flats[0]);
        } else {
            cfgs.pop();
        }
    }
    let slice_cfgs: Vec<StoreConfig> = (0..cfgs.len()).map(|i| config(&dir, &format!("s{}", i), 0)).collect();

    if wrong == Wrong::Layers {
        // a tree without layers cannot be assembled from trees, one with layers not from one store
        refused(&what("from_trees"), || T1::<E, A, S, B>::from_trees(trees()))?;
        refused(&what("from_sub_trees_as_trees"), || T2::<E, A, S, B, Sub>::from_sub_trees_as_trees(trees()))?;
        refused(&what("from_tree_slice"), || T2::<E, A, S, B, Sub>::from_tree_slice(&flats[0], n))?;
        refused(&what("from_tree_slice_with_config"), || T2::<E, A, S, B, Sub>::from_tree_slice_with_config(&flats[0], n, config(&dir, "x", 0)))?;
        refused(&what("from_data_store"), || T2::<E, A, S, B, Sub>::from_data_store(stores().remove(0), n))?;
        // upper layers without the one below
        refused(&what("from_data_store (top only)"), || T3::<E, A, S, B, typenum::U0, Sub>::from_data_store(stores().remove(0), n))?;
        refused(&what("from_tree_slice (top only)"), || T3::<E, A, S, B, typenum::U0, Sub>::from_tree_slice(&flats[0], n))?;
        refused(&what("from_tree_slice_with_config (top only)"), || {
            T3::<E, A, S, B, typenum::U0, Sub>::from_tree_slice_with_config(&flats[0], n, config(&dir, "y", 0))
        })?;
        refused(&what("from_store_configs"), || T1::<E, A, DiskStore<E>, B>::from_store_configs(n, &cfgs))?;
        refused(&what("from_sub_tree_store_configs"), || T2::<E, A, DiskStore<E>, B, Sub>::from_sub_tree_store_configs(n, &cfgs))?;
        refused(&what("from_slices"), || T1::<E, A, S, B>::from_slices(&sl, n))?;
        return Ok(());
    }
    if top == 0 {
        if lists == 0 && declared == n && hole.is_none() {
            refused(&what("from_trees"), || T3::<E, A, S, B, Sub, Top>::from_trees(trees()))?;
        }
        if lists == 0 && hole.is_none() {
            refused(&what("from_slices"), || T2::<E, A, S, B, Sub>::from_slices(&sl, declared))?;
            refused(&what("from_stores"), || T3::<E, A, S, B, Sub, Top>::from_stores(declared, stores()))?;
        }
        if hole.is_none() {
            refused(&what("from_slices_with_configs"), || T3::<E, A, S, B, Sub, Top>::from_slices_with_configs(&sl, declared, &slice_cfgs))?;
        }
        if kind != Kind::Vec {
            refused(&what("from_store_configs"), || T3::<E, A, S, B, Sub, Top>::from_store_configs(declared, &cfgs))?;
        }
    } else {
        if lists == 0 && declared == n && hole.is_none() {
            refused(&what("from_sub_trees_as_trees"), || T3::<E, A, S, B, Sub, Top>::from_sub_trees_as_trees(trees()))?;
            // whole groups of trees
            if sizes.iter().all(|s| *s == n) && sizes.len() % sub == 0 {
                refused(&what("from_sub_trees"), || {
                    let mut all = trees().into_iter();
                    let mut groups = vec![];
                    for _ in 0..sizes.len() / sub {
                        match T2::<E, A, S, B, Sub>::from_trees(all.by_ref().take(sub).collect()) {
                            Ok(g) => groups.push(g),
                            Err(e) => infra(format!("building a valid group failed: {:?}", e)),
                        }
                    }
                    T3::<E, A, S, B, Sub, Top>::from_sub_trees(groups)
                })?;
            }
            if wrong == Wrong::Larger && top > 1 {
                // one group of larger trees
                refused(&what("from_sub_trees"), || {
                    let mut groups = vec![];
                    for g in 0..top {
                        let big = g == at as usize % top;
                        let n = if big { n * arity } else { n };
                        let ts = (0..sub)
                            .map(|i| T1::<E, A, S, B>::from_tree_slice(&RefTree::from_items::<A>(&leaves.offset(i as u64).items::<E>(n), arity).flat_bytes(), n))
                            .collect::<anyhow::Result<Vec<_>>>()
                            .unwrap_or_else(|e| infra(format!("part: {:?}", e)));
                        groups.push(T2::<E, A, S, B, Sub>::from_trees(ts).unwrap_or_else(|e| infra(format!("group: {:?}", e))));
                    }
                    T3::<E, A, S, B, Sub, Top>::from_sub_trees(groups)
                })?;
            }
        }
        if kind != Kind::Vec {
            refused(&what("from_sub_tree_store_configs"), || T3::<E, A, S, B, Sub, Top>::from_sub_tree_store_configs(declared, &cfgs))?;
        }
    }
    // files of the parts are not touched, and a missing one is not made up
    for (i, f) in flats.iter().enumerate() {
        let got = read_file(&data_file(&dir, &format!("p{}", i)));
        if Some(i) == hole {
            req!(got.is_none(), "{}: the missing store was created ({} bytes)", what("assembling"), got.unwrap().len());
        } else {
            req!(got.as_ref() == Some(f), "{}: the file of a part changed", what("assembling"));
        }
    }
    Ok(())
}

/// the same for compacted trees with a shared replica
fn replicas<E: RElem, A: RefAlg<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(k: usize, levels: u32, wrong: Wrong, at: u16, leaves: Leaves, cx: &mut Cx) -> Result<(), String> {
    let (arity, sub, top) = COMPOUNDS[k];
    let right = sub * top.max(1);
    let n = arity.pow(levels);
    let d = at as usize % levels as usize;
    let mut count = right;
    let mut declared = n;
    let mut offsets = 0i8;
    let mut bigger = None;
    let mut hole = None;
    match wrong {
        Wrong::Parts(p) if p != right => count = p,
        Wrong::Larger => bigger = Some((at / 7) as usize % right),
        Wrong::Missing => hole = Some((at / 7) as usize % (right + 1)), // one past the end: the replica itself
        Wrong::Lists(d) if d != 0 => offsets = d,
        Wrong::Leafs(l) if l != n => declared = l,
        _ => {
            cx.label("valid after all");
            return Ok(());
        }
    }
    cx.nontrivial();
    let dir = cx.dir();
    let mut replica = vec![];
    let mut offs = vec![];
    let mut cfgs = vec![];
    let mut files = vec![];
    for i in 0..count {
        let m = if bigger == Some(i) { n * arity } else { n };
        let r = RefTree::<E>::from_items::<A>(&leaves.offset(i as u64).items::<E>(m), arity);
        offs.push(replica.len());
        replica.extend(to_bytes(r.leaves()));
        cfgs.push(config(&dir, &format!("p{}", i), d));
        let f = to_bytes(&r.cached(d));
        if hole != Some(i) {
            write_file(&data_file(&dir, &format!("p{}", i)), &f);
            files.push((format!("p{}", i), f));
        }
    }
    for i in 0..offsets.unsigned_abs() as usize {
        if offsets > 0 {
            offs.push(i);
        } else {
            offs.pop();
        }
    }
    let rp = dir.join("replica");
    if hole != Some(right) {
        write_file(&rp, &replica);
    }
    let rc = ReplicaConfig::new(rp, offs);
    let what = |s: &str| format!("{} with {:?} (layers {:?}, discard {})", s, wrong, COMPOUNDS[k], d);
    if top == 0 {
        refused(&what("from_store_configs_and_replica"), || T3::<E, A, Lc<E>, B, Sub, Top>::from_store_configs_and_replica(declared, &cfgs, &rc))?;
        refused(&what("from_store_configs_and_replica"), || T3::<E, A, Lc<E>, B, U0, U0>::from_store_configs_and_replica(declared, &cfgs, &rc))?;
    } else {
        refused(&what("from_sub_tree_store_configs_and_replica"), || T3::<E, A, Lc<E>, B, Sub, Top>::from_sub_tree_store_configs_and_replica(declared, &cfgs, &rc))?;
    }
    refused(&what("from_sub_tree_store_configs_and_replica"), || T2::<E, A, Lc<E>, B, Sub>::from_sub_tree_store_configs_and_replica(declared, &cfgs, &rc))?;
    for (id, f) in &files {
        req!(read_file(&data_file(&dir, id)).as_ref() == Some(f), "{}: the file of a part changed", what("assembling"));
    }
    if let Some(h) = hole {
        req!(read_file(&data_file(&dir, &format!("p{}", h))).is_none(), "{}: the missing store was created", what("assembling"));
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
