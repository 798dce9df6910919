//! C20: trees that share a directory live and die on their own.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, LevelCacheStore, MmapStore, Store, StoreConfig, VecStore};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Kind {
    Vec,
    Disk,
    Mmap,
    Compact,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// build under an identifier; over what is there, if something is
    Build { id: u8, kind: Kind, how: u8, levels: u8, discard: u8, leaves: Leaves },
    /// let go of the tree and open it from its file
    Reopen { id: u8, mmap: bool },
    /// let go of the tree
    Drop { id: u8 },
    Compact { id: u8, discard: u8, v1: bool },
    /// through the tree, or through the kind of store alone
    Delete { id: u8, by_tree: bool, kind: Kind },
    /// (memory-mapped) release the mapping and map again
    Reinit { id: u8 },
    Look { id: u8, pick: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    arity: usize,
    ea: u8,
    ids: u8,
    /// other files in the directory, named after an identifier
    others: Vec<(u8, u8)>,
    ops: Vec<Op>,
}

/// Some are prefixes of others, or look like file names.
const IDS: &[&[&str]] = &[&["a", "b", "c", "d"], &["t", "t-0", "t-0.dat", "T"], &["0", "00", "000", "1"], &["x", "x ", "sc-02-data-x", "x.dat"]];

/// What else may lie in the directory: older versions, temporary files, copies, other directories.
const OTHERS: &[&str] = &[
    "sc-01-data-#.dat", "sc-02-data-#.tmp", "sc-02-data-#.dat.tmp", "sc-02-data-#", "sc-02-data-#.bak", "#", "#.dat", "sc-02-data-#.dat~", ".sc-02-data-#.dat",
    "sc-2-data-#.dat", "sc-03-data-#.dat", "sc-02-data-#.dat.lock", "sc-02-data-#0.dat", "more/sc-02-data-#.dat", "tree-#.json", "sc-02-data-#.new", "sc-02-aux-#.dat",
];

struct P;
impl Prop for P {
    const ID: &'static str = "C20";
    const RULE: &'static str = "case = (arity, identifiers, a history of building, reopening, compacting, releasing, deleting and reading trees of several stores under four \
        identifiers of one directory); after every step the directory is compared with a model of it byte by byte, and the trees in hand with their reference; non-trivial: at \
        least two trees live at once and one is compacted, deleted or rebuilt";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let id = || 0u8..4;
        let kind = || prop_oneof![1 => Just(Kind::Vec), 4 => Just(Kind::Disk), 3 => Just(Kind::Mmap), 3 => Just(Kind::Compact)];
        let op = prop_oneof![
            6 => (id(), kind(), 0u8..4, any::<u8>(), any::<u8>(), distinct_leaves()).prop_map(|(id, kind, how, levels, discard, leaves)| Op::Build { id, kind, how, levels, discard, leaves }),
            4 => (id(), any::<bool>()).prop_map(|(id, mmap)| Op::Reopen { id, mmap }),
            1 => id().prop_map(|id| Op::Drop { id }),
            3 => (id(), any::<u8>(), any::<bool>()).prop_map(|(id, discard, v1)| Op::Compact { id, discard, v1 }),
            2 => (id(), any::<bool>(), kind()).prop_map(|(id, by_tree, kind)| Op::Delete { id, by_tree, kind }),
            1 => id().prop_map(|id| Op::Reinit { id }),
            3 => (id(), any::<u64>()).prop_map(|(id, pick)| Op::Look { id, pick }),
        ];
        (
            proptest::sample::select(ARITIES),
            0u8..2,
            0u8..IDS.len() as u8,
            proptest::collection::vec((id(), 0u8..OTHERS.len() as u8), 0..4),
            proptest::collection::vec(op, 1..t.pick(30, 60)),
        )
            .prop_map(|(arity, ea, ids, others, ops)| Case { arity, ea, ids, others, ops })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(36_000, 500_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.arity, c.ea, E, A, B, go::<E, A, B>(c, cx))
    }
    fn assumptions() -> Vec<String> {
        vec!["one process; base trees of at most 512 leaves; a tree in hand is let go before its file is rebuilt by another store".into()]
    }
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;
enum Hand<E: RElem, A: RefAlg<E>, B: Unsigned> {
    None,
    Vec(T<E, A, VecStore<E>, B>, RefTree<E>),
    Disk(T<E, A, DiskStore<E>, B>),
    Mmap(T<E, A, MmapStore<E>, B>),
    Compact(T<E, A, Lc<E>, B>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Whole,
    /// base row and cached rows
    V1(usize),
    /// cached rows
    V2(usize),
}
struct Slot<E: RElem> {
    r: RefTree<E>,
    form: Form,
}
impl<E: RElem> Slot<E> {
    fn bytes(&self) -> Vec<u8> {
        match self.form {
            Form::Whole => self.r.flat_bytes(),
            Form::V1(d) => {
                let mut v = to_bytes(self.r.leaves());
                v.extend(to_bytes(&self.r.cached(d)));
                v
            }
            Form::V2(d) => to_bytes(&self.r.cached(d)),
        }
    }
}

fn build<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(how: u8, items: &[E], cfg: StoreConfig) -> anyhow::Result<T<E, A, S, B>> {
    match how {
        0 => T::new_with_config(items.iter().copied(), cfg),
        1 => T::try_from_iter_with_config(items.iter().map(|x| Ok(*x)), cfg),
        2 => T::from_par_iter_with_config(items.par_iter().copied(), cfg),
        _ => T::from_byte_slice_with_config(&to_bytes(&items.iter().map(|x| A::r_leaf(x)).collect::<Vec<E>>()), cfg),
    }
}

fn go<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let top = cx.dir();
    let dir = top.join("trees");
    std::fs::create_dir(&dir).unwrap_or_else(|e| infra(format!("{}", e)));
    let ids = IDS[c.ids as usize];
    let maxl = (1..10).take_while(|l| c.arity.pow(*l) <= 512).last().unwrap();
    let mut slots: BTreeMap<usize, Slot<E>> = BTreeMap::new();
    let mut others: BTreeMap<std::path::PathBuf, Vec<u8>> = BTreeMap::new();
    for (k, (id, o)) in c.others.iter().enumerate() {
        let p = dir.join(OTHERS[*o as usize].replace('#', ids[*id as usize]));
        if !ids.iter().any(|i| data_file(&dir, i) == p) {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap_or_else(|e| infra(format!("{}", e)));
            let b = vec![0xA5 ^ k as u8; 96 * k];
            write_file(&p, &b);
            others.insert(p, b);
            cx.label("other files");
        }
    }
    let mut hands: Vec<Hand<E, A, B>> = (0..4).map(|_| Hand::None).collect();
    let (mut two, mut changed) = (false, false);
    for (k, op) in c.ops.iter().enumerate() {
        step(c, cx, op, &top, &dir, ids, maxl, &mut slots, &mut hands, &mut changed).map_err(|e| format!("step {} ({:?}): {}", k, op, e))?;
        two |= slots.len() >= 2;
        same_dir(&dir, ids, &slots, &others).map_err(|e| format!("after step {} ({:?}): {}", k, op, e))?;
        cx.count("steps", 1);
    }
    // what is in hand, and then what is on disk alone
    for id in 0..4 {
        look(&hands[id], slots.get(&id), 3).map_err(|e| format!("at the end, tree {}: {}", id, e))?;
    }
    hands.clear();
    for (id, s) in &slots {
        look(&open::<E, A, B>(&top, &dir, ids[*id], s, false)?, Some(s), 3).map_err(|e| format!("at the end, tree {} from disk: {}", id, e))?;
    }
    same_dir(&dir, ids, &slots, &others).map_err(|e| format!("at the end: {}", e))?;
    if two && changed {
        cx.nontrivial();
    }
    Ok(())
}

fn same_dir<E: RElem>(dir: &Path, ids: &[&str], slots: &BTreeMap<usize, Slot<E>>, others: &BTreeMap<std::path::PathBuf, Vec<u8>>) -> Result<(), String> {
    let mut want: BTreeMap<std::path::PathBuf, Vec<u8>> = slots.iter().map(|(id, s)| (data_file(dir, ids[*id]), s.bytes())).collect();
    want.extend(others.iter().map(|(p, b)| (p.clone(), b.clone())));
    let mut found = vec![];
    for d in [dir.to_path_buf(), dir.join("more")] {
        if let Ok(fs) = std::fs::read_dir(&d) {
            found.extend(fs.map(|f| f.unwrap_or_else(|e| infra(format!("{}", e))).path()));
        }
    }
    for p in found {
        if p == dir.join("more") {
            continue;
        }
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        match want.remove(&p) {
            None => fail!("{:?} is in the directory and should not be", name),
            Some(b) => {
                let got = read_file(&p).unwrap_or_default();
                if got != b {
                    let at = got.iter().zip(&b).position(|(x, y)| x != y);
                    fail!("{:?} has {} bytes, expected {}; first difference at {:?}", name, got.len(), b.len(), at);
                }
            }
        }
    }
    if let Some(p) = want.keys().next() {
        fail!("{:?} is missing", p.file_name().unwrap());
    }
    Ok(())
}

fn replica<E: RElem>(top: &Path, r: &RefTree<E>) -> std::path::PathBuf {
    // every tree has its own, so that readers in hand stay valid
    let b = to_bytes(r.leaves());
    let p = top.join(format!("replica-{:016x}-{}", b.iter().fold(7u64, |h, x| fin(h ^ *x as u64)), b.len()));
    if !p.exists() {
        write_file(&p, &b);
    }
    p
}

fn open<E: RElem, A: RefAlg<E>, B: Unsigned>(top: &Path, dir: &Path, id: &str, s: &Slot<E>, mmap: bool) -> Result<Hand<E, A, B>, String> {
    let r = &s.r;
    let n = r.leaves().len();
    let er = |e: anyhow::Error| format!("reopening: {:?}", e);
    Ok(match s.form {
        Form::Whole if mmap => Hand::Mmap(MmapStore::new_from_disk(r.len(), r.arity, &config(dir, id, 0)).and_then(|s| T::from_data_store(s, n)).map_err(er)?),
        Form::Whole => Hand::Disk(DiskStore::new_from_disk(r.len(), r.arity, &config(dir, id, 0)).and_then(|s| T::from_data_store(s, n)).map_err(er)?),
        Form::V1(d) => Hand::Compact(Lc::<E>::new_from_disk(r.len(), r.arity, &config(dir, id, d)).and_then(|s| T::from_data_store(s, n)).map_err(er)?),
        Form::V2(d) => {
            let rep = replica(top, r);
            Hand::Compact(LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, &config(dir, id, d), file_reader(&rep)).and_then(|s| T::from_data_store(s, n)).map_err(er)?)
        }
    })
}

fn look<E: RElem, A: RefAlg<E>, B: Unsigned>(h: &Hand<E, A, B>, s: Option<&Slot<E>>, pick: u64) -> Result<(), String> {
    match (h, s) {
        (Hand::None, _) => Ok(()),
        (Hand::Vec(t, r), _) => same_tree(t, r, pick, 3),
        (Hand::Disk(t), Some(s)) => same_tree(t, &s.r, pick, 3),
        (Hand::Mmap(t), Some(s)) => same_tree(t, &s.r, pick, 3),
        (Hand::Compact(t), Some(Slot { r, form: Form::V1(d) | Form::V2(d) })) => same_lc_tree(t, r, *d, pick, 3),
        _ => infra("model: a tree in hand without its file"),
    }
}

#[allow(clippy::too_many_arguments)]
fn step<E: RElem, A: RefAlg<E>, B: Unsigned>(
    c: &Case,
    cx: &mut Cx,
    op: &Op,
    top: &Path,
    dir: &Path,
    ids: &[&str],
    maxl: u32,
    slots: &mut BTreeMap<usize, Slot<E>>,
    hands: &mut [Hand<E, A, B>],
    changed: &mut bool,
) -> Result<(), String> {
    match op {
        Op::Build { id, kind, how, levels, discard, leaves } => {
            let id = *id as usize;
            hands[id] = Hand::None;
            let l = 1 + *levels as u32 % maxl;
            let n = c.arity.pow(l);
            let items: Vec<E> = leaves.items(n);
            let r = RefTree::<E>::from_items::<A>(&items, c.arity);
            let d = *discard as usize % l as usize;
            let cfg = config(dir, ids[id], d);
            if *kind == Kind::Vec {
                let t = guard(|| build::<E, A, VecStore<E>, B>(*how, &items, cfg)).map_err(|p| format!("panic: {}", p))?.map_err(|e| format!("build: {:?}", e))?;
                same_tree(&t, &r, 1, 3)?;
                hands[id] = Hand::Vec(t, r);
                return Ok(());
            }
            let built: Result<anyhow::Result<Hand<E, A, B>>, String> = guard(|| {
                Ok(match kind {
                    Kind::Disk => Hand::Disk(build(*how, &items, cfg.clone())?),
                    Kind::Mmap => Hand::Mmap(build(*how, &items, cfg.clone())?),
                    _ => Hand::Compact(build(*how, &items, cfg.clone())?),
                })
            });
            let built = built.map_err(|p| format!("panic: {}", p))?;
            match slots.get(&id) {
                None => {
                    let mut h = built.map_err(|e| format!("build: {:?}", e))?;
                    let mut form = Form::Whole;
                    if let Hand::Compact(t) = &mut h {
                        form = Form::V2(d);
                        t.set_external_reader_path(&replica(top, &r)).map_err(|e| format!("reader: {:?}", e))?;
                    }
                    let s = Slot { r, form };
                    look(&h, Some(&s), 2)?;
                    slots.insert(id, s);
                    hands[id] = h;
                    cx.label("built");
                }
                Some(s) => {
                    *changed = true;
                    // what is there stays; it is loaded if it is a complete tree of that size
                    let fits = s.form == Form::Whole && s.r.len() == r.len() && (*kind == Kind::Disk || *kind == Kind::Mmap);
                    if fits {
                        match built {
                            Ok(h) => {
                                look(&h, Some(s), 2).map_err(|e| format!("built over a tree that is there: {}", e))?;
                                hands[id] = h;
                                cx.label("built over the same size");
                            }
                            Err(e) => req!(*how == 3, "building over a tree that is there fails: {:?}", e),
                        }
                    } else if *kind == Kind::Disk || *kind == Kind::Mmap {
                        let whole = r.len() * E::LEN;
                        if s.bytes().len() != whole {
                            req!(built.is_err(), "building over a file of {} bytes instead of {} succeeds", s.bytes().len(), whole);
                            cx.label("built over another size");
                        }
                    }
                }
            }
        }
        Op::Reopen { id, mmap } => {
            let id = *id as usize;
            hands[id] = Hand::None;
            match slots.get(&id) {
                Some(s) => {
                    let h = open(top, dir, ids[id], s, *mmap)?;
                    look(&h, Some(s), 4)?;
                    hands[id] = h;
                    cx.label("reopened");
                }
                None => {
                    let len = Shape { arity: c.arity, levels: 1 }.len();
                    let cfg = config(dir, ids[id], 0);
                    req!(DiskStore::<E>::new_from_disk(len, c.arity, &cfg).is_err(), "a tree that is not there is opened");
                    req!(matches!(guard(|| MmapStore::<E>::new_from_disk(len, c.arity, &cfg)), Ok(Err(_))), "a tree that is not there is memory-mapped, or a panic");
                    req!(Lc::<E>::new_from_disk(len, c.arity, &cfg).is_err(), "a compact tree that is not there is opened");
                    cx.label("not there");
                }
            }
        }
        Op::Drop { id } => hands[*id as usize] = Hand::None,
        Op::Compact { id, discard, v1 } => {
            let id = *id as usize;
            let ver = if *v1 { 1 } else { 2 };
            match std::mem::replace(&mut hands[id], Hand::None) {
                Hand::Disk(mut t) => {
                    let s = slots.get_mut(&id).unwrap();
                    let d = *discard as usize % (s.r.rows.len() - 1);
                    // keeping every row is not a compaction, in the format that keeps the base row
                    let res = t.compact(config(dir, ids[id], d), ver);
                    match res {
                        Ok(true) => {}
                        o => fail!("compaction to {}: {:?}", d, o),
                    }
                    s.form = if *v1 { Form::V1(d) } else { Form::V2(d) };
                    *changed = true;
                    cx.label("compacted");
                }
                Hand::Mmap(mut t) => {
                    let s = &slots[&id];
                    let res = t.compact(config(dir, ids[id], 0), ver).map_err(|e| format!("release of a mapping: {:?}", e))?;
                    req!(res, "nothing to release");
                    t.reinit().map_err(|e| format!("mapping again: {:?}", e))?;
                    let h = Hand::Mmap(t);
                    look(&h, Some(s), 5)?;
                    hands[id] = h;
                    cx.label("mapping released");
                }
                Hand::Compact(mut t) => {
                    req!(t.compact(config(dir, ids[id], 0), ver).is_err(), "a compact tree is compacted again");
                    let h = Hand::Compact(t);
                    look(&h, slots.get(&id), 5)?;
                    hands[id] = h;
                }
                h => hands[id] = h,
            }
        }
        Op::Delete { id, by_tree, kind } => {
            let id = *id as usize;
            let cfg = config(dir, ids[id], 0);
            let h = std::mem::replace(&mut hands[id], Hand::None);
            let mut nothing = false;
            let res = guard(|| {
                if *by_tree && !matches!(h, Hand::None) {
                    match &h {
                        Hand::Vec(t, _) => {
                            nothing = true;
                            t.delete(cfg)
                        }
                        Hand::Disk(t) => t.delete(cfg),
                        Hand::Mmap(t) => t.delete(cfg),
                        Hand::Compact(t) => t.delete(cfg),
                        Hand::None => unreachable!(),
                    }
                } else {
                    match kind {
                        Kind::Vec => {
                            nothing = true;
                            VecStore::<E>::delete(cfg)
                        }
                        Kind::Disk => DiskStore::<E>::delete(cfg),
                        Kind::Mmap => MmapStore::<E>::delete(cfg),
                        Kind::Compact => Lc::<E>::delete(cfg),
                    }
                }
            })
            .map_err(|p| format!("delete panics: {}", p))?;
            if nothing {
                // a store in memory has no file: it must not take another store's
                hands[id] = h;
                cx.label("nothing to delete");
                return Ok(());
            }
            if slots.contains_key(&id) {
                res.map_err(|e| format!("delete: {:?}", e))?;
                slots.remove(&id);
                *changed = true;
                cx.label("deleted");
                // a tree in hand may not be used further, but letting it go brings nothing back
                drop(h);
            } else {
                req!(res.is_err(), "deleting what is not there is no error");
            }
        }
        Op::Reinit { id } => {
            let id = *id as usize;
            if let Hand::Mmap(t) = &mut hands[id] {
                t.reinit().map_err(|e| format!("mapping again: {:?}", e))?;
                cx.label("mapped again");
            }
            look(&hands[id], slots.get(&id), 6)?;
        }
        Op::Look { id, pick } => look(&hands[*id as usize], slots.get(&(*id as usize)), *pick)?,
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
