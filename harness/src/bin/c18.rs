//! C18: a build that cannot complete says so, and leaves nothing that passes for a tree.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, LevelCacheStore, MmapStore, Store, StoreConfig, VecStore};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Sk {
    Vec,
    Disk,
    Mmap,
    Compact,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    /// the iterator yields errors at these places
    Items(Vec<u32>),
    /// so many more files can be opened
    Files(u8),
    /// no file can grow beyond this share of the tree (in 1/256)
    Space(u8),
    NoDir,
    DirIsFile,
    DataIsDir,
    /// an unprivileged user, and a directory that is not theirs
    NotAllowed,
    /// the place is taken by a complete tree of other leaves, and the iterator fails
    Taken(u32),
    /// the build is fine; the compaction can open only so many files
    Compaction(u8, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    store: Sk,
    discard: u8,
    how: u8,
    config: bool,
    leaves: Leaves,
    fault: Fault,
    pick: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C18";
    const RULE: &'static str = "case = (shape, store, constructor, leaf values, one injected fault: errors of the iterator at chosen places, limit of open files, limit of file size, missing \
        or unusable directory, no permission, place already taken, compaction short of files); non-trivial: the build or compaction really failed";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let fault = prop_oneof![
            8 => proptest::collection::vec(any::<u32>(), 1..4).prop_map(Fault::Items),
            4 => (0u8..5).prop_map(Fault::Files),
            4 => any::<u8>().prop_map(Fault::Space),
            1 => Just(Fault::NoDir),
            1 => Just(Fault::DirIsFile),
            1 => Just(Fault::DataIsDir),
            1 => Just(Fault::NotAllowed),
            2 => any::<u32>().prop_map(Fault::Taken),
            3 => (0u8..4, any::<bool>()).prop_map(|(a, b)| Fault::Compaction(a, b)),
        ];
        (
            shape(ARITIES, 512, t.pick(1 << 13, 1 << 15), 15, 1),
            0u8..2,
            prop_oneof![1 => Just(Sk::Vec), 3 => Just(Sk::Disk), 3 => Just(Sk::Mmap), 3 => Just(Sk::Compact)],
            any::<u8>(),
            0u8..5,
            any::<bool>(),
            distinct_leaves(),
            fault,
            any::<u64>(),
        )
            .prop_map(|(shape, ea, store, discard, how, config, leaves, fault, pick)| Case { shape, ea, store, discard, how, config, leaves, fault, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(48_000, 800_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        // errors beyond the first block of leaves that is written out
        let mut v = vec![];
        for store in [Sk::Vec, Sk::Disk, Sk::Mmap, Sk::Compact] {
            for at in [262_143u32, 262_144, 300_000, 524_287] {
                v.push(Case {
                    shape: Shape { arity: 2, levels: 19 },
                    ea: 1,
                    store,
                    discard: 2,
                    how: 0,
                    config: true,
                    leaves: Leaves { seed: 1, mode: 0 },
                    fault: Fault::Items(vec![at]),
                    pick: 1,
                });
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, match c.store {
            Sk::Vec => go::<E, A, VecStore<E>, B>(c, cx, |t, r, _| same_tree(t, r, c.pick, 4)),
            Sk::Disk => go::<E, A, DiskStore<E>, B>(c, cx, |t, r, _| same_tree(t, r, c.pick, 4)),
            Sk::Mmap => go::<E, A, MmapStore<E>, B>(c, cx, |t, r, _| same_tree(t, r, c.pick, 4)),
            Sk::Compact => go::<E, A, Lc<E>, B>(c, cx, |t, r, dir| {
                let rep = dir.join("replica");
                write_file(&rep, &to_bytes(r.leaves()));
                if c.how % 5 != 4 {
                    t.set_external_reader_path(&rep).map_err(|e| format!("reader: {:?}", e))?;
                }
                same_lc_tree(t, r, discard(c), c.pick, 4)
            }),
        })
    }
    fn assumptions() -> Vec<String> {
        vec![
            "faults that come as errors of system calls; the process itself goes on (no crash, no power failure)".into(),
            "limits are those of the process: open files and file size".into(),
        ]
    }
}
fn discard(c: &Case) -> usize {
    c.discard as usize % (c.shape.max_discard() + 1)
}

/// Runs f under a limit of the process.
fn limited<T>(what: libc::__rlimit_resource_t, n: u64, f: impl FnOnce() -> T) -> T {
    let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        if libc::getrlimit(what, &mut old) != 0 {
            infra("getrlimit");
        }
        let new = libc::rlimit { rlim_cur: n.min(old.rlim_max), rlim_max: old.rlim_max };
        if libc::setrlimit(what, &new) != 0 {
            infra("setrlimit");
        }
    }
    let r = f();
    if unsafe { libc::setrlimit(what, &old) } != 0 {
        infra("setrlimit back");
    }
    r
}
fn few_files<T>(more: u8, f: impl FnOnce() -> T) -> T {
    let fd = unsafe { libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDONLY | libc::O_CLOEXEC) };
    if fd < 0 {
        infra("open /dev/null");
    }
    unsafe { libc::close(fd) };
    limited(libc::RLIMIT_NOFILE, fd as u64 + more as u64, f)
}
fn as_nobody<T: Send>(f: impl FnOnce() -> T + Send) -> Option<T> {
    std::thread::scope(|s| {
        s.spawn(|| {
            let rc = unsafe { libc::syscall(libc::SYS_setresuid, -1i64, 65534i64, -1i64) };
            if rc != 0 {
                return None;
            }
            Some(f())
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;
/// `bad`: places where the iterator fails (constructors that take fallible items only)
fn build<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(c: &Case, items: &[E], r: &RefTree<E>, cfg: Option<StoreConfig>, bad: &[usize]) -> anyhow::Result<T<E, A, S, B>> {
    if !bad.is_empty() {
        let it = items.iter().enumerate().map(|(i, x)| if bad.contains(&i) { Err(anyhow::anyhow!("item <{}>", i)) } else { Ok(*x) });
        return match cfg {
            Some(cfg) => T::try_from_iter_with_config(it, cfg),
            None => T::try_from_iter(it),
        };
    }
    match (c.how % 5, cfg) {
        (0, Some(cfg)) => T::new_with_config(items.iter().copied(), cfg),
        (0, None) => T::new(items.iter().copied()),
        (1, Some(cfg)) => T::try_from_iter_with_config(items.iter().map(|x| Ok(*x)), cfg),
        (1, None) => T::try_from_iter(items.iter().map(|x| Ok(*x))),
        (2, Some(cfg)) => T::from_par_iter_with_config(items.par_iter().copied(), cfg),
        (2, None) => T::from_par_iter(items.par_iter().copied()),
        (3, Some(cfg)) => T::from_byte_slice_with_config(&to_bytes(r.leaves()), cfg),
        (3, None) => T::from_byte_slice(&to_bytes(r.leaves())),
        (_, Some(cfg)) => T::from_tree_slice_with_config(&r.flat_bytes(), r.leaves().len(), cfg),
        (_, None) => T::from_tree_slice(&r.flat_bytes(), r.leaves().len()),
    }
}

fn go<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(
    c: &Case,
    cx: &mut Cx,
    same: impl Fn(&mut T<E, A, S, B>, &RefTree<E>, &Path) -> Result<(), String>,
) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let dir = cx.dir();
    let d = discard(c);
    let persistent = c.store != Sk::Vec;
    // a compact store needs a configuration
    let with_cfg = c.config || c.store == Sk::Compact || matches!(c.fault, Fault::Taken(_) | Fault::Compaction(..) | Fault::NoDir | Fault::DirIsFile | Fault::DataIsDir | Fault::NotAllowed);
    let mut home = dir.join("home");
    std::fs::create_dir(&home).unwrap_or_else(|e| infra(format!("{}", e)));
    // a neighbour
    MerkleTree::<E, A, DiskStore<E>, B>::new_with_config(items.iter().rev().copied(), config(&home, "neighbour", 0)).map_err(|e| format!("build: {:?}", e))?;
    let near = read_file(&data_file(&home, "neighbour"));
    let real_home = home.clone();
    match c.fault {
        Fault::NoDir => home = dir.join("nowhere"),
        Fault::DirIsFile => {
            home = dir.join("file");
            write_file(&home, b"here");
        }
        Fault::DataIsDir => std::fs::create_dir(data_file(&home, "t")).unwrap_or_else(|e| infra(format!("{}", e))),
        _ => {}
    }
    let cfg = config(&home, "t", d);
    let file = data_file(&home, "t");
    let pass = || if with_cfg { Some(cfg.clone()) } else { None };
    cx.label(format!("{:?} {}", c.store, format!("{:?}", c.fault).split('(').next().unwrap()));
    let none: &[usize] = &[];
    let neighbour = || -> Result<(), String> {
        req!(read_file(&data_file(&real_home, "neighbour")) == near, "a neighbouring tree changed");
        Ok(())
    };

    let mut bad: Vec<usize> = vec![];
    let res: Result<anyhow::Result<T<E, A, S, B>>, String> = match &c.fault {
        Fault::Items(v) => {
            bad = v.iter().map(|x| *x as usize % n).collect();
            guard(|| build(c, &items, &r, pass(), &bad))
        }
        Fault::Files(k) => guard(|| few_files(*k, || build(c, &items, &r, pass(), none))),
        Fault::Space(s) => {
            let lim = (r.len() * E::LEN) as u64 * *s as u64 / 256;
            guard(|| limited(libc::RLIMIT_FSIZE, lim, || build(c, &items, &r, pass(), none)))
        }
        Fault::NoDir | Fault::DirIsFile | Fault::DataIsDir => guard(|| build(c, &items, &r, pass(), none)),
        Fault::NotAllowed => {
            // the directory belongs to root
            match as_nobody(|| guard(|| build(c, &items, &r, pass(), none))) {
                Some(r) => r,
                None => {
                    cx.label("cannot drop privileges");
                    return Ok(());
                }
            }
        }
        Fault::Taken(at) => return taken::<E, A, S, B>(c, cx, &items, &r, &cfg, &file, *at as usize % n, same, &dir),
        Fault::Compaction(k, v1) => return compaction::<E, A, B>(c, cx, &items, &r, &home, *k, *v1),
    };
    let res = res.map_err(|p| format!("{:?} makes the build panic: {}", c.fault, p))?;
    let failed = res.is_err();
    match res {
        Ok(mut t) => {
            req!(bad.is_empty(), "the iterator failed at {:?}, the build did not", bad);
            if persistent {
                req!(!matches!(c.fault, Fault::NoDir | Fault::DirIsFile | Fault::DataIsDir | Fault::NotAllowed), "{:?} is no error", c.fault);
            }
            same(&mut t, &r, &dir).map_err(|e| format!("under {:?} the build succeeds with another tree: {}", c.fault, e))?;
            cx.label("succeeded all the same");
        }
        Err(e) => {
            cx.nontrivial();
            if let Some(first) = bad.iter().min() {
                let all: Vec<String> = e.chain().map(|x| x.to_string()).collect();
                req!(all.iter().any(|m| m == &format!("item <{}>", first)), "the error is {:?}, not the first one of the iterator (item {})", all, first);
            }
        }
    }
    neighbour()?;
    if c.fault == Fault::DirIsFile {
        req!(read_file(&home) == Some(b"here".to_vec()), "a file in the place of the directory changed");
    }
    if matches!(c.fault, Fault::NoDir) {
        req!(!home.exists(), "a missing directory is created");
    }
    if !(failed && with_cfg && persistent) || matches!(c.fault, Fault::NoDir | Fault::DirIsFile | Fault::DataIsDir) {
        return Ok(());
    }
    // what is left is no tree
    let left = read_file(&file);
    if matches!(c.fault, Fault::Items(_)) {
        req!(left.is_none(), "after {:?} a file of {} bytes is left", c.fault, left.unwrap().len());
    }
    if left.is_some() {
        cx.label("something left");
        let rep = dir.join("replica");
        write_file(&rep, &to_bytes(r.leaves()));
        let a = guard(|| DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg).is_err());
        req!(a == Ok(true), "what a failed build left is opened as a tree on disk ({:?})", a);
        let a = guard(|| MmapStore::<E>::new_from_disk(r.len(), r.arity, &cfg).is_err());
        req!(a == Ok(true), "what a failed build left is opened as a memory-mapped tree ({:?})", a);
        let a = guard(|| LevelCacheStore::<E, _>::new_from_disk_with_reader(r.len(), r.arity, &cfg, file_reader(&rep)).is_err());
        req!(a == Ok(true), "what a failed build left is opened as a compact tree ({:?})", a);
        let a = guard(|| Lc::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::<E, A, Lc<E>, B>::from_data_store(s, n)).is_err());
        req!(a == Ok(true), "what a failed build left is opened as a compact tree with leaves ({:?})", a);
    }
    // once more, without the fault
    let again = guard(|| build::<E, A, S, B>(c, &items, &r, pass(), none)).map_err(|p| format!("building again panics: {}", p))?;
    match again {
        Ok(mut t) => {
            same(&mut t, &r, &dir).map_err(|e| format!("after a failed build the next gives another tree: {}", e))?;
            cx.label("built again");
        }
        Err(e) => fail!("after a failed build (a file left: {}) the next fails: {:?}", left.is_some(), e),
    }
    neighbour()
}

/// A complete tree is in the place already.
#[allow(clippy::too_many_arguments)]
fn taken<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(
    c: &Case,
    cx: &mut Cx,
    items: &[E],
    r: &RefTree<E>,
    cfg: &StoreConfig,
    file: &Path,
    at: usize,
    same: impl Fn(&mut T<E, A, S, B>, &RefTree<E>, &Path) -> Result<(), String>,
    dir: &Path,
) -> Result<(), String> {
    // built by the same kind of store, from the same constructor as the next build will use
    build::<E, A, S, B>(c, items, r, Some(cfg.clone()), &[]).map_err(|e| format!("build: {:?}", e))?;
    let before = read_file(file);
    let other: Vec<E> = c.leaves.offset(9).items(items.len());
    let ro = RefTree::<E>::from_items::<A>(&other, r.arity);
    let res = guard(|| build::<E, A, S, B>(c, &other, &ro, Some(cfg.clone()), &[at])).map_err(|p| format!("building over a tree panics: {}", p))?;
    match res {
        // the persisted tree was there already: nothing was pulled from the iterator
        Ok(mut t) => {
            req!(c.store != Sk::Vec, "the iterator failed, the build in memory did not");
            same(&mut t, r, dir).map_err(|e| format!("building over a tree gives another: {}", e))?
        }
        Err(_) => cx.nontrivial(),
    }
    req!(read_file(file) == before, "a build that failed in a place already taken changed or removed the tree there");
    if c.store != Sk::Vec {
        cx.nontrivial();
    }
    // nor does any other constructor
    for how in 0..5 {
        let mut c2 = c.clone();
        c2.how = how;
        let res = guard(|| build::<E, A, S, B>(&c2, &other, &ro, Some(cfg.clone()), &[])).map_err(|p| format!("building over a tree panics: {}", p))?;
        if let (Ok(mut t), true) = (res, c.store != Sk::Vec && c.store != Sk::Compact) {
            same(&mut t, r, dir).map_err(|e| format!("building ({}) over a tree gives another: {}", how, e))?;
        }
        req!(read_file(file) == before, "constructor {} changed or removed the tree that was there", how);
    }
    Ok(())
}

/// A compaction that cannot open its files changes nothing.
fn compaction<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, cx: &mut Cx, items: &[E], r: &RefTree<E>, home: &Path, k: u8, v1: bool) -> Result<(), String> {
    let d = discard(c);
    let cfg = config(home, "t", d);
    let file = data_file(home, "t");
    let whole = r.flat_bytes();
    let mut t = MerkleTree::<E, A, DiskStore<E>, B>::new_with_config(items.iter().copied(), cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
    let v = if v1 { 1 } else { 2 };
    let res = guard(|| few_files(k, || t.compact(cfg.clone(), v))).map_err(|p| format!("compaction with {} files panics: {}", k, p))?;
    let mut small = if v1 { to_bytes(r.leaves()) } else { vec![] };
    small.extend(to_bytes(&r.cached(d)));
    match res {
        Ok(done) => {
            req!(done, "compaction of a tree on disk does nothing");
            req!(read_file(&file) == Some(small), "the compacted file is not the kept rows");
        }
        Err(_) => {
            cx.nontrivial();
            req!(read_file(&file).as_ref() == Some(&whole), "a compaction that failed changed the tree");
            same_tree(&t, r, c.pick, 4).map_err(|e| format!("after a compaction that failed: {}", e))?;
            // and can be repeated
            match t.compact(cfg, v) {
                Ok(true) => req!(read_file(&file) == Some(small), "the compacted file is not the kept rows"),
                o => fail!("compaction after one that failed: {:?}", o),
            }
        }
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
