//! C21: no failed operation on a file is passed over, whichever it is and wherever it happens.
#[path = "../iofault.rs"]
mod iofault;

use iofault::{arm, disarm, hits, Call};
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::proof::Proof;
use merkletree::store::{DiskStore, ExternalReader, LevelCacheStore, MmapStore, ReplicaConfig, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use typenum::{Unsigned, U2};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Sk {
    Disk,
    Mmap,
    Compact,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Form {
    Disk,
    Mmap,
    V1,
    V2,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Do {
    Write(u16),
    Copy(u16, u8),
    Push,
    Sync,
    Read(u16),
    Range(u16, u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    Build,
    /// in a place that is taken by a complete tree
    Over,
    Open(Form),
    Compact(bool),
    /// a store as an array: capacity, what is done
    Array(u8, Vec<Do>),
    Delete,
    /// two trees put together: 0 from their files, 1 from their compact files and outside leaves
    Layers(u8),
    Consistent(Form),
    /// a file that is not of the length it should have
    Refused(Form),
}
/// the call, what it fails with, and how: see iofault
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Fault {
    at: u16,
    errno: i32,
    mode: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    store: Sk,
    discard: u8,
    how: u8,
    config: bool,
    leaves: Leaves,
    op: Op,
    fault: Fault,
    pick: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C21";
    const RULE: &'static str = "case = (shape, store, constructor, leaf values, an operation: build, build over, open and read, compact, use as an array, delete, put together, test of \
        consistency; one of its system calls on files, counted in a run without fault; the error it gives, alone or with all that follow, or a transfer that is cut short); \
        non-trivial: a system call of the operation was really made to fail or cut short";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let act = prop_oneof![
            3 => any::<u16>().prop_map(Do::Write),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Do::Copy(a, b)),
            2 => Just(Do::Push),
            2 => Just(Do::Sync),
            3 => any::<u16>().prop_map(Do::Read),
            2 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Do::Range(a, b)),
        ];
        let form = || prop_oneof![Just(Form::Disk), Just(Form::Mmap), Just(Form::V1), Just(Form::V2)];
        let op = prop_oneof![
            6 => Just(Op::Build),
            1 => Just(Op::Over),
            4 => form().prop_map(Op::Open),
            3 => any::<bool>().prop_map(Op::Compact),
            4 => (1u8..40, proptest::collection::vec(act, 1..14)).prop_map(|(n, v)| Op::Array(n, v)),
            1 => Just(Op::Delete),
            2 => (0u8..2).prop_map(Op::Layers),
            1 => form().prop_map(Op::Consistent),
            1 => prop_oneof![Just(Form::Disk), Just(Form::Mmap), Just(Form::V2)].prop_map(Op::Refused),
        ];
        let fault = (
            any::<u16>(),
            proptest::sample::select(vec![libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EROFS, libc::EXDEV, libc::EINTR]),
            prop_oneof![5 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        )
            // a call that is interrupted for ever is tried for ever
            .prop_map(|(at, errno, mode)| Fault { at, errno, mode: if errno == libc::EINTR { mode & 2 } else { mode } });
        (
            shape(ARITIES, 256, t.pick(4096, 4096), 8, 1),
            0u8..2,
            prop_oneof![Just(Sk::Disk), Just(Sk::Mmap), Just(Sk::Compact)],
            any::<u8>(),
            0u8..5,
            proptest::bool::weighted(0.8),
            distinct_leaves(),
            op,
            fault,
            any::<u64>(),
        )
            .prop_map(|(shape, ea, store, discard, how, config, leaves, op, fault, pick)| Case { shape, ea, store, discard, how, config, leaves, op, fault, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 1_600_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, go::<E, A, B>(c, cx))
    }
    fn assumptions() -> Vec<String> {
        vec![
            "faults are errors and short transfers of the calls of the C library on regular files (open, read, write, copy, resize, flush, map, seek, stat, remove); the process goes on".into(),
            "what is made to fail does nothing else: no torn writes, no lost pages".into(),
        ]
    }
}
fn discard(c: &Case) -> usize {
    c.discard as usize % (c.shape.max_discard() + 1)
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;
fn build<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(how: u8, items: &[E], r: &RefTree<E>, cfg: Option<StoreConfig>) -> anyhow::Result<T<E, A, S, B>> {
    match (how % 5, cfg) {
        (0, Some(cfg)) => T::new_with_config(items.iter().copied(), cfg),
        (0, None) => T::new(items.iter().copied()),
        (1, Some(cfg)) => T::try_from_iter_with_config(items.iter().map(|x| Ok(*x)), cfg),
        (1, None) => T::try_from_iter(items.iter().map(|x| Ok(*x))),
        (2, Some(cfg)) => T::from_par_iter_with_config(items.par_iter().copied(), cfg),
        (2, None) => T::from_par_iter(items.par_iter().copied()),
        (3, Some(cfg)) => T::from_byte_slice_with_config(&to_bytes(r.leaves()), cfg),
        (3, None) => T::from_byte_slice(&to_bytes(r.leaves())),
        (_, Some(cfg)) => T::from_tree_slice_with_config(&r.flat_bytes(), r.leaves().len(), cfg),
        (_, None) => T::from_tree_slice(&r.flat_bytes(), r.leaves().len()),
    }
}

/// What came of an operation under a fault, after the judgement that needs no more than that.
struct Out<X> {
    res: anyhow::Result<X>,
    calls: usize,
    hits: Vec<Call>,
}
fn caused_by(e: &anyhow::Error, errno: i32) -> bool {
    e.chain().any(|x| x.downcast_ref::<std::io::Error>().and_then(|x| x.raw_os_error()) == Some(errno)) || format!("{:?}", e).contains(&format!("(os error {})", errno))
}
fn under<X>(f: Option<(usize, Fault)>, what: &str, act: impl FnOnce() -> anyhow::Result<X>) -> Result<Out<X>, String> {
    match f {
        Some((at, f)) => arm(Some(at), f.mode, f.errno),
        None => arm(None, 0, 0),
    }
    let res = guard(act);
    let (calls, hits) = disarm();
    let res = match res {
        Ok(r) => r,
        Err(p) => fail!("{}: panics ({}); failed calls: {:?}", what, p, hits),
    };
    if let Some((_, f)) = f {
        verdict(f, what, &res, &hits)?;
    } else if let Err(e) = &res {
        fail!("{}: fails without a fault: {:?}", what, e);
    }
    Ok(Out { res, calls, hits })
}
fn verdict<X>(f: Fault, what: &str, res: &anyhow::Result<X>, hits: &[Call]) -> Result<(), String> {
    match res {
        Ok(_) => {
            // what fails to be written, flushed or resized must be reported
            let lost = |c: &Call| matches!(c, Call::Flush | Call::Write | Call::Resize);
            let failed = match f.mode {
                2 => &[],
                3 => &hits[1.min(hits.len())..],
                _ => hits,
            };
            req!(f.errno == libc::EINTR || !failed.iter().any(lost), "{}: succeeds although calls failed: {:?}", what, failed);
        }
        Err(e) => {
            req!(!hits.is_empty(), "{}: fails without a fault: {:?}", what, e);
            let moved = |c: &Call| matches!(c, Call::Read | Call::Write);
            req!(f.errno != libc::EINTR || f.mode != 0 || !hits.iter().all(moved), "{}: fails because a transfer ({:?}) was interrupted: {:?}", what, hits, e);
            req!(f.mode != 2, "{}: fails because a transfer ({:?}) was not complete at once: {:?}", what, hits, e);
            // a file whose state is unknown may be taken for absent
            if !hits.contains(&Call::Stat) {
                req!(caused_by(e, f.errno), "{}: the calls {:?} failed with code {}, the error says {:?}", what, hits, f.errno, e);
            }
        }
    }
    Ok(())
}

/// Runs an operation without fault in one place to count its calls, then with the fault in another.
fn twice<X>(c: &Case, cx: &mut Cx, mut run: impl FnMut(&Path, Option<(usize, Fault)>) -> Result<Out<X>, String>) -> Result<(), String> {
    let dir = cx.dir();
    let a = dir.join("a");
    let b = dir.join("b");
    for d in [&a, &b] {
        std::fs::create_dir(d).unwrap_or_else(|e| infra(format!("{}", e)));
    }
    let dry = run(&a, None)?;
    if dry.calls == 0 {
        cx.label("no system calls");
        return Ok(());
    }
    let real = run(&b, Some((c.fault.at as usize % dry.calls, c.fault)))?;
    if let Some(h) = real.hits.first() {
        cx.nontrivial();
        let op = format!("{:?}", c.op);
        let op = op.split(|x| x == '(').next().unwrap();
        cx.label(format!("{} {:?} -> {}", op, h, if real.res.is_ok() { "right" } else { "error" }));
    } else {
        cx.label("not reached");
    }
    Ok(())
}

fn go<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let items: Vec<E> = c.leaves.items(c.shape.leafs());
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let same_full = |t: &mut T<E, A, DiskStore<E>, B>, _: &Path| same_tree(t, &r, c.pick, 2);
    let same_map = |t: &mut T<E, A, MmapStore<E>, B>, _: &Path| same_tree(t, &r, c.pick, 2);
    // built bare, nothing is dropped
    let same_lc = |t: &mut T<E, A, Lc<E>, B>, dir: &Path| {
        let rep = dir.join("replica");
        write_file(&rep, &to_bytes(r.leaves()));
        if c.how % 5 != 4 {
            t.set_external_reader_path(&rep).map_err(|e| format!("reader: {:?}", e))?;
        }
        same_lc_tree(t, &r, discard(c), c.pick, 2)
    };
    match (&c.op, c.store) {
        (Op::Build, Sk::Disk) => twice(c, cx, |d, f| built::<E, A, DiskStore<E>, B>(c, &items, &r, d, f, same_full)),
        (Op::Build, Sk::Mmap) => twice(c, cx, |d, f| built::<E, A, MmapStore<E>, B>(c, &items, &r, d, f, same_map)),
        (Op::Build, Sk::Compact) => twice(c, cx, |d, f| built::<E, A, Lc<E>, B>(c, &items, &r, d, f, same_lc)),
        (Op::Over, Sk::Disk) => twice(c, cx, |d, f| over::<E, A, DiskStore<E>, B>(c, &items, &r, d, f)),
        (Op::Over, _) => twice(c, cx, |d, f| over::<E, A, MmapStore<E>, B>(c, &items, &r, d, f)),
        (Op::Open(form), _) => twice(c, cx, |d, f| match form {
            Form::Disk => opened(c, &r, d, f, r.flat(), |cfg, _| T::<E, A, _, B>::from_data_store(DiskStore::new_from_disk(r.len(), r.arity, cfg)?, r.leaves().len())),
            Form::Mmap => opened(c, &r, d, f, r.flat(), |cfg, _| T::<E, A, _, B>::from_data_store(MmapStore::new_from_disk(r.len(), r.arity, cfg)?, r.leaves().len())),
            Form::V1 => opened(c, &r, d, f, [r.leaves().to_vec(), r.cached(discard(c))].concat(), |cfg, _| {
                T::<E, A, _, B>::from_data_store(Lc::<E>::new_from_disk(r.len(), r.arity, cfg)?, r.leaves().len())
            }),
            Form::V2 => opened(c, &r, d, f, r.cached(discard(c)), |cfg, rep| {
                let s = LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, cfg, ExternalReader::new_from_path(rep)?)?;
                T::<E, A, _, B>::from_data_store(s, r.leaves().len())
            }),
        }),
        (Op::Compact(v1), _) => twice(c, cx, |d, f| compacted::<E, A, B>(c, *v1, &items, &r, d, f)),
        (Op::Array(n, acts), Sk::Disk) => twice(c, cx, |d, f| array::<E, DiskStore<E>>(c, *n as usize, acts, d, f)),
        (Op::Array(n, acts), Sk::Mmap) => twice(c, cx, |d, f| array::<E, MmapStore<E>>(c, *n as usize, acts, d, f)),
        (Op::Array(n, acts), Sk::Compact) => twice(c, cx, |d, f| array::<E, Lc<E>>(c, *n as usize, acts, d, f)),
        (Op::Delete, Sk::Disk) => twice(c, cx, |d, f| deleted::<E, A, DiskStore<E>, B>(c, &items, &r, d, f)),
        (Op::Delete, Sk::Mmap) => twice(c, cx, |d, f| deleted::<E, A, MmapStore<E>, B>(c, &items, &r, d, f)),
        (Op::Delete, Sk::Compact) => twice(c, cx, |d, f| deleted::<E, A, Lc<E>, B>(c, &items, &r, d, f)),
        (Op::Layers(k), _) => twice(c, cx, |d, f| layers::<E, A, B>(c, *k, d, f)),
        (Op::Refused(form), _) => twice(c, cx, |d, f| refused::<E, A, B>(c, *form, &r, d, f)),
        (Op::Consistent(form), _) => twice(c, cx, |d, f| consistent::<E, A>(c, *form, &r, d, f)),
    }
}

/// what a failed build left is no tree, or is exactly the tree
fn refused_or_right<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(r: &RefTree<E>, cfg: &StoreConfig, dir: &Path, seed: u64) -> Result<(), String> {
    let rep = dir.join("replica");
    write_file(&rep, &to_bytes(r.leaves()));
    let n = r.leaves().len();
    let d = cfg.rows_to_discard;
    let g = |w: &str, x: Result<Result<(), String>, String>| match x {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => Err(format!("what a failed build left opens as {}: {}", w, m)),
        Err(p) => Err(format!("opening what a failed build left as {} panics: {}", w, p)),
    };
    g("a tree on disk", guard(|| match DiskStore::<E>::new_from_disk(r.len(), r.arity, cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)) {
        Ok(t) => same_tree(&t, r, seed, 2),
        Err(_) => Ok(()),
    }))?;
    g("a mapped tree", guard(|| match MmapStore::<E>::new_from_disk(r.len(), r.arity, cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)) {
        Ok(t) => same_tree(&t, r, seed, 2),
        Err(_) => Ok(()),
    }))?;
    g("a compact tree", guard(|| {
        match LevelCacheStore::<E, _>::new_from_disk_with_reader(r.len(), r.arity, cfg, file_reader(&rep)).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)) {
            Ok(t) => same_lc_tree(&t, r, d, seed, 2),
            Err(_) => Ok(()),
        }
    }))?;
    g("a compact tree with leaves", guard(|| match Lc::<E>::is_consistent_v1(r.len(), r.arity, cfg) {
        Ok(true) => match Lc::<E>::new_from_disk(r.len(), r.arity, cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)) {
            Ok(t) => same_lc_tree(&t, r, d, seed, 2),
            Err(_) => Ok(()),
        },
        _ => Ok(()),
    }))
}

fn built<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(
    c: &Case,
    items: &[E],
    r: &RefTree<E>,
    dir: &Path,
    f: Option<(usize, Fault)>,
    same: impl Fn(&mut T<E, A, S, B>, &Path) -> Result<(), String>,
) -> Result<Out<()>, String> {
    let cfg = config(dir, "t", discard(c));
    let file = data_file(dir, "t");
    let neighbour = dir.join("sc-02-data-t.da");
    write_file(&neighbour, b"near");
    let with_cfg = c.config || c.store == Sk::Compact;
    let pass = || if with_cfg { Some(cfg.clone()) } else { None };
    let what = format!("build {} ({:?})", c.how % 5, c.store);
    let o = under(f, &what, || build::<E, A, S, B>(c.how, items, r, pass()))?;
    let (calls, hits) = (o.calls, o.hits);
    let done = |res| Ok(Out { res, calls, hits: hits.clone() });
    req!(read_file(&neighbour) == Some(b"near".to_vec()), "{}: another file changed", what);
    match o.res {
        Ok(mut t) => {
            same(&mut t, dir).map_err(|e| format!("{}: with failed calls {:?} another tree is built: {}", what, hits, e))?;
            if with_cfg {
                req!(file.exists(), "{}: no file is left", what);
                refused_or_right::<E, A, B>(r, &cfg, dir, c.pick).map_err(|e| format!("{}: after success: {}", what, e))?;
            }
            done(Ok(()))
        }
        Err(e) => {
            if !with_cfg {
                return done(Err(e));
            }
            if !hits.contains(&Call::Remove) {
                refused_or_right::<E, A, B>(r, &cfg, dir, c.pick).map_err(|e| format!("{}: after {:?}: {}", what, hits, e))?;
            }
            // once more
            let left = read_file(&file).is_some();
            let again = guard(|| build::<E, A, S, B>(c.how, items, r, pass())).map_err(|p| format!("{} again, after {:?}: panics: {}", what, hits, p))?;
            match again {
                Ok(mut t) => same(&mut t, dir).map_err(|e| format!("{} again, after {:?}: another tree: {}", what, hits, e))?,
                Err(e) => {
                    req!(left && hits.contains(&Call::Remove), "{} again, after {:?}, a file left: {}: {:?}", what, hits, left, e);
                    std::fs::remove_file(&file).unwrap_or_else(|e| infra(format!("{}", e)));
                    let mut t = build::<E, A, S, B>(c.how, items, r, pass()).map_err(|e| format!("{} in a cleared place: {:?}", what, e))?;
                    same(&mut t, dir).map_err(|e| format!("{} in a cleared place: another tree: {}", what, e))?;
                }
            }
            done(Err(e))
        }
    }
}

fn over<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(c: &Case, items: &[E], r: &RefTree<E>, dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    let cfg = config(dir, "t", discard(c));
    let file = data_file(dir, "t");
    write_file(&file, &r.flat_bytes());
    let other: Vec<E> = c.leaves.offset(9).items(items.len());
    let ro = RefTree::<E>::from_items::<A>(&other, r.arity);
    // leaf bytes are refused there
    let how = [0, 1, 2, 4][c.how as usize % 4];
    let what = format!("build {} ({:?}) over a tree", how, c.store);
    let o = under(f, &what, || build::<E, A, S, B>(how, &other, &ro, Some(cfg.clone())))?;
    req!(read_file(&file) == Some(r.flat_bytes()), "{}: with failed calls {:?} the tree that was there changed", what, o.hits);
    let res = match o.res {
        Ok(t) => {
            same_tree(&t, r, c.pick, 2).map_err(|e| format!("{}: with failed calls {:?} another tree: {}", what, o.hits, e))?;
            Ok(())
        }
        Err(e) => Err(e),
    };
    Ok(Out { res, calls: o.calls, hits: o.hits })
}

fn opened<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(
    c: &Case,
    r: &RefTree<E>,
    dir: &Path,
    f: Option<(usize, Fault)>,
    content: Vec<E>,
    open: impl Fn(&StoreConfig, &Path) -> anyhow::Result<T<E, A, S, B>>,
) -> Result<Out<()>, String>
where
    T<E, A, S, B>: Cached<E, B>,
{
    let d = discard(c);
    let cfg = config(dir, "t", d);
    let file = data_file(dir, "t");
    let b = to_bytes(&content);
    write_file(&file, &b);
    let rep = dir.join("replica");
    write_file(&rep, &to_bytes(r.leaves()));
    let flat = r.flat();
    let full = content.len() == flat.len();
    let n = r.leaves().len();
    let first_kept = flat.len() - r.cached(d).len();
    // positions and ranges that are there in every form
    let p = c.pick as usize;
    let at: Vec<usize> = vec![p % n, first_kept + p % (flat.len() - first_kept), flat.len() - 1];
    let range = |a: usize, b: usize| {
        let (x, y) = (a + p % (b - a), a + (p >> 20) % (b - a));
        (x.min(y), x.max(y) + 1)
    };
    let ranges = [range(0, n), range(first_kept, flat.len())];
    let usable = d <= default_discard(r.arity, r.rows.len() - 1);
    let mut tree: Option<T<E, A, S, B>> = None;
    let what = format!("open {:?}", c.op);
    let mut reads = |tree: &mut Option<T<E, A, S, B>>| -> anyhow::Result<(Vec<Vec<E>>, Vec<Proof<E, B>>)> {
        if tree.is_none() {
            *tree = Some(open(&cfg, &rep)?);
        }
        let t = tree.as_ref().unwrap();
        let mut v = vec![vec![t.root()]];
        for i in &at {
            v.push(vec![t.read_at(*i)?]);
            let mut buf = vec![0u8; E::LEN];
            t.read_into(*i, &mut buf)?;
            v.push(vec![E::raw(&buf)]);
        }
        for (a, b) in &ranges {
            v.push(t.read_range(*a, *b)?);
        }
        let mut proofs = vec![];
        if full {
            proofs.push(t.gen_proof(p % n)?);
        }
        if usable {
            if let Some(x) = t.cached(p % n, d) {
                proofs.push(x?);
            }
        }
        Ok((v, proofs))
    };
    let mut want = vec![vec![r.root()]];
    for i in &at {
        want.push(vec![flat[*i]]);
        want.push(vec![flat[*i]]);
    }
    for (a, b) in ranges {
        want.push(flat[a..b].to_vec());
    }
    let judge = |what: &str, (v, proofs): (Vec<Vec<E>>, Vec<Proof<E, B>>)| -> Result<(), String> {
        for (k, (a, b)) in v.iter().zip(&want).enumerate() {
            if let Some(d) = diff(a, b) {
                fail!("{}: read {}: {}", what, k, d);
            }
        }
        for q in &proofs {
            same_proof(q, &r.ref_proof(p % n)).map_err(|e| format!("{}: proof: {}", what, e))?;
        }
        Ok(())
    };
    let o = under(f, &what, || reads(&mut tree))?;
    let res = match o.res {
        Ok(x) => judge(&format!("{} with failed calls {:?}", what, o.hits), x).map(|_| Ok(()))?,
        Err(e) => Err(e),
    };
    // a tree that was opened stays readable, one that was not can be opened
    let x = guard(|| reads(&mut tree)).map_err(|p| format!("{} after failed calls {:?}: panics: {}", what, o.hits, p))?;
    let x = x.map_err(|e| format!("{} after failed calls {:?}: {:?}", what, o.hits, e))?;
    judge(&format!("{} after failed calls {:?}", what, o.hits), x)?;
    req!(read_file(&file) == Some(b), "{}: the file changed", what);
    Ok(Out { res, calls: o.calls, hits: o.hits })
}
/// cached proofs, where the kind of tree has them
trait Cached<E: RElem, B: Unsigned> {
    fn cached(&self, i: usize, d: usize) -> Option<anyhow::Result<Proof<E, B>>>;
}
impl<E: RElem, A: RefAlg<E>, B: Unsigned> Cached<E, B> for T<E, A, DiskStore<E>, B> {
    fn cached(&self, i: usize, d: usize) -> Option<anyhow::Result<Proof<E, B>>> {
        Some(self.gen_cached_proof(i, Some(d)))
    }
}
impl<E: RElem, A: RefAlg<E>, B: Unsigned> Cached<E, B> for T<E, A, MmapStore<E>, B> {
    // goes through a reading of ranges that these stores do not have
    fn cached(&self, _: usize, _: usize) -> Option<anyhow::Result<Proof<E, B>>> {
        None
    }
}
impl<E: RElem, A: RefAlg<E>, B: Unsigned> Cached<E, B> for T<E, A, Lc<E>, B> {
    fn cached(&self, i: usize, d: usize) -> Option<anyhow::Result<Proof<E, B>>> {
        Some(self.gen_cached_proof(i, Some(d)))
    }
}

fn compacted<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, v1: bool, items: &[E], r: &RefTree<E>, dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    let d = discard(c);
    let cfg = config(dir, "t", d);
    let file = data_file(dir, "t");
    let neighbour = dir.join("sc-02-data-t.da");
    write_file(&neighbour, b"near");
    let mut small = if v1 { to_bytes(r.leaves()) } else { vec![] };
    small.extend(to_bytes(&r.cached(d)));
    let mut t = T::<E, A, DiskStore<E>, B>::new_with_config(items.iter().copied(), cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
    let what = format!("compaction {}", if v1 { 1 } else { 2 });
    let o = under(f, &what, || t.compact(cfg.clone(), if v1 { 1 } else { 2 }))?;
    req!(read_file(&neighbour) == Some(b"near".to_vec()), "{}: another file changed", what);
    let left = read_file(&file);
    let res = match o.res {
        Ok(done) => {
            req!(done, "{}: nothing is done", what);
            req!(left.as_ref() == Some(&small), "{}: with failed calls {:?} the file is not the kept rows", what, o.hits);
            Ok(())
        }
        Err(e) => {
            // what passes the test of consistency is the compacted tree
            let is = guard(|| if v1 { Lc::<E>::is_consistent_v1(r.len(), r.arity, &cfg) } else { Lc::<E>::is_consistent(r.len(), r.arity, &cfg) });
            match is {
                Err(p) => fail!("{}: after failed calls {:?} the test of consistency panics: {}", what, o.hits, p),
                Ok(Ok(true)) => req!(left.as_ref() == Some(&small), "{}: after failed calls {:?} a file passes for compacted and is not", what, o.hits),
                _ => {}
            }
            // nothing was moved yet: the tree is as it was
            let moved = |x: &Call| matches!(x, Call::Copy | Call::Write | Call::Read | Call::Resize | Call::Flush | Call::Stat);
            if !o.hits.first().map_or(false, moved) {
                req!(left == Some(r.flat_bytes()), "{}: after failed calls {:?}, before anything was moved, the tree is changed", what, o.hits);
                same_tree(&t, r, c.pick, 2).map_err(|e| format!("{}: after failed calls {:?}: {}", what, o.hits, e))?;
                match t.compact(cfg.clone(), if v1 { 1 } else { 2 }) {
                    Ok(true) => req!(read_file(&file) == Some(small), "{} repeated: the file is not the kept rows", what),
                    x => fail!("{} repeated after {:?}: {:?}", what, o.hits, x),
                }
            }
            Err(e)
        }
    };
    Ok(Out { res, calls: o.calls, hits: o.hits })
}

fn array<E: RElem, S: Store<E>>(c: &Case, cap: usize, acts: &[Do], dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    // a level-cache store wants the size of a tree
    let cap = if c.store == Sk::Compact { (1 << (1 + cap % 5)) * 2 - 1 } else { cap };
    let with_cfg = c.config || c.store == Sk::Compact;
    let cfg = config(dir, "t", 0);
    let vals: Vec<E> = c.leaves.items(64 + acts.len() * 8);
    let start = c.how as usize % (cap + 1);
    let what = format!("a store of {} elements ({:?})", cap, c.store);
    match f {
        Some((at, f)) => arm(Some(at), f.mode, f.errno),
        None => arm(None, 0, 0),
    }
    let mut model: Vec<Option<E>> = vals[..start].iter().copied().map(Some).collect();
    let r = guard(|| -> Result<anyhow::Result<S>, String> {
        let one = |what: &str, from: usize, res: anyhow::Result<()>| -> Result<anyhow::Result<()>, String> {
            let h = hits();
            let h = &h[from..];
            if let Some((_, f)) = f {
                // the part of a short transfer may lie before
                let m = if f.mode == 3 && from > 0 { 1 } else { f.mode };
                verdict(Fault { mode: m, ..f }, what, &res, h)?;
            } else if let Err(e) = &res {
                fail!("{}: fails without a fault: {:?}", what, e);
            }
            Ok(res)
        };
        let from = hits().len();
        let s = match (with_cfg, c.pick % 2) {
            (true, 0) => S::new_from_slice_with_config(cap, 2, &to_bytes(&vals[..start]), cfg.clone()),
            (true, _) => S::new_with_config(cap, 2, cfg.clone()).and_then(|mut s| {
                s.copy_from_slice(&to_bytes(&vals[..start]), 0)?;
                Ok(s)
            }),
            (false, 0) => S::new_from_slice(cap, &to_bytes(&vals[..start])),
            (false, _) => S::new(cap).and_then(|mut s| {
                s.copy_from_slice(&to_bytes(&vals[..start]), 0)?;
                Ok(s)
            }),
        };
        let mut s = match s {
            Ok(s) => {
                let _ = one(&format!("creating {}", what), from, Ok(()))?;
                s
            }
            Err(e) => return one(&format!("creating {}", what), from, Err(e)).map(|x| Err(x.unwrap_err())),
        };
        let mut failed = None;
        req!(s.len() == model.len(), "{}: {} elements after creation with {}", what, s.len(), model.len());
        for (k, a) in acts.iter().enumerate() {
            let from = hits().len();
            let w = format!("{}: step {} {:?}", what, k, a);
            let len = model.len();
            let x = &vals[64 + k * 8..];
            match a {
                Do::Write(_) | Do::Copy(..) | Do::Push => {
                    let (at, n, res) = match a {
                        Do::Write(i) => {
                            let i = *i as usize % (len + 1).min(cap);
                            (i, 1, s.write_at(x[0], i))
                        }
                        Do::Copy(i, n) => {
                            let i = *i as usize % (len + 1);
                            let n = (*n as usize % 8).min(cap - i);
                            (i, n, s.copy_from_slice(&to_bytes(&x[..n]), i))
                        }
                        _ if len == cap => continue,
                        _ => (len, 1, s.push(x[0])),
                    };
                    let ok = match one(&w, from, res)? {
                        Ok(()) => true,
                        Err(e) => {
                            failed = Some(e);
                            false
                        }
                    };
                    let new = len.max(at + n);
                    if ok {
                        req!(s.len() == new, "{}: the length is {} instead of {}", w, s.len(), new);
                    } else {
                        req!(s.len() == len, "{}: a write that failed makes the length {} instead of {}", w, s.len(), len);
                    }
                    model.resize(s.len(), None);
                    for j in at..(at + n).min(model.len()) {
                        model[j] = if ok { Some(x[j - at]) } else { None };
                    }
                }
                Do::Sync => {
                    if let Err(e) = one(&w, from, s.sync())? {
                        failed = Some(e);
                    }
                }
                Do::Read(_) | Do::Range(..) if len == 0 => {}
                Do::Read(i) => {
                    let i = *i as usize % len;
                    let r = s.read_at(i);
                    let mut got = None;
                    let r = r.map(|x| got = Some(x));
                    match one(&w, from, r)? {
                        Ok(()) => req!(model[i].is_none() || model[i] == got, "{}: with failed calls {:?} another element", w, &hits()[from..]),
                        Err(e) => failed = Some(e),
                    }
                }
                Do::Range(i, n) => {
                    let i = *i as usize % len;
                    let j = (i + 1 + *n as usize % 8).min(len);
                    let mut got = vec![];
                    let r = s.read_range(i..j).map(|x| got = x);
                    match one(&w, from, r)? {
                        Ok(()) => req!(
                            got.len() == j - i && got.iter().zip(&model[i..j]).all(|(a, b)| b.map_or(true, |b| b == *a)),
                            "{}: with failed calls {:?} other elements",
                            w,
                            &hits()[from..]
                        ),
                        Err(e) => failed = Some(e),
                    }
                }
            }
        }
        // the operation as a whole, for the record
        let _ = failed;
        Ok(Ok(s))
    });
    let (calls, hits) = disarm();
    let s = match r {
        Err(p) => fail!("{}: panics ({}); failed calls: {:?}", what, p, hits),
        Ok(Err(m)) => return Err(m),
        Ok(Ok(Err(e))) => return Ok(Out { res: Err(e), calls, hits }),
        Ok(Ok(Ok(s))) => s,
    };
    let all = |s: &S, w: &str| -> Result<(), String> {
        for (i, m) in model.iter().enumerate() {
            let x = s.read_at(i).map_err(|e| format!("{} {}: read_at({}): {:?}", what, w, i, e))?;
            req!(m.is_none() || *m == Some(x), "{} {}: element {} is not the last one written ({:?} failed)", what, w, i, hits);
        }
        req!(s.read_at(model.len()).is_err(), "{} {}: an element beyond the length", what, w);
        Ok(())
    };
    all(&s, "afterwards")?;
    s.sync().map_err(|e| format!("{}: sync after failed calls {:?}: {:?}", what, hits, e))?;
    drop(s);
    if with_cfg && c.store != Sk::Compact {
        // as it lies on disk
        let b = read_file(&data_file(dir, "t")).unwrap_or_default();
        req!(b.len() == cap * E::LEN, "{}: the file has {} bytes", what, b.len());
        for (i, m) in model.iter().enumerate() {
            if let Some(m) = m {
                req!(&b[i * E::LEN..(i + 1) * E::LEN] == m.bytes(), "{}: element {} in the file is not the last one written ({:?} failed)", what, i, hits);
            }
        }
    }
    Ok(Out { res: Ok(()), calls, hits })
}

fn deleted<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(c: &Case, items: &[E], r: &RefTree<E>, dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    let cfg = config(dir, "t", discard(c));
    let file = data_file(dir, "t");
    let t = build::<E, A, S, B>(c.how, items, r, Some(cfg.clone())).map_err(|e| format!("build: {:?}", e))?;
    let before = read_file(&file);
    let o = under(f, "delete", || if c.config { t.delete(cfg.clone()) } else { S::delete(cfg.clone()) })?;
    if o.res.is_ok() {
        req!(!file.exists(), "a tree is deleted and still there ({:?} failed)", o.hits);
    } else {
        req!(read_file(&file) == before, "a deletion failed ({:?}) and the tree is changed or gone", o.hits);
        t.delete(cfg).map_err(|e| format!("deletion after one that failed: {:?}", e))?;
        req!(!file.exists(), "a tree is deleted and still there");
    }
    Ok(o)
}

fn layers<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, kind: u8, dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    let arity = c.shape.arity;
    let n = c.shape.leafs();
    let d = discard(c);
    let bases: Vec<RefTree<E>> = (0..2).map(|k| RefTree::from_items::<A>(&c.leaves.offset(k).items::<E>(n), arity)).collect();
    let rep = dir.join("replica");
    let mut outside = vec![];
    let mut cfgs = vec![];
    for (k, b) in bases.iter().enumerate() {
        let id = format!("p{}", k);
        let bytes = if kind == 0 { b.flat_bytes() } else { to_bytes(&b.cached(d)) };
        write_file(&data_file(dir, &id), &bytes);
        outside.extend(to_bytes(b.leaves()));
        cfgs.push(config(dir, &id, d));
    }
    write_file(&rep, &outside);
    let files = |dir: &Path| -> Vec<_> { (0..2).map(|k| read_file(&data_file(dir, &format!("p{}", k)))).collect() };
    let before = files(dir);
    let rc = RefCompound::new::<A>(bases, 2, 0);
    let i = c.pick as usize % rc.leafs();
    let usable = d <= default_discard(arity, c.shape.levels as usize);
    let rcfg = ReplicaConfig::new(rep.clone(), vec![0, n * E::LEN]);
    let what = format!("putting trees together ({})", kind);
    let o = under(f, &what, || {
        if kind == 0 {
            let t = MerkleTree::<E, A, DiskStore<E>, B, U2>::from_store_configs(n, &cfgs)?;
            Ok((t.root(), t.read_at(i)?, Some(t.gen_proof(i)?)))
        } else {
            let t = MerkleTree::<E, A, LevelCacheStore<E, std::fs::File>, B, U2>::from_store_configs_and_replica(n, &cfgs, &rcfg)?;
            Ok((t.root(), t.read_at(i)?, if usable { Some(t.gen_cached_proof(i, Some(d))?) } else { None }))
        }
    })?;
    req!(files(dir) == before, "{}: a component changed", what);
    let res = match o.res {
        Ok((root, leaf, p)) => {
            req!(root == rc.root, "{}: with failed calls {:?} another root", what, o.hits);
            req!(leaf == rc.leaf(i), "{}: with failed calls {:?} another leaf", what, o.hits);
            if let Some(p) = p {
                same_proof(&p, &rc.proof(i)).map_err(|e| format!("{}: with failed calls {:?}: proof: {}", what, o.hits, e))?;
            }
            Ok(())
        }
        Err(e) => Err(e),
    };
    Ok(Out { res, calls: o.calls, hits: o.hits })
}

fn consistent<E: RElem, A: RefAlg<E>>(c: &Case, form: Form, r: &RefTree<E>, dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    let d = discard(c);
    let cfg = config(dir, "t", d);
    let right = c.pick % 2 == 0;
    let mut content = match form {
        Form::Disk | Form::Mmap => r.flat(),
        Form::V1 => [r.leaves().to_vec(), r.cached(d)].concat(),
        Form::V2 => r.cached(d),
    };
    if !right {
        content.pop();
    }
    write_file(&data_file(dir, "t"), &to_bytes(&content));
    let o = under(f, "test of consistency", || match form {
        Form::Disk | Form::Mmap => DiskStore::<E>::is_consistent(r.len(), r.arity, &cfg),
        Form::V1 => Lc::<E>::is_consistent_v1(r.len(), r.arity, &cfg),
        Form::V2 => Lc::<E>::is_consistent(r.len(), r.arity, &cfg),
    })?;
    let res = match o.res {
        Ok(x) => {
            req!(x == right, "a test of consistency says {} with failed calls {:?}", x, o.hits);
            Ok(())
        }
        Err(e) => Err(e),
    };
    Ok(Out { res, calls: o.calls, hits: o.hits })
}


fn refused<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, form: Form, r: &RefTree<E>, dir: &Path, f: Option<(usize, Fault)>) -> Result<Out<()>, String> {
    let d = discard(c);
    let cfg = config(dir, "t", d);
    let mut b = match form {
        Form::Disk | Form::Mmap => r.flat_bytes(),
        _ => to_bytes(&r.cached(d)),
    };
    match c.pick % 4 {
        0 => b.truncate(b.len() - E::LEN),
        1 => b.truncate(b.len() / 2),
        2 => b.truncate(b.len() - 1),
        _ => b.extend_from_slice(&[7; 64][..E::LEN.min(64)]),
    }
    let file = data_file(dir, "t");
    write_file(&file, &b);
    let rep = dir.join("replica");
    write_file(&rep, &to_bytes(r.leaves()));
    let n = r.leaves().len();
    match f {
        Some((at, f)) => arm(Some(at), f.mode, f.errno),
        None => arm(None, 0, 0),
    }
    let res = guard(|| -> anyhow::Result<()> {
        match form {
            Form::Disk => T::<E, A, _, B>::from_data_store(DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg)?, n).map(|_| ()),
            Form::Mmap => T::<E, A, _, B>::from_data_store(MmapStore::<E>::new_from_disk(r.len(), r.arity, &cfg)?, n).map(|_| ()),
            _ => {
                let s = LevelCacheStore::<E, _>::new_from_disk_with_reader(r.len(), r.arity, &cfg, ExternalReader::new_from_path(&rep)?)?;
                T::<E, A, _, B>::from_data_store(s, n).map(|_| ())
            }
        }
    });
    let (calls, hits) = disarm();
    match res {
        Err(p) => fail!("opening a file of {} bytes as {:?} panics ({}); failed calls: {:?}", b.len(), form, p, hits),
        Ok(Ok(())) => fail!("a file of {} bytes is opened as {:?} when calls fail: {:?}", b.len(), form, hits),
        Ok(Err(e)) => {
            req!(read_file(&file) == Some(b), "a file that is refused is changed");
            Ok(Out { res: Err(e), calls, hits })
        }
    }
}

fn main() {
    mtverif::main::<P>()
}
