//! C13: what was persisted is what is reopened, and nothing but a complete tree is reopened.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, LevelCacheStore, MmapStore, ReplicaConfig, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    Disk,
    Mmap,
    /// compacted in place, base row kept
    V1,
    /// compacted, base row dropped
    V2,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Damage {
    None,
    Cut(u32),
    Grow(u32),
    Gone,
    /// looked for under the size of a tree with this many levels instead
    Size(u32),
    /// (compact stores) with this discard count instead
    Discard(u8),
    /// write permission withdrawn, opened by another user
    ReadOnly,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    kind: Kind,
    id: String,
    how: u8,
    discard: u8,
    leaves: Leaves,
    other: Leaves,
    damage: Damage,
    again: u8,
    pick: u64,
    cfg_id: String,
    size: Option<usize>,
    offsets: Vec<usize>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C13";
    const RULE: &'static str = "case = (shape, constructor, kind of persistent store, identifier, leaf values, how it is reopened: as it is, over other data, truncated, extended, \
        removed, under a wrong size or discard count, read-only); non-trivial: leaves not all equal, and other data than the persisted ones or a damaged file";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let id = || prop_oneof![3 => Just("t".to_string()), 1 => "[a-zA-Z0-9._ -]{0,12}", 1 => "[a-zé☃%&$]{1,30}"];
        (
            (shape(ARITIES, 256, t.pick(4096, 65536), 12, 1), 0u8..2),
            prop_oneof![3 => Just(Kind::Disk), 1 => Just(Kind::Mmap), 2 => Just(Kind::V1), 2 => Just(Kind::V2)],
            id(),
            (0u8..6, any::<u8>()),
            leaves(),
            leaves(),
            prop_oneof![
                3 => Just(Damage::None),
                2 => prop_oneof![1u32..100, 1u32..5000, Just(u32::MAX)].prop_map(Damage::Cut),
                2 => prop_oneof![1u32..100, 1u32..5000].prop_map(Damage::Grow),
                1 => Just(Damage::Gone),
                1 => (1u32..9).prop_map(Damage::Size),
                1 => any::<u8>().prop_map(Damage::Discard),
                1 => Just(Damage::ReadOnly),
            ],
            0u8..6,
            any::<u64>(),
            (id(), proptest::option::of(any::<usize>()), proptest::collection::vec(any::<usize>(), 0..6)),
        )
            .prop_map(|((shape, ea), kind, id, (how, discard), leaves, other, damage, again, pick, (cfg_id, size, offsets))| Case {
                shape,
                ea,
                kind,
                id,
                how,
                discard,
                leaves,
                other,
                damage,
                again,
                pick,
                cfg_id,
                size,
                offsets,
            })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(40_000, 600_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        settings(c, &cx.dir())?;
        with_eab!(c.shape.arity, c.ea, E, A, B, match c.kind {
            Kind::Disk | Kind::Mmap => full::<E, A, B>(c, cx),
            Kind::V1 | Kind::V2 => compact::<E, A, B>(c, cx),
        })
    }
    fn assumptions() -> Vec<String> {
        vec![
            "an extended file of the older compact format is accepted by design; a content change of the right size is not detectable".into(),
            "read-only files are opened by a thread that drops to an unprivileged user id".into(),
        ]
    }
}

/// configurations are plain data
fn settings(c: &Case, dir: &Path) -> Result<(), String> {
    let mut a = StoreConfig::new(dir, c.id.clone(), c.discard as usize);
    req!(a.path == dir && a.id == c.id && a.size.is_none() && a.rows_to_discard == c.discard as usize, "a new configuration does not hold what it was given: {:?}", a);
    a.size = c.size;
    let js = serde_json::to_string(&a).map_err(|e| format!("configuration does not serialize: {}", e))?;
    let b: StoreConfig = serde_json::from_str(&js).map_err(|e| format!("configuration does not deserialize: {}", e))?;
    req!((&b.path, &b.id, b.size, b.rows_to_discard) == (&a.path, &a.id, a.size, a.rows_to_discard), "configuration changes over serialization: {:?} and {:?}", a, b);
    for size in [None, Some(17)] {
        let d = StoreConfig::from_config(&a, c.cfg_id.clone(), size);
        req!(
            (&d.path, &d.id, d.size, d.rows_to_discard) == (&a.path, &c.cfg_id, size.or(a.size), a.rows_to_discard),
            "a derived configuration is {:?}, from {:?} with {:?}, {:?}",
            d,
            a,
            c.cfg_id,
            size
        );
    }
    let (p, q) = (StoreConfig::data_path(dir, &c.id), StoreConfig::data_path(dir, &c.cfg_id));
    req!(p == data_file(dir, &c.id), "data file is {:?}", p);
    req!((p == q) == (c.id == c.cfg_id), "identifiers {:?} and {:?} share a data file", c.id, c.cfg_id);
    let r = ReplicaConfig::new(dir, c.offsets.clone());
    let js = serde_json::to_string(&r).map_err(|e| format!("replica configuration does not serialize: {}", e))?;
    let s: ReplicaConfig = serde_json::from_str(&js).map_err(|e| format!("replica configuration does not deserialize: {}", e))?;
    req!(r.path == dir && s.path == r.path && s.offsets == c.offsets && r.offsets == c.offsets, "replica configuration changes over serialization");
    let f = ReplicaConfig::from(dir);
    req!(f.path == dir && f.offsets == [0], "replica configuration of a path is {:?}", f);
    Ok(())
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;

fn build<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(how: u8, data: &[E], cfg: StoreConfig) -> anyhow::Result<T<E, A, S, B>> {
    let arity = B::to_usize();
    match how {
        0 => T::new_with_config(data.iter().copied(), cfg),
        1 => T::try_from_iter_with_config(data.iter().map(|x| Ok(*x)), cfg),
        2 => T::from_par_iter_with_config(data.par_iter().copied(), cfg),
        3 => T::from_tree_slice_with_config(&RefTree::from_items::<A>(data, arity).flat_bytes(), data.len(), cfg),
        4 => T::from_byte_slice_with_config(&to_bytes(&data.iter().map(|x| A::r_leaf(x)).collect::<Vec<E>>()), cfg),
        _ => T::from_data_store(S::new_from_slice_with_config(RefTree::from_items::<A>(data, arity).len(), arity, &RefTree::from_items::<A>(data, arity).flat_bytes(), cfg)?, data.len()),
    }
}

/// leaves the file in its damaged state; true if there is no complete tree any more
fn damage(c: &Case, file: &Path, whole: &[u8]) -> bool {
    match c.damage {
        Damage::Cut(k) => {
            let k = (k as usize).min(whole.len());
            write_file(file, &whole[..whole.len() - k]);
            true
        }
        Damage::Grow(k) => {
            let mut b = whole.to_vec();
            b.resize(b.len() + k as usize, 0xEE);
            write_file(file, &b);
            true
        }
        Damage::Gone => {
            std::fs::remove_file(file).unwrap_or_else(|e| infra(format!("{}", e)));
            true
        }
        _ => false,
    }
}

/// runs f in a thread of another user; None if this environment does not allow that
fn as_nobody<T: Send>(f: impl FnOnce() -> T + Send) -> Option<T> {
    std::thread::scope(|s| {
        s.spawn(|| {
            // per thread: the raw call, not the process-wide wrapper
            let rc = unsafe { libc::syscall(libc::SYS_setresuid, -1i64, 65534i64, -1i64) };
            if rc != 0 {
                return None;
            }
            Some(f())
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

fn full<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let arity = c.shape.arity;
    let data: Vec<E> = c.leaves.items(n);
    let other: Vec<E> = c.other.items(n);
    let r = RefTree::<E>::from_items::<A>(&data, arity);
    let whole = r.flat_bytes();
    let len = r.len();
    let dir = cx.dir();
    let cfg = config(&dir, &c.id, c.discard as usize);
    let file = data_file(&dir, &c.id);
    cx.label(format!("{:?} {}", c.kind, format!("{:?}", c.damage).split('(').next().unwrap()));
    if c.leaves.mode != 1 && c.leaves.mode != 3 && (other != data || c.damage != Damage::None) {
        cx.nontrivial();
    }
    if c.kind == Kind::Disk {
        let t = build::<E, A, DiskStore<E>, B>(c.how, &data, cfg.clone()).map_err(|e| format!("build {}: {:?}", c.how, e))?;
        same_header(&t, &r)?;
    } else {
        let t = build::<E, A, MmapStore<E>, B>(c.how, &data, cfg.clone()).map_err(|e| format!("build {}: {:?}", c.how, e))?;
        same_header(&t, &r)?;
    }
    let got = read_file(&file).ok_or("no file after the build")?;
    req!(got == whole, "the persisted file is not the tree ({} bytes, wanted {})", got.len(), whole.len());

    let gone = damage(c, &file, &whole);
    let before = read_file(&file);
    let (want_len, levels) = match c.damage {
        Damage::Size(l) => {
            let mut l = l;
            while arity.pow(l) > 1 << 18 {
                l -= 1;
            }
            (Shape { arity, levels: l }.len(), l)
        }
        _ => (len, c.shape.levels),
    };
    let complete = !gone && levels == c.shape.levels;
    let leafs = arity.pow(levels);

    let look = |name: &str, t: T<E, A, DiskStore<E>, B>| same_tree(&t, &r, c.pick, 5).map_err(|e| format!("reopened by {}: {}", name, e));
    let lookm = |name: &str, t: T<E, A, MmapStore<E>, B>| same_tree(&t, &r, c.pick, 5).map_err(|e| format!("memory-mapped, reopened by {}: {}", name, e));
    if c.damage == Damage::ReadOnly {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o444)).unwrap_or_else(|e| infra(format!("{}", e)));
        let res = as_nobody(|| -> Result<(), String> {
            let s = DiskStore::<E>::new_from_disk(len, arity, &cfg).map_err(|e| format!("opening a read-only store: {:?}", e))?;
            look("new_from_disk, read-only", T::from_data_store(s, n).map_err(|e| format!("read-only tree: {:?}", e))?)?;
            let t = T::<E, A, DiskStore<E>, B>::new_with_config(other.iter().copied(), cfg.clone()).map_err(|e| format!("read-only, new_with_config: {:?}", e))?;
            look("new_with_config, read-only", t)?;
            match guard(|| MmapStore::<E>::new_from_disk(len, arity, &cfg)) {
                Ok(Ok(s)) => lookm("new_from_disk, read-only", T::from_data_store(s, n).map_err(|e| format!("read-only tree: {:?}", e))?),
                Ok(Err(_)) => Ok(()),
                Err(p) => fail!("memory-mapping a read-only store panics: {}", p),
            }
        });
        match res {
            Some(r) => r?,
            None => cx.label("cannot drop privileges"),
        }
        req!(read_file(&file).as_ref() == Some(&whole), "a read-only store changed");
        return Ok(());
    }
    // plain reopening
    let opened: Vec<(&str, Result<anyhow::Result<DiskStore<E>>, String>)> = vec![
        ("new_from_disk", guard(|| DiskStore::<E>::new_from_disk(want_len, arity, &cfg))),
        ("new_from_disk_with_path", guard(|| DiskStore::<E>::new_from_disk_with_path(want_len, StoreConfig::data_path(&dir, &c.id)))),
    ];
    for (name, s) in opened {
        let s = s.map_err(|p| format!("{} panics: {}", name, p))?;
        if complete {
            let s = s.map_err(|e| format!("{}: {:?}", name, e))?;
            req!(s.loaded_from_disk(), "{}: the store is not marked as loaded", name);
            req!(Store::len(&s) == len, "{}: {} elements", name, Store::len(&s));
            look(name, T::from_data_store(s, n).map_err(|e| format!("{}: {:?}", name, e))?)?;
        } else {
            req!(s.is_err(), "{} of {:?} succeeds ({} bytes for {} elements)", name, c.damage, before.as_ref().map_or(0, |b| b.len()), want_len);
        }
        req!(read_file(&file) == before, "{} changed the file", name);
    }
    let m = guard(|| MmapStore::<E>::new_from_disk(want_len, arity, &cfg)).map_err(|p| format!("memory-mapped new_from_disk panics: {}", p))?;
    if complete {
        let s = m.map_err(|e| format!("memory-mapped new_from_disk: {:?}", e))?;
        req!(s.loaded_from_disk() && Store::len(&s) == len, "memory-mapped new_from_disk: not marked as loaded, or {} elements", Store::len(&s));
        lookm("new_from_disk", T::from_data_store(s, n).map_err(|e| format!("memory-mapped tree: {:?}", e))?)?;
    } else {
        req!(m.is_err(), "memory-mapped new_from_disk of {:?} succeeds", c.damage);
    }
    req!(read_file(&file) == before, "memory-mapped new_from_disk changed the file");
    // consistency test
    let cons = DiskStore::<E>::is_consistent(want_len, arity, &cfg);
    match (&before, cons) {
        (None, Err(_)) => {}
        (Some(_), Ok(b)) if b == complete => {}
        (_, o) => fail!("consistency of {:?} is {:?}", c.damage, o),
    }
    // over the existing file, with other data
    if before.is_some() {
        again::<E, A, DiskStore<E>, B>(c, &r, &other, &cfg, &file, &before, complete, leafs)?;
        again::<E, A, MmapStore<E>, B>(c, &r, &other, &cfg, &file, &before, complete, leafs).map_err(|e| format!("memory-mapped: {}", e))?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn again<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(
    c: &Case,
    r: &RefTree<E>,
    other: &[E],
    cfg: &StoreConfig,
    file: &Path,
    before: &Option<Vec<u8>>,
    complete: bool,
    leafs: usize,
) -> Result<(), String> {
    for how in [c.again, (c.again + 1) % 6] {
        if complete {
            let res = guard(|| build::<E, A, S, B>(how, other, cfg.clone())).map_err(|p| format!("building again ({}) panics: {}", how, p))?;
            match res {
                Ok(t) => same_tree(&t, r, c.pick, 5).map_err(|e| format!("reopened by constructor {} on other data: {}", how, e))?,
                // a slice of leaves is refused
                Err(e) => req!(how == 4, "building again ({}) over a persisted tree fails: {:?}", how, e),
            }
            req!(&read_file(file) == before, "building again ({}) changed the persisted tree", how);
        } else {
            let data: Vec<E> = c.other.items(leafs);
            let res = guard(|| build::<E, A, S, B>(how, &data, cfg.clone())).map_err(|p| format!("building over {:?} panics: {}", c.damage, p))?;
            req!(res.is_err(), "building ({}) over {:?} succeeds", how, c.damage);
            req!(&read_file(file) == before, "building ({}) over {:?} changed the file", how, c.damage);
        }
    }
    Ok(())
}

fn compact<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    type L<E, A, B> = MerkleTree<E, A, Lc<E>, B>;
    let n = c.shape.leafs();
    let arity = c.shape.arity;
    let levels = c.shape.levels as usize;
    let data: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&data, arity);
    let len = r.len();
    let d = c.discard as usize % levels;
    let dir = cx.dir();
    let cfg = config(&dir, &c.id, d);
    let file = data_file(&dir, &c.id);
    let rep = dir.join("replica");
    let base = to_bytes(r.leaves());
    write_file(&rep, &base);
    cx.label(format!("{:?} {}", c.kind, format!("{:?}", c.damage).split('(').next().unwrap()));
    if c.leaves.mode != 1 && c.leaves.mode != 3 && c.damage != Damage::None {
        cx.nontrivial();
    }
    let v1 = c.kind == Kind::V1;
    {
        let mut t = build::<E, A, DiskStore<E>, B>(c.how % 4, &data, cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
        t.compact(cfg.clone(), if v1 { 1 } else { 2 }).map_err(|e| format!("compact: {:?}", e))?;
    }
    let mut whole = if v1 { base.clone() } else { vec![] };
    whole.extend(to_bytes(&r.cached(d)));
    req!(read_file(&file).as_ref() == Some(&whole), "the compacted file is not the kept rows");
    let gone = damage(c, &file, &whole);
    let before = read_file(&file);
    let (want_len, ask) = match c.damage {
        Damage::Size(l) => {
            let mut l = l;
            while arity.pow(l) > 1 << 18 {
                l -= 1;
            }
            (Shape { arity, levels: l }.len(), config(&dir, &c.id, d))
        }
        Damage::Discard(x) => (len, config(&dir, &c.id, x as usize % (levels + 1))),
        _ => (len, cfg.clone()),
    };
    let complete = !gone && want_len == len && ask.rows_to_discard == d;
    // The tests of consistency look at the size only
    let by_size = |keeps_base: bool| -> Option<Option<bool>> {
        // None: the configuration itself is invalid; Some(None): no file
        let mut rows = vec![];
        let mut w = 1usize;
        let mut sum = 0;
        while sum < want_len {
            rows.push(w);
            sum += w;
            w *= arity;
        }
        rows.reverse();
        if ask.rows_to_discard + 1 >= rows.len() {
            return None;
        }
        let kept: usize = rows[1 + ask.rows_to_discard..].iter().sum::<usize>() + if keeps_base { rows[0] } else { 0 };
        Some(before.as_ref().map(|b| b.len() == kept * E::LEN))
    };
    for keeps in [true, false] {
        let got = if keeps { Lc::<E>::is_consistent_v1(want_len, arity, &ask) } else { Lc::<E>::is_consistent(want_len, arity, &ask) };
        match (by_size(keeps), got) {
            (None, Err(_)) | (Some(None), Err(_)) => {}
            (Some(Some(w)), Ok(g)) if w == g => {}
            (w, g) => fail!("consistency of {:?} in format {} is {:?}, expected {:?}", c.damage, if keeps { 1 } else { 2 }, g, w),
        }
    }
    if c.damage == Damage::ReadOnly {
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o444)).unwrap_or_else(|e| infra(format!("{}", e)));
        let res = as_nobody(|| -> Result<(), String> { look::<E, A, B>(c, &r, d, v1, &cfg, &rep, n).map_err(|e| format!("read-only: {}", e)) });
        match res {
            Some(r) => r?,
            None => cx.label("cannot drop privileges"),
        }
        req!(read_file(&file).as_ref() == Some(&whole), "a read-only store changed");
        return Ok(());
    }
    if complete {
        look::<E, A, B>(c, &r, d, v1, &cfg, &rep, n)?;
        if v1 {
            // building over a store of this format loads it
            let other: Vec<E> = c.other.items(n);
            let t = L::<E, A, B>::new_with_config(other.iter().copied(), cfg.clone()).map_err(|e| format!("building over a compacted tree: {:?}", e))?;
            same_lc_tree(&t, &r, d, c.pick, 5).map_err(|e| format!("built over a compacted tree: {}", e))?;
        }
    } else if !v1 {
        let res = guard(|| Lc::<E>::new_from_disk_with_reader(want_len, arity, &ask, file_reader(&rep))).map_err(|p| format!("opening {:?} panics: {}", c.damage, p))?;
        req!(res.is_err(), "opening {:?} of a compacted tree succeeds", c.damage);
    } else if before.is_none() || matches!(c.damage, Damage::Cut(_)) {
        // refused when opened or when the root is read
        let res = guard(|| {
            let s = Lc::<E>::new_from_disk(want_len, arity, &ask)?;
            L::<E, A, B>::from_data_store(s, n)
        })
        .map_err(|p| format!("opening {:?} panics: {}", c.damage, p))?;
        req!(res.is_err(), "opening {:?} of a compacted tree succeeds", c.damage);
    }
    req!(read_file(&file) == before, "opening {:?} changed the file", c.damage);
    Ok(())
}

fn look<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, r: &RefTree<E>, d: usize, v1: bool, cfg: &StoreConfig, rep: &Path, n: usize) -> Result<(), String> {
    type L<E, A, B> = MerkleTree<E, A, Lc<E>, B>;
    let s = if v1 { Lc::<E>::new_from_disk(r.len(), r.arity, cfg) } else { LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, cfg, file_reader(rep)) }
        .map_err(|e| format!("reopening a compacted tree: {:?}", e))?;
    let t = L::<E, A, B>::from_data_store(s, n).map_err(|e| format!("compacted tree: {:?}", e))?;
    same_lc_tree(&t, r, d, c.pick, 5).map_err(|e| format!("reopened compacted tree: {}", e))?;
    if !v1 {
        // the other documented way: open first, then set the reader
        let mut s = Lc::<E>::new_from_disk(r.len(), r.arity, cfg).map_err(|e| format!("reopening a compacted tree without a reader: {:?}", e))?;
        s.set_external_reader(file_reader(rep)).map_err(|e| format!("set reader: {:?}", e))?;
        let t = L::<E, A, B>::from_data_store(s, n).map_err(|e| format!("compacted tree: {:?}", e))?;
        same_lc_tree(&t, r, d, c.pick, 5).map_err(|e| format!("reopened compacted tree, reader set later: {}", e))?;
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
