//! C19: leaves kept elsewhere are read from exactly where the configuration says.
use merkletree::merkle::MerkleTree;
use merkletree::store::{DiskStore, ExternalReader, LevelCacheStore, ReplicaConfig, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Base { shape: Shape, ea: u8 },
    Compound { k: usize, levels: u32 },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    None,
    /// the outside data end early (before opening, or while open)
    Cut(u16, bool),
    /// some bytes of the outside data differ
    Alter(u64, u8),
    Missing,
    /// one offset too many or too few
    Offsets(bool),
    /// one compacted tree is not there
    NoTree(u8),
    /// one compacted tree has not the size of its configuration
    WrongSize(u8, bool),
    /// one offset points elsewhere, still inside the outside data
    Moved(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    direct: bool,
    discard: u8,
    gaps: Vec<u16>,
    /// where the outside file starts to have data
    #[serde(default)]
    far: u8,
    order: u64,
    leaves: Leaves,
    fault: Fault,
    pick: u64,
    fail: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C19";
    const RULE: &'static str = "case = (a tree or tree of trees that dropped its leaves, placement of the leaves of each part in one outside file: order, gaps, offsets; one fault: outside \
        data missing, cut short, altered, offset moved, tree missing or of a wrong size; a reader of the harness that fails at chosen calls); non-trivial: a gap or another \
        order, or a fault";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let fault = prop_oneof![
            6 => Just(Fault::None),
            3 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| Fault::Cut(a, b)),
            3 => (any::<u64>(), 1u8..5).prop_map(|(a, b)| Fault::Alter(a, b)),
            1 => Just(Fault::Missing),
            1 => any::<bool>().prop_map(Fault::Offsets),
            1 => any::<u8>().prop_map(Fault::NoTree),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Fault::WrongSize(a, b)),
            2 => any::<u8>().prop_map(Fault::Moved),
        ];
        (
            prop_oneof![
                1 => (shape(ARITIES, 512, 4096, 10, 1), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                2 => compound(128).prop_map(|(k, levels)| Kind::Compound { k, levels }),
            ],
            any::<bool>(),
            any::<u8>(),
            proptest::collection::vec(prop_oneof![2 => Just(0u16), 1 => 0u16..8, 2 => 0u16..300], 1..6),
            prop_oneof![2 => Just(0u8), 1 => 0u8..FAR.len() as u8],
            prop_oneof![1 => Just(0u64), 3 => any::<u64>()],
            distinct_leaves(),
            fault,
            any::<u64>(),
            any::<u64>(),
        )
            .prop_map(|(kind, direct, discard, gaps, far, order, leaves, fault, pick, fail)| Case { kind, direct, discard, gaps, far, order, leaves, fault, pick, fail })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(48_000, 700_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        cx.label(format!("{:?}", c.fault).split('(').next().unwrap().to_string());
        if far(c) > 0 {
            cx.label("outside data at 2^31 or later");
        }
        if c.fault != Fault::None || c.order != 0 || c.gaps[0] > 0 || far(c) > 0 {
            cx.nontrivial();
        }
        match c.kind {
            Kind::Base { shape, ea } => with_eab!(shape.arity, ea, E, A, B, base::<E, A, B>(c, shape, cx)),
            Kind::Compound { k, levels } => with_compound!(k, E, A, B, Sub, Top, comp::<E, A, B, Sub, Top>(c, k, levels, cx)),
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "a reader delivers what was asked or an error; how many bytes it says it delivered is not looked at".into(),
            "altered leaves are told from genuine ones by the hash algorithms of the harness".into(),
        ]
    }
}

/// A compacted tree (cached rows only) under `id`.
fn compacted<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, items: &[E], r: &RefTree<E>, dir: &Path, id: &str, d: usize) -> Result<StoreConfig, String> {
    let cfg = config(dir, id, d);
    if c.direct {
        MerkleTree::<E, A, Lc<E>, B>::new_with_config(items.iter().copied(), cfg.clone()).map_err(|e| format!("level cache build: {:?}", e))?;
    } else {
        let mut t = MerkleTree::<E, A, DiskStore<E>, B>::new_with_config(items.iter().copied(), cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
        match t.compact(cfg.clone(), 2) {
            Ok(true) => {}
            o => fail!("compact: {:?}", o),
        }
    }
    req!(read_file(&data_file(dir, id)) == Some(to_bytes(&r.cached(d))), "the compacted file is not the cached rows");
    Ok(cfg)
}

/// Starts of the data in the (sparse) outside file, around the borders of 32 bit numbers.
const FAR: [u64; 7] = [0, (1 << 31) - 320, 1 << 31, (1 << 32) - 480, 1 << 32, (1 << 33) + 77, (1 << 36) + 1];
fn far(c: &Case) -> usize {
    FAR[c.far as usize % FAR.len()] as usize
}
fn write_far(p: &Path, c: &Case, b: &[u8]) {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(p).unwrap_or_else(|e| infra(format!("{:?}: {}", p, e)));
    f.set_len((far(c) + b.len()) as u64).unwrap_or_else(|e| infra(format!("{:?}: {}", p, e)));
    f.write_all_at(b, far(c) as u64).unwrap_or_else(|e| infra(format!("{:?}: {}", p, e)));
}

/// Places the parts in one file; returns the file and the offset of each part.
fn place(c: &Case, parts: &[Vec<u8>]) -> (Vec<u8>, Vec<usize>) {
    let n = parts.len();
    let mut order: Vec<usize> = (0..n).collect();
    if c.order != 0 {
        order.sort_by_key(|i| fin(c.order ^ *i as u64));
    }
    let (mut file, mut at) = (vec![], vec![0; n]);
    for (k, i) in order.into_iter().enumerate() {
        for g in 0..c.gaps[k % c.gaps.len()] as u64 {
            file.push(fin(c.pick ^ g) as u8);
        }
        at[i] = file.len();
        file.extend_from_slice(&parts[i]);
    }
    (file, at)
}
fn altered(c: &Case, file: &mut [u8]) {
    if let Fault::Alter(s, n) = c.fault {
        for k in 0..n as u64 {
            let at = (fin(s ^ fin(k)) % file.len() as u64) as usize;
            file[at] ^= 1 << (fin(s ^ k) % 8);
        }
    }
}

/// What the outside data say at the place of leaf `i` of a part (None: not there).
fn outside<E: RElem>(file: &[u8], offset: usize, i: usize) -> Option<E> {
    let a = offset + i * E::LEN;
    file.get(a..a + E::LEN).map(E::raw)
}

/// Reads and proofs of one base tree, whose leaves are `file` from `offset` on.
fn look<E: RElem, A: RefAlg<E>, B: Unsigned, R: Read + Send + Sync>(
    c: &Case,
    t: &MerkleTree<E, A, LevelCacheStore<E, R>, B>,
    r: &RefTree<E>,
    d: usize,
    file: &[u8],
    offset: usize,
    cx: &mut Cx,
) -> Result<(), String> {
    same_header(t, r)?;
    let n = r.leaves().len();
    for i in positions(n, c.pick, 24) {
        match (t.read_at(i), outside::<E>(file, offset, i)) {
            (Ok(x), Some(w)) => req!(x == w, "read_at({}) is {} and not the outside data {}", i, hex(x.bytes()), hex(w.bytes())),
            (Ok(_), None) => fail!("read_at({}) gives a leaf the outside data do not have", i),
            (Err(e), Some(_)) => fail!("read_at({}): {:?}", i, e),
            (Err(_), None) => cx.count("refused: not there", 1),
        }
        let mut b = vec![0u8; E::LEN];
        match (t.read_into(i, &mut b), outside::<E>(file, offset, i)) {
            (Ok(()), Some(w)) => req!(b == w.bytes(), "read_into({}) is not the outside data", i),
            (Ok(_), None) => fail!("read_into({}) gives a leaf the outside data do not have", i),
            (Err(e), Some(_)) => fail!("read_into({}): {:?}", i, e),
            (Err(_), None) => {}
        }
        prove::<E, A, B>(t.gen_cached_proof(i, Some(d)), &r.ref_proof(i), |l| outside::<E>(file, offset, l), r, i, d, cx).map_err(|e| format!("cached proof of leaf {}: {}", i, e))?;
    }
    for (a, len) in positions(n, c.pick ^ 77, 6).into_iter().zip([1, 2, 3, 8, 64, n]) {
        let b = (a + len).min(n);
        let want: Option<Vec<E>> = (a..b).map(|i| outside(file, offset, i)).collect();
        let mut buf = vec![0u8; (b - a) * E::LEN];
        match (t.read_range(a, b), &want) {
            (Ok(x), Some(w)) => req!(&x == w, "read_range({}, {}) is not the outside data", a, b),
            (Ok(_), None) => fail!("read_range({}, {}) gives leaves the outside data do not have", a, b),
            (Err(e), Some(_)) => fail!("read_range({}, {}): {:?}", a, b, e),
            (Err(_), None) => {}
        }
        match (t.read_range_into(a, b, &mut buf), &want) {
            (Ok(()), Some(w)) => req!(buf == to_bytes(w), "read_range_into({}, {}) is not the outside data", a, b),
            (Ok(_), None) => fail!("read_range_into({}, {}) gives leaves the outside data do not have", a, b),
            (Err(e), Some(_)) => fail!("read_range_into({}, {}): {:?}", a, b, e),
            (Err(_), None) => {}
        }
    }
    Ok(())
}

/// A cached proof is the genuine one if the leaves it is made of are; and whatever is not genuine is not accepted.
#[allow(clippy::too_many_arguments)]
fn prove<E: RElem, A: RefAlg<E>, B: Unsigned>(
    p: anyhow::Result<merkletree::proof::Proof<E, B>>,
    want: &RefProof<E>,
    leaf: impl Fn(usize) -> Option<E>,
    r: &RefTree<E>,
    i: usize,
    d: usize,
    cx: &mut Cx,
) -> Result<(), String> {
    let arity = r.arity;
    let levels = r.rows.len() - 1;
    let eff = d.min(default_discard(arity, levels));
    // the leaves below one cached node
    let seg = arity.pow(eff as u32 + 1).min(r.leaves().len());
    let s = i / seg * seg;
    let intact = (s..s + seg).all(|l| leaf(l) == Some(r.leaves()[l]));
    let present = (s..s + seg).all(|l| leaf(l).is_some());
    match p {
        Ok(p) => {
            let ok = p.validate::<A>();
            if intact {
                same_proof(&p, want)?;
                req!(matches!(ok, Ok(true)), "not accepted: {:?}", ok);
                cx.count("proofs", 1);
            } else {
                req!(!matches!(ok, Ok(true)) || same_proof(&p, want).is_ok(), "accepted, though it is not the proof of the leaf");
                cx.count("proofs over altered leaves", 1);
            }
        }
        Err(e) => {
            // more rows dropped than a cached proof can bridge
            let gone = d > default_discard(arity, levels);
            req!(!present || gone, "{:?}", e);
            cx.count("proofs refused", 1);
        }
    }
    Ok(())
}

/// A source of the harness: remembers what was asked, fails when told to.
struct Src {
    data: Vec<u8>,
    /// where they begin
    start: usize,
    log: Mutex<Vec<(usize, usize, usize)>>,
    calls: Arc<AtomicU64>,
    fail: Arc<AtomicU64>,
}
impl Read for Src {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "not read this way"))
    }
}
fn src_read(start: usize, end: usize, buf: &mut [u8], s: &Src) -> anyhow::Result<usize> {
    anyhow::ensure!(start >= s.start && end >= s.start, "nothing there");
    let (start, end) = (start - s.start, end - s.start);
    s.log.lock().unwrap().push((start, end, buf.len()));
    let k = s.calls.fetch_add(1, SeqCst);
    let f = s.fail.load(SeqCst);
    if f != 0 && fin(f ^ k) % 3 == 0 {
        anyhow::bail!("told to fail");
    }
    anyhow::ensure!(start <= end && end <= s.data.len() && buf.len() >= end - start, "nothing there");
    buf[..end - start].copy_from_slice(&s.data[start..end]);
    Ok(end - start)
}

fn base<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, shape: Shape, cx: &mut Cx) -> Result<(), String> {
    let items: Vec<E> = c.leaves.items(shape.leafs());
    let r = RefTree::<E>::from_items::<A>(&items, shape.arity);
    let d = c.discard as usize % (shape.max_discard() + 1);
    let dir = cx.dir();
    let cfg = compacted::<E, A, B>(c, &items, &r, &dir, "t", d)?;
    let me = to_bytes(r.leaves());
    // neighbours before and after, so that another offset is another leaf
    let other = to_bytes(&c.leaves.offset(3).items::<E>(shape.leafs()));
    let (mut file, offs) = place(c, &[other.clone(), me.clone(), other]);
    altered(c, &mut file);
    let mut offset = offs[1];
    if let Fault::Moved(k) = c.fault {
        offset = offset.saturating_sub(1 + k as usize % (E::LEN * 2));
    }
    let rep = dir.join("replica");
    let open_len = |file: &[u8]| match c.fault {
        Fault::Cut(f, _) => offset + f as usize % (me.len() + 1),
        _ => file.len(),
    };
    let cut = open_len(&file);
    let late = matches!(c.fault, Fault::Cut(_, true));
    write_far(&rep, c, if late { &file } else { &file[..cut] });
    let rc = ReplicaConfig::new(&rep, vec![far(c) + offs[0], far(c) + offset, far(c) + offs[2]]);
    if c.fault == Fault::Missing {
        std::fs::remove_file(&rep).unwrap_or_else(|e| infra(format!("{}", e)));
        req!(matches!(guard(|| ExternalReader::new_from_config(&rc, 1).is_err()), Ok(true)), "a reader of a missing file is no error");
        req!(matches!(guard(|| ExternalReader::new_from_path(&rep).is_err()), Ok(true)), "a reader of a missing file is no error");
        return Ok(());
    }
    let reader = || ExternalReader::new_from_config(&rc, 1).map_err(|e| format!("reader: {:?}", e));
    if let Fault::NoTree(_) = c.fault {
        std::fs::remove_file(data_file(&dir, "t")).unwrap_or_else(|e| infra(format!("{}", e)));
        let o = guard(|| LevelCacheStore::<E, _>::new_from_disk_with_reader(r.len(), r.arity, &cfg, reader().unwrap_or_else(|e| infra(e))).is_err());
        req!(o == Ok(true), "opening a tree that is not there: {:?}", o);
        req!(read_file(&data_file(&dir, "t")).is_none(), "opening a missing tree creates it");
        return Ok(());
    }
    if let Fault::WrongSize(_, more) = c.fault {
        resize(&data_file(&dir, "t"), E::LEN, more);
        let o = guard(|| LevelCacheStore::<E, _>::new_from_disk_with_reader(r.len(), r.arity, &cfg, reader().unwrap_or_else(|e| infra(e))).is_err());
        req!(o == Ok(true), "opening a tree of the wrong size: {:?}", o);
        return Ok(());
    }
    let mut trees = vec![];
    let s = LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, &cfg, reader()?).map_err(|e| format!("open: {:?}", e))?;
    trees.push(MerkleTree::<E, A, Lc<E>, B>::from_data_store(s, shape.leafs()).map_err(|e| format!("tree: {:?}", e))?);
    if late {
        truncate(&rep, far(c) + cut);
    }
    look(c, &trees[0], &r, d, &file[..cut], offset, cx)?;
    // another reader instead: the whole file of leaves
    let alone = dir.join("alone");
    write_file(&alone, &me);
    let mut t = trees.pop().unwrap();
    t.set_external_reader_path(&alone).map_err(|e| format!("set_external_reader_path: {:?}", e))?;
    look(c, &t, &r, d, &me, 0, cx).map_err(|e| format!("after changing the reader: {}", e))?;
    let gone = guard(|| t.set_external_reader_path(&dir.join("nothing")).is_err());
    req!(gone == Ok(true), "a reader of a missing file is no error: {:?}", gone);
    look(c, &t, &r, d, &me, 0, cx).map_err(|e| format!("after a failed change of the reader: {}", e))?;

    // a reader of our own
    let (calls, fail) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let src = Src { data: file[..cut].to_vec(), start: far(c), log: Mutex::new(vec![]), calls: calls.clone(), fail: fail.clone() };
    let src = Arc::new(src);
    struct Shared(Arc<Src>);
    impl Read for Shared {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
            Err(std::io::Error::new(std::io::ErrorKind::Other, "not read this way"))
        }
    }
    let er = ExternalReader { offset: far(c) + offset, source: Shared(src.clone()), read_fn: |a, b, buf: &mut [u8], s: &Shared| src_read(a, b, buf, &s.0) };
    let s = if c.pick % 2 == 0 {
        LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, &cfg, er).map_err(|e| format!("open: {:?}", e))?
    } else {
        let mut s = LevelCacheStore::<E, Shared>::new_from_disk(r.len(), r.arity, &cfg).map_err(|e| format!("open: {:?}", e))?;
        s.set_external_reader(er).map_err(|e| format!("set_external_reader: {:?}", e))?;
        s
    };
    let t = MerkleTree::<E, A, _, B>::from_data_store(s, shape.leafs()).map_err(|e| format!("tree: {:?}", e))?;
    look(c, &t, &r, d, &file[..cut], offset, cx).map_err(|e| format!("own reader: {}", e))?;
    for (a, b, l) in src.log.lock().unwrap().iter() {
        req!(*a >= offset && *b <= offset + me.len() && a < b && *l >= b - a, "the reader is asked for {}..{} into {} bytes; the leaves are {}..{}", a, b, l, offset, offset + me.len());
    }
    // failing now and then: an error, never a made up answer
    fail.store(c.fail | 1, SeqCst);
    for i in positions(shape.leafs(), c.pick ^ 5, 10) {
        let w = outside::<E>(&file[..cut], offset, i);
        if let Ok(Ok(x)) = guard(|| t.read_at(i)) {
            req!(Some(x) == w, "read_at({}) with a failing reader is not the outside data", i);
            cx.count("reads that did not fail", 1);
        }
        match guard(|| t.gen_cached_proof(i, Some(d))) {
            Ok(Ok(p)) => {
                let genuine = same_proof(&p, &r.ref_proof(i)).is_ok();
                req!(genuine || !matches!(p.validate::<A>(), Ok(true)), "a wrong proof of leaf {} with a failing reader is accepted", i);
                if matches!(c.fault, Fault::None) {
                    req!(genuine, "the proof of leaf {} with a failing reader is another", i);
                }
            }
            Ok(Err(_)) => {}
            Err(p) => fail!("a failing reader makes gen_cached_proof({}) panic: {}", i, p),
        }
    }
    fail.store(0, SeqCst);
    look(c, &t, &r, d, &file[..cut], offset, cx).map_err(|e| format!("after failures of the reader: {}", e))
}
fn truncate(p: &Path, n: usize) {
    std::fs::OpenOptions::new().write(true).open(p).and_then(|f| f.set_len(n as u64)).unwrap_or_else(|e| infra(format!("{:?}: {}", p, e)))
}
fn resize(p: &Path, by: usize, more: bool) {
    let n = read_file(p).unwrap_or_else(|| infra("no file")).len();
    truncate(p, if more { n + by } else { n - by });
}

fn comp<E: RElem, A: RefAlg<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(c: &Case, k: usize, levels: u32, cx: &mut Cx) -> Result<(), String> {
    type T<E, A, B, Sub, Top> = MerkleTree<E, A, Lc<E>, B, Sub, Top>;
    let (r, items) = ref_compound::<E, A>(k, levels, c.leaves);
    let count = items.len();
    let d = c.discard as usize % levels as usize;
    let dir = cx.dir();
    let w = r.bases[0].leaves().len();
    let mut cfgs = vec![];
    for (b, it) in items.iter().enumerate() {
        cfgs.push(compacted::<E, A, B>(c, it, &r.bases[b], &dir, &format!("t{}", b), d)?);
    }
    let parts: Vec<Vec<u8>> = r.bases.iter().map(|b| to_bytes(b.leaves())).collect();
    let (mut file, mut offs) = place(c, &parts);
    altered(c, &mut file);
    let cut = match c.fault {
        Fault::Cut(f, _) => f as usize % (file.len() + 1),
        _ => file.len(),
    };
    let late = matches!(c.fault, Fault::Cut(_, true));
    if let Fault::Moved(b) = c.fault {
        let b = b as usize % count;
        offs[b] = offs[(b + 1) % count].saturating_sub(c.pick as usize % 3);
    }
    let rep = dir.join("replica");
    write_far(&rep, c, if late { &file } else { &file[..cut] });
    let mut bad = false;
    match c.fault {
        Fault::Missing => {
            std::fs::remove_file(&rep).unwrap_or_else(|e| infra(format!("{}", e)));
            bad = true;
        }
        Fault::Offsets(more) => {
            if more {
                offs.push(0);
            } else {
                offs.pop();
            }
            bad = true;
        }
        Fault::NoTree(b) => {
            std::fs::remove_file(data_file(&dir, &format!("t{}", b as usize % count))).unwrap_or_else(|e| infra(format!("{}", e)));
            bad = true;
        }
        Fault::WrongSize(b, more) => {
            resize(&data_file(&dir, &format!("t{}", b as usize % count)), E::LEN, more);
            bad = true;
        }
        _ => {}
    }
    let rc = ReplicaConfig::new(&rep, offs.iter().map(|o| far(c) + o).collect());
    let t = guard(|| {
        if Top::to_usize() > 0 {
            T::<E, A, B, Sub, Top>::from_sub_tree_store_configs_and_replica(w, &cfgs, &rc)
        } else {
            T::<E, A, B, Sub, Top>::from_store_configs_and_replica(w, &cfgs, &rc)
        }
    })
    .map_err(|p| format!("assembling panics: {}", p))?;
    if bad {
        req!(t.is_err(), "assembling is no error");
        if let Fault::NoTree(b) = c.fault {
            req!(read_file(&data_file(&dir, &format!("t{}", b as usize % count))).is_none(), "a missing tree is created");
        }
        return Ok(());
    }
    let t = t.map_err(|e| format!("assembling: {:?}", e))?;
    if late {
        truncate(&rep, far(c) + cut);
    }
    let file = &file[..cut];
    req!(t.root() == r.root, "root differs");
    req!((t.leafs(), t.len(), t.row_count()) == (r.leafs(), r.len(), r.row_count()), "sizes differ");
    let n = r.leafs();
    let mut idx = positions(n, c.pick, 16);
    idx.extend((0..count).flat_map(|b| [b * w, b * w + w - 1]));
    for i in idx {
        let (b, l) = (i / w, i % w);
        match (t.read_at(i), outside::<E>(file, offs[b], l)) {
            (Ok(x), Some(want)) => req!(x == want, "read_at({}) is not leaf {} at offset {}", i, l, offs[b]),
            (Ok(_), None) => fail!("read_at({}) gives a leaf the outside data do not have", i),
            (Err(e), Some(_)) => fail!("read_at({}): {:?}", i, e),
            (Err(_), None) => cx.count("refused: not there", 1),
        }
        prove::<E, A, B>(t.gen_cached_proof(i, Some(d)), &r.proof(i), |x| outside::<E>(file, offs[b], x), &r.bases[b], l, d, cx)
            .map_err(|e| format!("cached proof of leaf {}: {}", i, e))?;
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
