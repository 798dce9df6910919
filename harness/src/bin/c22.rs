//! C22: what an operation costs (memory, reads, hashing, open files) follows from its shape.
#[path = "../iofault.rs"]
mod iofault;

use merkletree::hash::Algorithm;
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree, BUILD_DATA_BLOCK_SIZE};
use merkletree::store::{DiskStore, ExternalReader, LevelCacheStore, MmapStore, ReplicaConfig, Store, StoreConfig, VecStore, BUILD_CHUNK_NODES};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::hash::Hasher;
use std::path::Path;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use typenum::{Unsigned, U0, U2, U3, U4, U64, U8};

// ---- what is measured ----

struct Heap;
static CUR: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
fn more(n: usize) {
    let c = CUR.fetch_add(n as isize, SeqCst) + n as isize;
    PEAK.fetch_max(c, SeqCst);
}
fn less(n: usize) {
    CUR.fetch_sub(n as isize, SeqCst);
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            more(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            more(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        less(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n > l.size() {
                more(n - l.size());
            } else {
                less(l.size() - n);
            }
        }
        q
    }
}
#[global_allocator]
static HEAP: Heap = Heap;

static NODES: AtomicUsize = AtomicUsize::new(0);
static LEAVES: AtomicUsize = AtomicUsize::new(0);
/// `Mix`, counting
#[derive(Clone, Debug, Default)]
struct Tally(Mix);
impl Hasher for Tally {
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn finish(&self) -> u64 {
        self.0.finish()
    }
}
impl<E: RElem> Algorithm<E> for Tally {
    fn hash(&mut self) -> E {
        Algorithm::<E>::hash(&mut self.0)
    }
    fn leaf(&mut self, e: E) -> E {
        LEAVES.fetch_add(1, SeqCst);
        self.0.leaf(e)
    }
    fn node(&mut self, l: E, r: E, h: usize) -> E {
        NODES.fetch_add(1, SeqCst);
        self.0.node(l, r, h)
    }
    fn multi_node(&mut self, n: &[E], h: usize) -> E {
        NODES.fetch_add(1, SeqCst);
        self.0.multi_node(n, h)
    }
}
impl<E: RElem> RefAlg<E> for Tally {
    const HEIGHT: bool = false;
    const NAME: &'static str = "counting";
    fn r_leaf(e: &E) -> E {
        Mix::r_leaf(e)
    }
    fn r_node(ch: &[E], h: usize) -> E {
        Mix::r_node(ch, h)
    }
    fn r_data(b: &[u8]) -> E {
        <Mix as RefAlg<E>>::r_data(b)
    }
}

#[derive(Debug)]
struct Cost {
    /// highest amount of memory taken from the heap at one time, above what was taken before
    heap: usize,
    /// bytes read from files by system calls
    read: usize,
    /// longest that a file was
    longest: usize,
    nodes: usize,
    leaves: usize,
}
fn cost<T>(f: impl FnOnce() -> T) -> Result<(T, Cost), String> {
    let base = CUR.load(SeqCst);
    PEAK.store(base, SeqCst);
    NODES.store(0, SeqCst);
    LEAVES.store(0, SeqCst);
    iofault::arm(None, 0, 0);
    let r = guard(f);
    iofault::disarm();
    let heap = (PEAK.load(SeqCst) - base).max(0) as usize;
    let c = Cost { heap, read: iofault::bytes_read(), longest: iofault::longest(), nodes: NODES.load(SeqCst), leaves: LEAVES.load(SeqCst) };
    r.map(|x| (x, c))
}
/// open files and mappings of files in a directory
fn handles(dir: &Path) -> (usize, usize) {
    let at = dir.to_string_lossy().into_owned();
    let fds = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().filter(|e| std::fs::read_link(e.path()).is_ok_and(|p| p.to_string_lossy().starts_with(&at))).count())
        .unwrap_or_else(|e| infra(format!("/proc: {}", e)));
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_else(|e| infra(format!("/proc: {}", e))).lines().filter(|l| l.contains(&at)).count();
    (fds, maps)
}

/// What an operation may cost: twice and more of what it needs, and room for the small things.
#[derive(Default)]
struct Limit {
    heap: usize,
    read: usize,
    nodes: usize,
    leaves: usize,
}
const SMALL_HEAP: usize = 64 << 10;
const SMALL_READ: usize = 16 << 10;
/// what rows may be carried in when they are moved within a file
const CARRY: usize = 2 << 20;
impl Limit {
    fn hold(&self, what: &str, c: &Cost, e: usize) -> Result<(), String> {
        let l = self;
        req!(c.heap <= l.heap + SMALL_HEAP, "{} takes {} bytes of memory ({} elements), {} are due", what, c.heap, c.heap / e, l.heap);
        req!(c.read <= l.read + SMALL_READ, "{} reads {} bytes ({} elements), {} are due", what, c.read, c.read / e, l.read);
        req!(c.nodes <= l.nodes + l.nodes / 4 + 8, "{} hashes {} nodes, {} are due", what, c.nodes, l.nodes);
        req!(c.leaves <= l.leaves + l.leaves / 4 + 8, "{} hashes {} leaves, {} are due", what, c.leaves, l.leaves);
        Ok(())
    }
}

// ---- cases ----

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Sk {
    Vec,
    Disk,
    Mmap,
    Compact,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Form {
    Disk,
    Mmap,
    V1,
    V2,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Op {
    /// store, way of feeding, leaf at which the source fails
    Build(Sk, u8, Option<u16>),
    /// opened, proofs, read, walked
    Use(Form),
    /// file of another length
    Refused(Form),
    /// format 1 or mapped
    Compact(bool, bool),
    /// sub, top
    Layers(Form, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    op: Op,
    discard: u8,
    ask: u8,
    leaves: Leaves,
    pick: u64,
    threads: u8,
}
const AR: &[usize] = &[2, 4, 8, 64];

struct P;
impl Prop for P {
    const ID: &'static str = "C22";
    const RULE: &'static str = "case = (shape, operation: build from five sources into four stores, open / prove / read / walk in four forms, compact, put together, refused opening); \
        non-trivial: the tree is so large that reading, holding or hashing all of it would exceed a limit";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let form = || prop_oneof![Just(Form::Disk), Just(Form::Mmap), Just(Form::V1), Just(Form::V2)];
        let sk = || prop_oneof![Just(Sk::Vec), Just(Sk::Disk), Just(Sk::Mmap), Just(Sk::Compact)];
        let rest = || (any::<u8>(), any::<u8>(), distinct_leaves(), any::<u64>(), 1u8..4);
        let make = |(shape, op, (discard, ask, leaves, pick, threads)): (Shape, Op, (u8, u8, Leaves, u64, u8))| Case { shape, op, discard, ask, leaves, pick, threads };
        let build = || (sk(), 0u8..6, proptest::option::weighted(0.15, any::<u16>())).prop_map(|(s, h, f)| Op::Build(s, h, f));
        let other = prop_oneof![
            8 => form().prop_map(Op::Use),
            1 => form().prop_map(Op::Refused),
            2 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Op::Compact(a, b)),
            3 => (form(), 0u8..4).prop_map(|(f, k)| Op::Layers(f, k)),
        ];
        prop_oneof![
            25 => (shape(AR, 4096, 1 << 16, 30, 1), build(), rest()).prop_map(make),
            1 => (shape(AR, 1 << 18, t.pick(1 << 20, 1 << 21), 90, 5), build(), rest()).prop_map(make),
            70 => (shape(AR, 4096, t.pick(1 << 16, 1 << 18), 70, 1), other, rest()).prop_map(make),
        ]
        .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for sk in [Sk::Vec, Sk::Disk, Sk::Mmap, Sk::Compact] {
            for how in 0..6 {
                // so many leaves that all of them are more than what may be held at one time
                let shape = if how < 4 { Shape { arity: 8, levels: 7 } } else { Shape { arity: 2, levels: 19 } };
                v.push(Case { shape, op: Op::Build(sk, how, None), discard: 1, ask: 0, leaves: Leaves { seed: 3, mode: 0 }, pick: 5, threads: 1 });
            }
        }
        for v1 in [false, true] {
            let shape = Shape { arity: 2, levels: 18 };
            v.push(Case { shape, op: Op::Compact(v1, false), discard: 0, ask: 0, leaves: Leaves { seed: 4, mode: 0 }, pick: 5, threads: 1 });
        }
        v
    }
    fn cases(t: Tier) -> u32 {
        t.pick(4000, 80_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c.shape.arity {
            2 => go::<[u8; 32], U2>(c, cx),
            4 => go::<El<48>, U4>(c, cx),
            8 => go::<El<20>, U8>(c, cx),
            _ => go::<El<8>, U64>(c, cx),
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "limits are at least twice what the documented layout and block sizes need, with room of 64 KiB of memory and 16 KiB of reads: an operation that costs a little more is not noticed".into(),
            "a build may hold six blocks of leaves (64 chunks each, five per thread for a parallel source), moving rows within a file 2 MiB".into(),
            "reads of a mapped file are not counted; stacks and mappings are not counted as memory".into(),
        ]
    }
}

type T<E, S, B> = MerkleTree<E, Tally, S, B>;
fn build<E: RElem, S: Store<E>, B: Unsigned + Send>(how: u8, items: &[E], flat: &[u8], stop: Option<usize>, cfg: StoreConfig) -> anyhow::Result<T<E, S, B>> {
    let n = items.len();
    match how {
        0 => T::try_from_iter_with_config(items.iter().enumerate().map(|(i, x)| if stop == Some(i) { Err(anyhow::anyhow!("source")) } else { Ok(*x) }), cfg),
        1 => T::from_par_iter_with_config(items.par_iter().copied(), cfg),
        2 => T::new_with_config(items.iter().copied(), cfg),
        3 => T::from_data_with_config(items.iter().map(Raw), cfg),
        4 => T::from_byte_slice_with_config(&flat[..n * E::LEN], cfg),
        _ => T::from_tree_slice_with_config(flat, n, cfg),
    }
}
struct Raw<'a, E>(&'a E);
impl<E: RElem> merkletree::hash::Hashable<Tally> for Raw<'_, E> {
    fn hash(&self, s: &mut Tally) {
        s.write(self.0.bytes())
    }
}

fn go<E: RElem, B: Unsigned + Send>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let dir = cx.dir();
    match c.op {
        Op::Build(sk, how, fail) => {
            let stop = fail.filter(|_| how == 0).map(|f| f as usize * n / 65536);
            let hashed: Vec<E> = if how == 3 {
                items.iter().map(|x| Mix::r_leaf(&<Mix as RefAlg<E>>::r_data(x.bytes()))).collect()
            } else {
                items.iter().map(Mix::r_leaf).collect()
            };
            let r = RefTree::<E>::from_hashed::<Mix>(hashed, c.shape.arity);
            cx.label(format!("build {:?} {}", sk, how));
            if c.shape.leafs() >= 1 << 11 {
                cx.nontrivial();
            }
            let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads as usize).build().unwrap_or_else(|e| infra(format!("{}", e)));
            pool.install(|| match sk {
                Sk::Vec => built::<E, VecStore<E>, B>(c, sk, how, stop, &items, &r, &dir),
                Sk::Disk => built::<E, DiskStore<E>, B>(c, sk, how, stop, &items, &r, &dir),
                Sk::Mmap => built::<E, MmapStore<E>, B>(c, sk, how, stop, &items, &r, &dir),
                Sk::Compact => built::<E, Lc<E>, B>(c, sk, how, stop, &items, &r, &dir),
            })
        }
        Op::Use(form) => {
            cx.label(format!("use {:?}", form));
            let r = RefTree::<E>::from_items::<Mix>(&items, c.shape.arity);
            let base = CUR.load(SeqCst);
            match form {
                Form::Disk => used(c, form, &r, &dir, cx, |cfg, _| T::<E, _, B>::from_data_store(DiskStore::new_from_disk(r.len(), r.arity, cfg)?, n))?,
                Form::Mmap => used(c, form, &r, &dir, cx, |cfg, _| T::<E, _, B>::from_data_store(MmapStore::new_from_disk(r.len(), r.arity, cfg)?, n))?,
                Form::V1 => used(c, form, &r, &dir, cx, |cfg, _| T::<E, _, B>::from_data_store(Lc::<E>::new_from_disk(r.len(), r.arity, cfg)?, n))?,
                Form::V2 => used(c, form, &r, &dir, cx, |cfg, rep| {
                    let s = LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, cfg, ExternalReader::new_from_path(rep)?)?;
                    T::<E, _, B>::from_data_store(s, n)
                })?,
            }
            left(base, &dir, "using a tree")
        }
        Op::Refused(form) => {
            cx.label(format!("refused {:?}", form));
            let r = RefTree::<E>::from_items::<Mix>(&items, c.shape.arity);
            if r.len() * E::LEN > 4 * SMALL_READ {
                cx.nontrivial();
            }
            let base = CUR.load(SeqCst);
            let (cfg, rep) = lay(c, form, &r, &dir, "t", discard(c));
            let f = std::fs::OpenOptions::new().write(true).open(data_file(&dir, "t")).unwrap_or_else(|e| infra(format!("{}", e)));
            let l = f.metadata().unwrap_or_else(|e| infra(format!("{}", e))).len();
            f.set_len(l - E::LEN as u64 * (1 + c.pick % (l / E::LEN as u64))).unwrap_or_else(|e| infra(format!("{}", e)));
            drop(f);
            for _ in 0..4 {
                let (e, k) = cost(|| match form {
                    Form::Disk => DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg).is_err(),
                    Form::Mmap => MmapStore::<E>::new_from_disk(r.len(), r.arity, &cfg).is_err(),
                    Form::V1 => T::<E, _, B>::from_data_store(match Lc::<E>::new_from_disk(r.len(), r.arity, &cfg) { Ok(s) => s, Err(_) => return true }, n).is_err(),
                    Form::V2 => ExternalReader::new_from_path(&rep).and_then(|x| LevelCacheStore::<E, _>::new_from_disk_with_reader(r.len(), r.arity, &cfg, x)).is_err(),
                })?;
                req!(e || form == Form::V1, "{:?}: a file of another length is accepted", form);
                Limit::default().hold("refusing a file", &k, E::LEN)?;
            }
            drop((cfg, rep));
            left(base, &dir, "refusing a file")
        }
        Op::Compact(v1, mapped) => compacted::<E, B>(c, v1, mapped, &items, &dir, cx),
        Op::Layers(form, k) => {
            let base = CUR.load(SeqCst);
            match k % 4 {
                0 => layers::<E, B, U2, U0>(c, form, &dir, cx)?,
                1 => layers::<E, B, U8, U0>(c, form, &dir, cx)?,
                2 => layers::<E, B, U2, U3>(c, form, &dir, cx)?,
                _ => layers::<E, B, U4, U2>(c, form, &dir, cx)?,
            }
            left(base, &dir, "using a tree of trees")
        }
    }
}
fn discard(c: &Case) -> usize {
    c.discard as usize % (c.shape.max_discard() + 1)
}
/// nothing remains of values that are gone
fn left(base: isize, dir: &Path, what: &str) -> Result<(), String> {
    let now = CUR.load(SeqCst) - base;
    req!(now <= SMALL_HEAP as isize, "{} bytes of memory are not given back after {}", now, what);
    let h = handles(dir);
    req!(h == (0, 0), "{} open files and {} mappings remain after {}", h.0, h.1, what);
    Ok(())
}

fn built<E: RElem, S: Store<E>, B: Unsigned + Send>(c: &Case, sk: Sk, how: u8, stop: Option<usize>, items: &[E], r: &RefTree<E>, dir: &Path) -> Result<(), String> {
    let (n, e) = (items.len(), E::LEN);
    let flat = r.flat_bytes();
    let d = if sk == Sk::Compact { discard(c) } else { 0 };
    let base = CUR.load(SeqCst);
    let what = format!("building ({:?}, source {})", sk, how);
    let threads = c.threads as usize;
    let chunk = BUILD_CHUNK_NODES.min(n) * e;
    let block = BUILD_DATA_BLOCK_SIZE * e;
    let mut heap = threads * 6 * chunk + n / 64;
    heap += match how {
        // a block as items, as hashed items and as bytes, each with room to grow
        0 | 2 | 3 => 6 * block,
        1 => 5 * block * threads.min(n / BUILD_DATA_BLOCK_SIZE + 1),
        _ => 0,
    };
    if sk == Sk::Vec {
        heap += 3 * flat.len();
    }
    if sk == Sk::Compact {
        heap += CARRY;
    }
    let lim = Limit {
        heap,
        // the leaves and all rows but the root are read once, and moved up once in a compact tree
        read: if sk == Sk::Compact { 4 } else { 2 } * flat.len(),
        nodes: if how == 5 { 0 } else { r.len() - n },
        leaves: if how < 4 { n } else { 0 },
    };
    let (t, k) = cost(|| build::<E, S, B>(how, items, &flat, stop, config(dir, "t", d)))?;
    lim.hold(&what, &k, e)?;
    if sk != Sk::Vec {
        req!(k.longest <= flat.len() + 4096, "{}: the file grows to {} bytes, the tree has {}", what, k.longest, flat.len());
    }
    match t {
        Ok(t) => {
            req!(stop.is_none(), "{}: succeeds although the source failed", what);
            req!(t.root() == r.root(), "{}: another root", what);
            let held = CUR.load(SeqCst) - base;
            let own = if sk == Sk::Vec { 2 * flat.len() } else { 0 };
            req!(held <= (own + SMALL_HEAP) as isize, "{}: the tree holds {} bytes of memory", what, held);
            let h = handles(dir);
            let files = if sk == Sk::Vec { 0 } else { 2 };
            req!(h.0 <= files && h.1 <= usize::from(sk == Sk::Mmap), "{}: the tree holds {} open files and {} mappings", what, h.0, h.1);
            if sk != Sk::Compact {
                let i = (c.pick % n as u64) as usize;
                let (p, k) = cost(|| t.gen_proof(i))?;
                same_proof(&p.map_err(|x| format!("{:?}", x))?, &r.ref_proof(i))?;
                let row = 4 * c.shape.arity * (c.shape.levels as usize + 1) * e;
                Limit { heap: row, read: row, ..Default::default() }.hold(&format!("a proof of a tree just built ({:?})", sk), &k, e)?;
            }
            drop(t);
        }
        Err(x) => {
            req!(stop.is_some(), "{}: fails: {:?}", what, x);
            drop(x);
        }
    }
    left(base, dir, &what)
}

/// the files of a tree in one form
fn lay<E: RElem>(c: &Case, form: Form, r: &RefTree<E>, dir: &Path, id: &str, d: usize) -> (StoreConfig, std::path::PathBuf) {
    let _ = c;
    let rep = dir.join(format!("replica-{}", id));
    let v = match form {
        Form::Disk | Form::Mmap => r.flat_bytes(),
        Form::V1 => [to_bytes(r.leaves()), to_bytes(&r.cached(d))].concat(),
        Form::V2 => {
            write_file(&rep, &to_bytes(r.leaves()));
            to_bytes(&r.cached(d))
        }
    };
    write_file(&data_file(dir, id), &v);
    (config(dir, id, d), rep)
}

fn used<E: RElem, S: Store<E>, B: Unsigned + Send>(
    c: &Case,
    form: Form,
    r: &RefTree<E>,
    dir: &Path,
    cx: &mut Cx,
    open: impl Fn(&StoreConfig, &Path) -> anyhow::Result<T<E, S, B>>,
) -> Result<(), String> {
    let (n, e, a) = (r.leaves().len(), E::LEN, r.arity);
    let d = discard(c);
    let (cfg, rep) = lay(c, form, r, dir, "t", d);
    if n * e > 4 * SMALL_READ {
        cx.nontrivial();
    }
    let base = CUR.load(SeqCst);
    let (t, k) = cost(|| open(&cfg, &rep))?;
    let mut t = t.map_err(|x| format!("{:?}: open: {:?}", form, x))?;
    Limit::default().hold(&format!("opening ({:?})", form), &k, e)?;
    req!(CUR.load(SeqCst) - base <= SMALL_HEAP as isize, "an opened tree ({:?}) holds {} bytes", form, CUR.load(SeqCst) - base);
    let h = handles(dir);
    req!(h.0 <= 4 && h.1 <= usize::from(form == Form::Mmap), "an opened tree ({:?}) holds {} open files and {} mappings", form, h.0, h.1);

    let row = 4 * a * (c.shape.levels as usize + 1) * e;
    for q in 0..3u64 {
        let i = (fin(c.pick ^ q) % n as u64) as usize;
        if matches!(form, Form::Disk | Form::Mmap) {
            let (p, k) = cost(|| t.gen_proof(i))?;
            let p = p.map_err(|x| format!("{:?}: proof: {:?}", form, x))?;
            Limit { heap: row, read: row, ..Default::default() }.hold(&format!("a proof ({:?})", form), &k, e)?;
            same_proof(&p, &r.ref_proof(i))?;
        }
        if form != Form::Mmap {
            let full = default_discard(a, c.shape.levels as usize);
            let (ask, seg) = match form {
                Form::Disk if c.ask % 4 == 0 => (None, full),
                Form::Disk => (Some(c.ask as usize % (full + 1)), c.ask as usize % (full + 1)),
                // more rows may be gone than the request covers
                _ => (Some(d), d.min(full)),
            };
            let seg = a.pow(seg as u32 + 1);
            let (p, k) = cost(|| t.gen_cached_proof(i, ask))?;
            match p {
                Ok(p) => {
                    same_proof(&p, &r.ref_proof(i))?;
                    // the leaves below the first row that is kept, and the tree over them
                    let lim = Limit { heap: 8 * seg * e + row, read: 2 * seg * e + row, nodes: (seg - 1) / (a - 1), leaves: 0 };
                    lim.hold(&format!("a cached proof ({:?}, rows {:?})", form, ask), &k, e)?;
                    cx.label("cached proof");
                    let (v, k) = cost(|| p.validate::<Tally>())?;
                    req!(v.map_err(|x| format!("{:?}", x))?, "a proof is not accepted");
                    let lim = Limit { heap: row, read: 0, nodes: 2 * c.shape.levels as usize, leaves: 2 };
                    lim.hold("verifying", &k, e)?;
                }
                Err(x) => req!(d > full && form != Form::Disk, "{:?}: cached proof: {:?}", form, x),
            }
        }
        let (v, k) = cost(|| t.read_at(i))?;
        req!(v.map_err(|x| format!("{:?}", x))? == r.leaves()[i], "another leaf");
        Limit { heap: 4 * e, read: 4 * e, ..Default::default() }.hold(&format!("reading one element ({:?})", form), &k, e)?;
        let w = 1 + (fin(c.pick ^ q ^ 77) % 200) as usize;
        let s = i.min(n - n.min(w));
        let z = (s + w).min(n);
        let (v, k) = cost(|| t.read_range(s, z))?;
        req!(v.map_err(|x| format!("{:?}", x))? == r.leaves()[s..z], "other leaves");
        Limit { heap: 6 * w * e, read: 2 * w * e, ..Default::default() }.hold(&format!("reading a range ({:?})", form), &k, e)?;
    }
    if form == Form::Mmap {
        // a mapping that is let go and taken up again
        t.compact(cfg.clone(), 2).map_err(|x| format!("{:?}", x))?;
        req!(handles(dir).1 == 0, "a mapping remains after it was let go");
        t.reinit().map_err(|x| format!("{:?}", x))?;
        req!(t.read_at(0).map_err(|x| format!("{:?}", x))? == r.leaves()[0], "another leaf after reinit");
        t.reinit().map_err(|x| format!("{:?}", x))?;
        req!(handles(dir).1 <= 1, "{} mappings after reinit", handles(dir).1);
    }
    drop(t);
    if form == Form::Disk && c.pick % 4 == 0 {
        let s = DiskStore::<E>::new_from_disk(r.len(), a, &cfg).map_err(|x| format!("{:?}", x))?;
        let (v, k) = cost(|| (&s).into_par_iter().map(|x| x.bytes()[0] as u64).sum::<u64>())?;
        req!(v == r.rows.iter().flatten().map(|x| x.bytes()[0] as u64).sum::<u64>(), "the elements walked differ");
        Limit { heap: CARRY / 4, read: 2 * r.len() * e, ..Default::default() }.hold("walking a store", &k, e)?;
    }
    Ok(())
}

fn compacted<E: RElem, B: Unsigned + Send>(c: &Case, v1: bool, mapped: bool, items: &[E], dir: &Path, cx: &mut Cx) -> Result<(), String> {
    let r = RefTree::<E>::from_items::<Mix>(items, c.shape.arity);
    cx.label(if mapped { "compact Mmap" } else { "compact Disk" });
    if r.len() * E::LEN > if mapped { 6 * SMALL_HEAP } else { 2 * CARRY } {
        cx.nontrivial();
    }
    let d = discard(c);
    let base = CUR.load(SeqCst);
    let (cfg, _) = lay(c, Form::Disk, &r, dir, "t", d);
    let ver = if v1 { 1 } else { 2 };
    if mapped {
        let mut s = MmapStore::<E>::new_from_disk(r.len(), r.arity, &cfg).map_err(|x| format!("{:?}", x))?;
        let (x, k) = cost(|| s.compact(r.arity, cfg.clone(), ver))?;
        x.map_err(|x| format!("{:?}", x))?;
        Limit::default().hold("compacting a mapped store", &k, E::LEN)?;
        req!(handles(dir).1 == 0, "a mapping remains after compaction");
    } else {
        let mut s = DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg).map_err(|x| format!("{:?}", x))?;
        let (x, k) = cost(|| s.compact(r.arity, cfg.clone(), ver))?;
        let kept = r.cached(d).len() * E::LEN;
        match x {
            Ok(_) => {
                Limit { heap: CARRY, read: 2 * kept, ..Default::default() }.hold("compacting a store", &k, E::LEN)?;
                req!(handles(dir).0 <= 2, "{} open files after compaction", handles(dir).0);
            }
            Err(x) => fail!("compact: {:?}", x),
        }
    }
    drop(cfg);
    left(base, dir, "compacting")
}

fn layers<E: RElem, B: Unsigned + Send, Sub: Unsigned + Send, Top: Unsigned + Send>(c: &Case, form: Form, dir: &Path, cx: &mut Cx) -> Result<(), String> {
    let (a, sub, top) = (c.shape.arity, Sub::to_usize(), Top::to_usize());
    let count = sub * top.max(1);
    // trees of a moderate size
    let mut levels = c.shape.levels;
    while a.pow(levels) > 1 << 13 {
        levels -= 1;
    }
    let n = a.pow(levels);
    let d = c.discard as usize % levels as usize;
    let bases: Vec<RefTree<E>> = (0..count).map(|b| RefTree::from_items::<Mix>(&c.leaves.offset(b as u64).items(n), a)).collect();
    let mut cfgs = vec![];
    let mut all = vec![];
    for (i, b) in bases.iter().enumerate() {
        // in format 1 the leaves may as well be read from outside
        let form = if form == Form::V1 { Form::V2 } else { form };
        cfgs.push(lay(c, form, b, dir, &format!("t{}", i), d).0);
        all.extend(to_bytes(b.leaves()));
    }
    let rep = dir.join("all");
    write_file(&rep, &all);
    let r = RefCompound::<E>::new::<Mix>(bases, sub, top);
    let e = E::LEN;
    if all.len() > 8 * SMALL_READ {
        cx.nontrivial();
    }
    drop(all);
    cx.label(format!("layers {:?} {}/{}", form, sub, top));
    let lim = Limit { heap: count * 4096, read: count * 8 * e, nodes: count / sub + 1, leaves: 0 };
    let row = 4 * e * (a * (levels as usize + 1) + sub + top);
    macro_rules! tree {
        ($open:expr) => {{
            let base = CUR.load(SeqCst);
            let (t, k) = cost(|| $open)?;
            let t = t.map_err(|x| format!("assemble: {:?}", x))?;
            lim.hold(&format!("assembling ({:?})", form), &k, e)?;
            req!(t.root() == r.root, "another root");
            let held = CUR.load(SeqCst) - base;
            req!(held <= (SMALL_HEAP + count * 4096) as isize, "a tree of {} trees holds {} bytes", count, held);
            let h = handles(dir);
            req!(h.0 <= 4 * count && h.1 <= if form == Form::Mmap { count } else { 0 }, "a tree of {} trees holds {} open files and {} mappings", count, h.0, h.1);
            for q in 0..3u64 {
                let i = (fin(c.pick ^ q) % (n * count) as u64) as usize;
                if form == Form::Disk || form == Form::Mmap {
                    let (p, k) = cost(|| t.gen_proof(i))?;
                    same_proof(&p.map_err(|x| format!("{:?}", x))?, &r.proof(i))?;
                    Limit { heap: row, read: row, ..Default::default() }.hold(&format!("a proof in layers ({:?})", form), &k, e)?;
                }
                if form != Form::Mmap {
                    let full = default_discard(a, levels as usize);
                    if d <= full {
                        let seg = a.pow(d as u32 + 1);
                        let (p, k) = cost(|| t.gen_cached_proof(i, Some(d)))?;
                        same_proof(&p.map_err(|x| format!("{:?}", x))?, &r.proof(i))?;
                        let lim = Limit { heap: 8 * seg * e + row, read: 2 * seg * e + row, nodes: (seg - 1) / (a - 1), leaves: 0 };
                        lim.hold(&format!("a cached proof in layers ({:?})", form), &k, e)?;
                    }
                }
                let (v, k) = cost(|| t.read_at(i))?;
                req!(v.map_err(|x| format!("{:?}", x))? == r.leaf(i), "another leaf");
                Limit { heap: 4 * e, read: 4 * e, ..Default::default() }.hold(&format!("reading one element in layers ({:?})", form), &k, e)?;
            }
        }};
    }
    type C<E, S, B, Sub, Top> = MerkleTree<E, Tally, S, B, Sub, Top>;
    match form {
        Form::Disk if top == 0 => tree!(C::<E, DiskStore<E>, B, Sub, Top>::from_store_configs(n, &cfgs)),
        Form::Disk => tree!(C::<E, DiskStore<E>, B, Sub, Top>::from_sub_tree_store_configs(n, &cfgs)),
        Form::Mmap => {
            let stores = || -> anyhow::Result<Vec<MmapStore<E>>> { cfgs.iter().map(|x| MmapStore::new_from_disk(r.bases[0].len(), a, x)).collect() };
            if top == 0 {
                tree!(stores().and_then(|v| C::<E, MmapStore<E>, B, Sub, Top>::from_stores(n, v)))
            } else {
                tree!(stores().and_then(|v| {
                    let v = v.into_iter().map(|s| T::<E, MmapStore<E>, B>::from_data_store(s, n)).collect::<anyhow::Result<Vec<_>>>()?;
                    C::<E, MmapStore<E>, B, Sub, Top>::from_sub_trees_as_trees(v)
                }))
            }
        }
        Form::V1 | Form::V2 => {
            let offsets: Vec<usize> = (0..count).map(|i| i * n * e).collect();
            let rc = ReplicaConfig::new(rep, offsets);
            if top == 0 {
                tree!(C::<E, Lc<E>, B, Sub, Top>::from_store_configs_and_replica(n, &cfgs, &rc))
            } else {
                tree!(C::<E, Lc<E>, B, Sub, Top>::from_sub_tree_store_configs_and_replica(n, &cfgs, &rc))
            }
        }
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
