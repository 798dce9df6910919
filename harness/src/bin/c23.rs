//! C23: a store or a reader of outside leaves that the user supplies is used as its interface
//! says, and what it reports is passed on.
use merkletree::merkle::{Element, FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{ExternalReader, LevelCacheStore, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use typenum::Unsigned;

// ---- the user's store: in memory, kept under (path, id) when it is given a config ----

#[derive(Debug, Default)]
struct Back {
    cap: usize,
    bytes: Vec<u8>,
    written: Vec<bool>,
    len: usize,
}
type Key = (PathBuf, String);
#[derive(Default)]
struct World {
    kept: HashMap<Key, Arc<Mutex<Back>>>,
    calls: usize,
    /// the call that fails (first call: 0), and whether all later ones fail
    fail: Option<(usize, bool)>,
    failed: usize,
    /// calls that the interface does not allow
    wrong: Vec<String>,
    compacted: Vec<(usize, StoreConfig, u32)>,
    reinits: usize,
    answer: bool,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
const MARK: &str = "the part that the user supplied says no";
fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    let mut w = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    f(w.get_or_insert_with(World::default))
}
fn wrong(what: String) -> anyhow::Error {
    world(|w| w.wrong.push(what.clone()));
    anyhow::anyhow!(what)
}
/// every call that can fail comes through here
fn tick() -> anyhow::Result<()> {
    world(|w| {
        let k = w.calls;
        w.calls += 1;
        match w.fail {
            Some((f, sticky)) if k == f || (sticky && k > f) => {
                w.failed += 1;
                Err(anyhow::anyhow!(MARK))
            }
            _ => Ok(()),
        }
    })
}
/// runs something with a fault planned: what it gives, number of calls, number of failures
fn with_fault<T>(fail: Option<(usize, bool)>, f: impl FnOnce() -> T) -> Result<(T, usize, usize), String> {
    world(|w| {
        w.calls = 0;
        w.failed = 0;
        w.fail = fail;
    });
    let r = guard(f);
    let (c, n) = world(|w| {
        w.fail = None;
        (w.calls, w.failed)
    });
    let r = r?;
    legal()?;
    Ok((r, c, n))
}
fn legal() -> Result<(), String> {
    world(|w| match w.wrong.first() {
        Some(x) => Err(format!("the store is misused: {}", x)),
        None => Ok(()),
    })
}

#[derive(Debug)]
struct Probe<E> {
    back: Arc<Mutex<Back>>,
    loaded: bool,
    _e: std::marker::PhantomData<E>,
}
impl<E: RElem> Probe<E> {
    fn fresh(cap: usize) -> Self {
        let back = Back { cap, bytes: vec![0; cap * E::LEN], written: vec![false; cap], len: 0 };
        Probe { back: Arc::new(Mutex::new(back)), loaded: false, _e: Default::default() }
    }
    fn with<T>(&self, f: impl FnOnce(&mut Back) -> T) -> T {
        f(&mut self.back.lock().unwrap_or_else(|e| e.into_inner()))
    }
    fn put(&self, at: usize, b: &[u8]) -> anyhow::Result<()> {
        let n = b.len() / E::LEN;
        self.with(|k| {
            if b.len() % E::LEN != 0 || at + n > k.cap {
                return Err(wrong(format!("write of {} bytes at element {} of {}", b.len(), at, k.cap)));
            }
            k.bytes[at * E::LEN..at * E::LEN + b.len()].copy_from_slice(b);
            k.written[at..at + n].iter_mut().for_each(|x| *x = true);
            k.len = k.len.max(at + n);
            Ok(())
        })
    }
    fn get(&self, r: Range<usize>) -> anyhow::Result<Vec<u8>> {
        self.with(|k| {
            if r.start > r.end || r.end > k.cap {
                return Err(wrong(format!("read of {:?} of {}", r, k.cap)));
            }
            if let Some(i) = r.clone().find(|i| !k.written[*i]) {
                return Err(wrong(format!("read of element {} that was never written, of {:?}", i, r)));
            }
            Ok(k.bytes[r.start * E::LEN..r.end * E::LEN].to_vec())
        })
    }
    fn into(&self, r: Range<usize>, buf: &mut [u8]) -> anyhow::Result<()> {
        let v = self.get(r)?;
        if buf.len() != v.len() {
            return Err(wrong(format!("read of {} bytes into a buffer of {}", v.len(), buf.len())));
        }
        buf.copy_from_slice(&v);
        Ok(())
    }
}
fn key(c: &StoreConfig) -> Key {
    (c.path.clone(), c.id.clone())
}
impl<E: RElem> Store<E> for Probe<E> {
    fn new_with_config(size: usize, _branches: usize, config: StoreConfig) -> anyhow::Result<Self> {
        tick()?;
        if let Some(back) = world(|w| w.kept.get(&key(&config)).cloned()) {
            let p = Probe { back, loaded: true, _e: Default::default() };
            let (cap, len) = p.with(|k| (k.cap, k.len));
            anyhow::ensure!(cap == size && len == size, "{} of {} elements kept, {} asked for", len, cap, size);
            return Ok(p);
        }
        let p = Probe::fresh(size);
        world(|w| w.kept.insert(key(&config), p.back.clone()));
        Ok(p)
    }
    fn new(size: usize) -> anyhow::Result<Self> {
        tick()?;
        Ok(Probe::fresh(size))
    }
    fn new_from_slice_with_config(size: usize, branches: usize, data: &[u8], config: StoreConfig) -> anyhow::Result<Self> {
        let p = Self::new_with_config(size, branches, config)?;
        if !p.loaded {
            p.put(0, data)?;
        }
        Ok(p)
    }
    fn new_from_slice(size: usize, data: &[u8]) -> anyhow::Result<Self> {
        let p = Self::new(size)?;
        p.put(0, data)?;
        Ok(p)
    }
    fn new_from_disk(size: usize, branches: usize, config: &StoreConfig) -> anyhow::Result<Self> {
        anyhow::ensure!(world(|w| w.kept.contains_key(&key(config))), "nothing is kept");
        Self::new_with_config(size, branches, config.clone())
    }
    fn write_at(&mut self, el: E, index: usize) -> anyhow::Result<()> {
        tick()?;
        self.put(index, el.bytes())
    }
    fn copy_from_slice(&mut self, buf: &[u8], start: usize) -> anyhow::Result<()> {
        tick()?;
        self.put(start, buf)
    }
    fn compact(&mut self, branches: usize, config: StoreConfig, version: u32) -> anyhow::Result<bool> {
        tick()?;
        Ok(world(|w| {
            w.compacted.push((branches, config, version));
            w.answer
        }))
    }
    fn reinit(&mut self) -> anyhow::Result<()> {
        tick()?;
        world(|w| w.reinits += 1);
        Ok(())
    }
    fn delete(config: StoreConfig) -> anyhow::Result<()> {
        tick()?;
        world(|w| w.kept.remove(&key(&config)));
        Ok(())
    }
    fn read_at(&self, index: usize) -> anyhow::Result<E> {
        tick()?;
        Ok(E::from_slice(&self.get(index..index + 1)?))
    }
    fn read_range(&self, r: Range<usize>) -> anyhow::Result<Vec<E>> {
        tick()?;
        Ok(self.get(r)?.chunks(E::LEN).map(E::from_slice).collect())
    }
    fn read_into(&self, pos: usize, buf: &mut [u8]) -> anyhow::Result<()> {
        tick()?;
        self.into(pos..pos + 1, buf)
    }
    fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> anyhow::Result<()> {
        tick()?;
        self.into(start..end, buf)
    }
    fn len(&self) -> usize {
        self.with(|k| k.len)
    }
    fn loaded_from_disk(&self) -> bool {
        self.loaded
    }
    fn is_empty(&self) -> bool {
        self.with(|k| k.len == 0)
    }
    fn push(&mut self, el: E) -> anyhow::Result<()> {
        tick()?;
        let at = Store::len(self);
        self.put(at, el.bytes())
    }
    fn sync(&self) -> anyhow::Result<()> {
        tick()
    }
}

// ---- the user's reader of outside leaves ----

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Bad {
    Fails,
    /// reads less than it was asked for, and says so
    Short(u8),
    Nothing,
}
struct Outside {
    data: Vec<u8>,
    /// where the leaves lie
    lo: usize,
    hi: usize,
    plan: Mutex<Plan>,
}
#[derive(Default)]
struct Plan {
    calls: usize,
    bad: Option<(usize, Bad)>,
    hit: usize,
    wrong: Option<String>,
}
/// what makes it a source; nobody is to read it but through the function
#[derive(Clone)]
struct Source(Arc<Outside>);
impl std::io::Read for Source {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        self.0.plan.lock().unwrap_or_else(|e| e.into_inner()).wrong = Some("the source is read from without its function".into());
        Ok(0)
    }
}
fn fetch(start: usize, end: usize, buf: &mut [u8], s: &Source) -> anyhow::Result<usize> {
    let o = &s.0;
    let mut p = o.plan.lock().unwrap_or_else(|e| e.into_inner());
    if start >= end || start < o.lo || end > o.hi || buf.len() < end - start {
        p.wrong = Some(format!("bytes {}..{} asked for into a buffer of {}, the leaves lie in {}..{}", start, end, buf.len(), o.lo, o.hi));
        anyhow::bail!("out of range");
    }
    let k = p.calls;
    p.calls += 1;
    let n = end - start;
    let m = match p.bad {
        Some((f, b)) if f == k => {
            p.hit += 1;
            match b {
                Bad::Fails => anyhow::bail!(MARK),
                Bad::Short(x) => x as usize * n / 256,
                Bad::Nothing => 0,
            }
        }
        _ => n,
    };
    buf[..m].copy_from_slice(&o.data[start..start + m]);
    Ok(m)
}

// ---- cases ----

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    /// way of feeding
    Build(u8),
    /// a tree of trees: kind, way of putting together
    Layers(u8, u8),
    /// kind of tree of trees, if one
    Reader(Option<u8>, Bad),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    what: What,
    leaves: Leaves,
    discard: u8,
    fault: Option<(u16, bool)>,
    pick: u64,
    threads: u8,
}
const AR: &[usize] = &[2, 4, 8, 16, 64];

struct P;
impl Prop for P {
    const ID: &'static str = "C23";
    const RULE: &'static str = "case = (shape, types; one of: a store of the user's fed in eight ways, trees of trees over such stores, a reader of outside leaves of the user's; call that fails); \
        non-trivial: a call that the user's part was asked for failed, or the tree has three rows or more";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let bad = || prop_oneof![Just(Bad::Fails), any::<u8>().prop_map(Bad::Short), Just(Bad::Nothing)];
        let nc = COMPOUNDS.len() as u8;
        let what = prop_oneof![
            5 => (0u8..9).prop_map(What::Build),
            3 => (0..nc, 0u8..5).prop_map(|(k, h)| What::Layers(k, h)),
            3 => (proptest::option::weighted(0.4, 0..nc), bad()).prop_map(|(k, b)| What::Reader(k, b)),
        ];
        (
            shape(AR, 512, t.pick(1 << 14, 1 << 16), 12, 1),
            0u8..2,
            what,
            leaves(),
            any::<u8>(),
            proptest::option::weighted(0.7, (any::<u16>(), proptest::bool::weighted(0.3))),
            any::<u64>(),
            1u8..4,
        )
            .prop_map(|(shape, ea, what, leaves, discard, fault, pick, threads)| Case { shape, ea, what, leaves, discard, fault, pick, threads })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(60_000, 1_500_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        world(|w| *w = World { answer: c.pick & 1 == 0, ..Default::default() });
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads as usize).build().unwrap_or_else(|e| infra(format!("{}", e)));
        pool.install(|| match c.what {
            What::Build(how) => with_eab!(c.shape.arity, c.ea, E, A, B, build::<E, A, B>(c, how, cx)),
            What::Layers(k, how) => with_compound!(k as usize, E, A, B, Sub, Top, layers::<E, A, B, Sub, Top>(c, k as usize, how, cx)),
            What::Reader(None, bad) => with_eab!(c.shape.arity, c.ea, E, A, B, reader::<E, A, B>(c, bad, cx)),
            What::Reader(Some(k), bad) => with_compound!(k as usize, E, A, B, Sub, Top, readers::<E, A, B, Sub, Top>(c, k as usize, bad, cx)),
        })
    }
    fn assumptions() -> Vec<String> {
        vec![
            "the user's store keeps elements in memory, and every call on it that returns a Result can fail; len, is_empty and loaded_from_disk cannot".into(),
            "calls that the interface does not allow are reads of elements that were never written or lie outside, buffers of another length, writes past the size asked for".into(),
        ]
    }
}

type T<E, A, B> = MerkleTree<E, A, Probe<E>, B>;
struct Raw<E>(E);
impl<E: RElem, A: RefAlg<E>> merkletree::hash::Hashable<A> for Raw<E> {
    fn hash(&self, s: &mut A) {
        s.write(self.0.bytes())
    }
}
fn feed<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(how: u8, items: &[E], flat: &[u8], cfg: StoreConfig) -> anyhow::Result<T<E, A, B>> {
    let n = items.len();
    let it = || items.iter().copied();
    match how {
        0 => T::try_from_iter_with_config(it().map(Ok), cfg),
        1 => T::from_par_iter_with_config(items.par_iter().copied(), cfg),
        2 => T::from_byte_slice_with_config(&flat[..n * E::LEN], cfg),
        3 => T::from_tree_slice_with_config(flat, n, cfg),
        4 => T::new(it()),
        5 => T::from_par_iter(items.par_iter().copied()),
        6 => T::from_byte_slice(&flat[..n * E::LEN]),
        7 => T::from_tree_slice(flat, n),
        _ => T::from_data_with_config(it().map(Raw), cfg),
    }
}
fn fault(c: &Case, calls: usize) -> Option<(usize, bool)> {
    // near the end, the beginning, and anywhere
    c.fault.map(|(f, s)| {
        let f = f as usize;
        let k = match f % 4 {
            0 => calls.saturating_sub(1 + f / 4 % 5),
            1 => (f / 4 % 5).min(calls - 1),
            _ => f * calls / 65536,
        };
        (k, s)
    })
}
/// the error of a part is the error of the whole
fn passed_on<T>(what: &str, r: anyhow::Result<T>, failed: usize) -> Result<Option<T>, String> {
    match r {
        Ok(_) if failed > 0 => Err(format!("{}: succeeds although a call on the user's part failed", what)),
        Ok(t) => Ok(Some(t)),
        Err(e) => {
            req!(failed > 0, "{}: {:?}", what, e);
            req!(format!("{:?}", e).contains(MARK), "{}: fails with another error: {:?}", what, e);
            Ok(None)
        }
    }
}

fn build<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, how: u8, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = if how == 8 {
        RefTree::<E>::from_hashed::<A>(items.iter().map(|x| A::r_leaf(&A::r_data(x.bytes()))).collect(), c.shape.arity)
    } else {
        RefTree::<E>::from_items::<A>(&items, c.shape.arity)
    };
    let flat = r.flat_bytes();
    let dir = Path::new("/nowhere");
    cx.label(format!("build {}", how));
    if c.shape.levels >= 2 {
        cx.nontrivial();
    }
    let cfg = config(dir, "t", 0);
    let keeps = !(4..8).contains(&how);
    // once without a fault
    let (t, calls, _) = with_fault(None, || feed::<E, A, B>(how, &items, &flat, cfg.clone()))?;
    let mut t = t.map_err(|e| format!("build ({}): {:?}", how, e))?;
    let whole = |t: &T<E, A, B>| -> Result<(), String> {
        guard(|| same_tree(t, &r, c.pick, 4)).and_then(|x| x)?;
        legal()
    };
    whole(&t)?;
    req!(world(|w| w.kept.contains_key(&key(&cfg))) == keeps, "build ({}): kept or not", how);
    // used with a fault
    use_it(c, &t, &r, cx)?;
    // handed through
    let other = config(Path::new("/else"), "other", c.discard as usize);
    let v = c.pick as u32 >> 1;
    let (x, ..) = with_fault(None, || t.compact(other.clone(), v))?;
    req!(x.map_err(|e| format!("{:?}", e))? == world(|w| w.answer), "another answer of compact");
    let asked = world(|w| w.compacted.pop());
    req!(
        asked.as_ref().is_some_and(|(b, g, u)| *b == c.shape.arity && key(g) == key(&other) && g.rows_to_discard == other.rows_to_discard && *u == v),
        "the store is asked to compact {:?}",
        asked
    );
    req!(t.reinit().is_ok() && world(|w| w.reinits) > 0, "the store is not asked to start again");
    let (x, ..) = with_fault(Some((0, true)), || (t.compact(other.clone(), v).err(), t.reinit().err(), t.delete(cfg.clone()).err()))?;
    for e in [x.0, x.1, x.2] {
        req!(e.is_some_and(|e| format!("{:?}", e).contains(MARK)), "a failure of compact, reinit or delete is not passed on");
    }
    whole(&t)?;
    // opened again, with and without a fault
    if keeps && how != 2 && how != 3 {
        let (t2, calls, _) = with_fault(None, || feed::<E, A, B>(how, &items, &flat, cfg.clone()))?;
        whole(&t2.map_err(|e| format!("open: {:?}", e))?)?;
        if let Some(f) = fault(c, calls) {
            let (t2, _, k) = with_fault(Some(f), || feed::<E, A, B>(how, &items, &flat, cfg.clone()))?;
            passed_on("open", t2, k)?;
            req!(world(|w| w.kept.contains_key(&key(&cfg))), "a store is removed since it could not be opened");
            whole(&t)?;
        }
    }
    if keeps {
        let (s, ..) = with_fault(None, || Probe::<E>::new_from_disk(r.len(), c.shape.arity, &cfg).and_then(|s| T::<E, A, B>::from_data_store(s, n)))?;
        whole(&s.map_err(|e| format!("from a store: {:?}", e))?)?;
        let (x, ..) = with_fault(None, || t.delete(cfg.clone()))?;
        req!(x.is_ok() && !world(|w| w.kept.contains_key(&key(&cfg))), "the store is not deleted");
    }
    drop(t);
    // built with a fault
    if let Some(f) = fault(c, calls) {
        let (t, _, k) = with_fault(Some(f), || feed::<E, A, B>(how, &items, &flat, cfg.clone()))?;
        if k > 0 {
            cx.label("build failed");
            cx.nontrivial();
        }
        if passed_on(&format!("build ({})", how), t, k)?.is_none() && keeps && (!f.1 || f.0 == 0) {
            req!(!world(|w| w.kept.contains_key(&key(&cfg))) || how == 3, "a store remains of a build that failed");
            if how != 3 {
                let (t, ..) = with_fault(None, || feed::<E, A, B>(how, &items, &flat, cfg.clone()))?;
                whole(&t.map_err(|e| format!("build again: {:?}", e))?)?;
            }
        }
    }
    Ok(())
}
/// reads and proofs, each with a call that fails
fn use_it<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, t: &T<E, A, B>, r: &RefTree<E>, cx: &mut Cx) -> Result<(), String> {
    let n = r.leaves().len();
    let full = default_discard(r.arity, c.shape.levels as usize);
    for q in 0..4u64 {
        let z = fin(c.pick ^ q);
        let i = (z % n as u64) as usize;
        let ask = if q == 0 { None } else { Some((z >> 32) as usize % (full + 2)) };
        let w = 1 + (z >> 40) as usize % 30;
        let j = (i + w).min(r.len());
        let i0 = i;
        let what = z >> 20 & 3;
        let mut calls = 0;
        for fail in [None, Some(())] {
            let f = match fail {
                None => None,
                Some(()) => match fault(c, calls) {
                    None => continue,
                    f => f,
                },
            };
            macro_rules! run {
                ($name:expr, $go:expr, $same:expr) => {{
                    let (x, k, failed) = with_fault(f, || $go)?;
                    if failed > 0 {
                        cx.label("call failed");
                    }
                    if let Some(x) = passed_on($name, x, failed)? {
                        $same(x)?;
                    }
                    if f.is_none() {
                        calls = k;
                        req!(k > 0, "{}: without the store", $name);
                    }
                }};
            }
            match what {
                0 => run!("proof", t.gen_proof(i), |p| same_proof(&p, &r.ref_proof(i))),
                1 => run!("cached proof", t.gen_cached_proof(i, ask), |p| same_proof(&p, &r.ref_proof(i))),
                2 => {
                    let mut b = vec![0; (j - i0) * E::LEN];
                    run!("read_range_into", t.read_range_into(i0, j, &mut b), |_| Ok::<_, String>(()));
                    if f.is_none() {
                        req!(b == to_bytes(&r.flat()[i0..j]), "read_range_into: other elements");
                    }
                    let mut b = vec![0; E::LEN];
                    run!("read_into", t.read_into(i, &mut b), |_| Ok::<_, String>(()));
                    req!(f.is_some() || b == r.leaves()[i].bytes(), "read_into: another element");
                }
                _ => {
                    run!("read_range", t.read_range(i0, j), |v: Vec<E>| if v == r.flat()[i0..j] { Ok(()) } else { Err("read_range: other elements".to_string()) });
                    run!("read_at", t.read_at(i), |v: E| if v == r.leaves()[i] { Ok(()) } else { Err("read_at: another element".to_string()) });
                }
            }
        }
    }
    Ok(())
}

type C<E, A, B, Sub, Top> = MerkleTree<E, A, Probe<E>, B, Sub, Top>;
fn levels(c: &Case, k: usize) -> u32 {
    let all = compound_levels(k, 256);
    all[c.pick as usize % all.len()]
}
fn layers<E: RElem, A: RefAlg<E>, B: Unsigned + Send, Sub: Unsigned + Send, Top: Unsigned + Send>(c: &Case, k: usize, how: u8, cx: &mut Cx) -> Result<(), String> {
    let l = levels(c, k);
    let (r, items) = ref_compound::<E, A>(k, l, c.leaves);
    let n = items[0].len();
    let top = Top::to_usize();
    let dir = Path::new("/nowhere");
    let cfgs: Vec<StoreConfig> = (0..items.len()).map(|i| config(dir, &format!("t{}", i), 0)).collect();
    cx.label(format!("layers {}", how));
    for (b, g) in r.bases.iter().zip(&cfgs) {
        T::<E, A, B>::from_tree_slice_with_config(&b.flat_bytes(), n, g.clone()).map_err(|e| format!("{:?}", e))?;
    }
    let len = r.bases[0].len();
    let open = |i: usize| Probe::<E>::new_from_disk(len, r.bases[0].arity, &cfgs[i]);
    let base = |i: usize| T::<E, A, B>::from_data_store(open(i)?, n);
    let m = items.len();
    let put = || -> anyhow::Result<C<E, A, B, Sub, Top>> {
        if top == 0 {
            match how % 4 {
                0 => C::from_trees((0..m).map(base).collect::<anyhow::Result<_>>()?),
                1 => C::from_stores(n, (0..m).map(open).collect::<anyhow::Result<_>>()?),
                2 => C::from_store_configs(n, &cfgs),
                _ => {
                    let v: Vec<Vec<u8>> = r.bases.iter().map(|b| b.flat_bytes()).collect();
                    let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
                    let g: Vec<StoreConfig> = (0..m).map(|i| config(Path::new("/new"), &format!("t{}", i), 0)).collect();
                    C::from_slices_with_configs(&v, n, &g)
                }
            }
        } else {
            match how % 3 {
                0 => {
                    let s = Sub::to_usize();
                    C::from_sub_trees(
                        (0..top)
                            .map(|g| MerkleTree::<E, A, Probe<E>, B, Sub>::from_trees((g * s..g * s + s).map(base).collect::<anyhow::Result<_>>()?))
                            .collect::<anyhow::Result<_>>()?,
                    )
                }
                1 => C::from_sub_trees_as_trees((0..m).map(base).collect::<anyhow::Result<_>>()?),
                _ => C::from_sub_tree_store_configs(n, &cfgs),
            }
        }
    };
    let (t, calls, _) = with_fault(None, put)?;
    let t = t.map_err(|e| format!("layers ({}): {:?}", how, e))?;
    req!(t.root() == r.root && t.leafs() == r.leafs() && t.len() == r.len() && t.row_count() == r.row_count(), "layers ({}): another header", how);
    for q in 0..3u64 {
        let z = fin(c.pick ^ q ^ 40);
        let i = (z % r.leafs() as u64) as usize;
        let (p, calls, _) = with_fault(None, || t.gen_proof(i))?;
        same_proof(&p.map_err(|e| format!("{:?}", e))?, &r.proof(i))?;
        let (v, ..) = with_fault(None, || t.read_at(i))?;
        req!(v.map_err(|e| format!("{:?}", e))? == r.leaf(i), "another leaf");
        let (p, cached, _) = with_fault(None, || t.gen_cached_proof(i, None))?;
        same_proof(&p.map_err(|e| format!("{:?}", e))?, &r.proof(i))?;
        if let Some(f) = fault(c, calls) {
            let (p, _, k) = with_fault(Some(f), || t.gen_proof(i))?;
            if let Some(p) = passed_on("proof in layers", p, k)? {
                same_proof(&p, &r.proof(i))?;
            }
            let (v, _, k) = with_fault(Some((0, true)), || t.read_at(i))?;
            req!(k > 0, "a leaf without the store");
            passed_on("read in layers", v, k)?;
        }
        if let Some(f) = fault(c, cached) {
            let (p, _, k) = with_fault(Some(f), || t.gen_cached_proof(i, None))?;
            if let Some(p) = passed_on("cached proof in layers", p, k)? {
                same_proof(&p, &r.proof(i))?;
            }
        }
    }
    drop(t);
    if how == 2 {
        // one that is not there is neither made up nor left behind
        let gone = key(&cfgs[c.discard as usize % m]);
        let back = world(|w| w.kept.remove(&gone));
        let (t, ..) = with_fault(None, put)?;
        req!(t.is_err(), "a tree of trees is put together although a store is missing");
        req!(world(|w| w.kept.len()) == m - 1, "{} stores are there of {}, one of them missing before", world(|w| w.kept.len()), m);
        world(|w| back.map(|b| w.kept.insert(gone, b)));
    }
    if how == 4 && top == 0 {
        let v: Vec<Vec<u8>> = r.bases.iter().map(|b| b.flat_bytes()).collect();
        let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
        let put = || C::<E, A, B, Sub, typenum::U0>::from_slices(&v, n);
        let (t, calls, _) = with_fault(None, put)?;
        let t = t.map_err(|e| format!("layers from slices: {:?}", e))?;
        req!(t.root() == r.root && t.len() == r.len(), "layers from slices: another header");
        if let Some(f) = fault(c, calls) {
            let (t, _, k) = with_fault(Some(f), put)?;
            passed_on("layers from slices", t, k)?;
        }
    }
    if let Some(f) = fault(c, calls) {
        world(|w| w.kept.retain(|k, _| k.0 == dir));
        let kept = world(|w| w.kept.len());
        let (t, _, k) = with_fault(Some(f), put)?;
        if k > 0 {
            cx.nontrivial();
            cx.label("assembly failed");
        }
        passed_on(&format!("layers ({})", how), t, k)?;
        req!(world(|w| w.kept.keys().filter(|k| k.0 == dir).count()) == kept, "a store is removed since a tree of trees could not be put together");
    }
    Ok(())
}

type Lc<E> = LevelCacheStore<E, Source>;
fn outside<E: RElem>(leaves: &[E], before: usize, after: usize) -> (Arc<Outside>, ExternalReader<Source>) {
    let mut data = vec![0xA5; before];
    data.extend(to_bytes(leaves));
    let hi = data.len();
    data.extend(vec![0x5A; after]);
    let o = Arc::new(Outside { data, lo: before, hi, plan: Default::default() });
    (o.clone(), ExternalReader { offset: before, source: Source(o), read_fn: fetch })
}
fn plan(o: &Outside, bad: Option<(usize, Bad)>) {
    *o.plan.lock().unwrap_or_else(|e| e.into_inner()) = Plan { bad, ..Default::default() };
}
/// runs something; the calls of the reader and how many of them were bad
fn asked<T>(o: &[Arc<Outside>], f: impl FnOnce() -> T) -> Result<(T, usize, usize), String> {
    let x = guard(f)?;
    let (mut calls, mut hit) = (0, 0);
    for o in o {
        let p = o.plan.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(w) = &p.wrong {
            fail!("the reader is misused: {}", w);
        }
        calls += p.calls;
        hit += p.hit;
    }
    Ok((x, calls, hit))
}
fn bad_reads<E: RElem, T: PartialEq>(
    c: &Case,
    what: &str,
    bad: Bad,
    o: &[Arc<Outside>],
    cx: &mut Cx,
    go: impl Fn() -> anyhow::Result<T>,
    same: impl Fn(&T) -> Result<(), String>,
    may_fail: bool,
) -> Result<(), String> {
    for o in o {
        plan(o, None);
    }
    let (x, calls, _) = asked(o, &go)?;
    match x {
        Ok(x) => same(&x)?,
        Err(_) if may_fail => return Ok(()),
        Err(e) => fail!("{}: {:?}", what, e),
    }
    if calls == 0 {
        return Ok(());
    }
    for o in o {
        plan(o, Some((c.pick as usize % calls, bad)));
    }
    let (x, _, hit) = asked(o, &go)?;
    if hit > 0 {
        cx.nontrivial();
        cx.label(match bad {
            Bad::Fails => "read failed",
            _ => "short read",
        });
    }
    match x {
        Ok(x) if hit == 0 => same(&x)?,
        Ok(_) => fail!("{}: succeeds although the reader of outside leaves {}", what, if bad == Bad::Fails { "failed" } else { "had less than was asked for" }),
        Err(e) => {
            req!(hit > 0, "{}: {:?}", what, e);
            req!(bad != Bad::Fails || format!("{:?}", e).contains(MARK), "{}: fails with another error: {:?}", what, e);
        }
    }
    // and as before
    for o in o {
        plan(o, None);
    }
    let (x, ..) = asked(o, &go)?;
    same(&x.map_err(|e| format!("{} afterwards: {:?}", what, e))?)
}
fn reader<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, bad: Bad, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let dir = cx.dir();
    let d = c.discard as usize % (c.shape.max_discard() + 1);
    let full = default_discard(r.arity, c.shape.levels as usize);
    cx.label("reader");
    let before = (c.pick >> 16) as usize % 3 * ((c.pick >> 24) as usize % 500);
    let (o, x) = outside(r.leaves(), before, (c.pick >> 40) as usize % 100);
    let os = [o];
    let whole = (c.pick >> 50) % 4 == 0;
    let t = if whole {
        // given to a store that had its leaves
        write_file(&data_file(&dir, "t"), &[to_bytes(r.leaves()), to_bytes(&r.cached(d))].concat());
        let mut s = Lc::<E>::new_from_disk(r.len(), r.arity, &config(&dir, "t", d)).map_err(|e| format!("{:?}", e))?;
        // the file is then taken to hold the kept rows only
        write_file(&data_file(&dir, "t"), &to_bytes(&r.cached(d)));
        s.set_external_reader(x).map_err(|e| format!("{:?}", e))?;
        MerkleTree::<E, A, Lc<E>, B>::from_data_store(s, n)
    } else {
        write_file(&data_file(&dir, "t"), &to_bytes(&r.cached(d)));
        Lc::<E>::new_from_disk_with_reader(r.len(), r.arity, &config(&dir, "t", d), x).and_then(|s| MerkleTree::<E, A, Lc<E>, B>::from_data_store(s, n))
    };
    let t = t.map_err(|e| format!("open: {:?}", e))?;
    same_header(&t, &r)?;
    for q in 0..3u64 {
        let z = fin(c.pick ^ q);
        let i = (z % n as u64) as usize;
        let j = (i + 1 + (z >> 40) as usize % 40).min(n);
        let leaves = &r.leaves()[i..j];
        match (z >> 32) % 5 {
            0 => bad_reads::<E, _>(c, "read_at", bad, &os, cx, || t.read_at(i), |v| if *v == leaves[0] { Ok(()) } else { Err("another leaf".into()) }, false)?,
            1 => bad_reads::<E, _>(c, "read_range", bad, &os, cx, || t.read_range(i, j), |v| if v == leaves { Ok(()) } else { Err("other leaves".into()) }, false)?,
            2 => bad_reads::<E, _>(
                c,
                "read_range_into",
                bad,
                &os,
                cx,
                || {
                    let mut b = vec![0; (j - i) * E::LEN];
                    t.read_range_into(i, j, &mut b).map(|_| b)
                },
                |v| if *v == to_bytes(leaves) { Ok(()) } else { Err("other leaves".into()) },
                false,
            )?,
            3 => bad_reads::<E, _>(
                c,
                "read_into",
                bad,
                &os,
                cx,
                || {
                    let mut b = vec![0; E::LEN];
                    t.read_into(i, &mut b).map(|_| b)
                },
                |v| if *v == leaves[0].bytes() { Ok(()) } else { Err("another leaf".into()) },
                false,
            )?,
            _ => bad_reads::<E, _>(c, "cached proof", bad, &os, cx, || t.gen_cached_proof(i, Some(d)).map(Same), |p| same_proof(&p.0, &r.ref_proof(i)), d > full)?,
        }
    }
    Ok(())
}
struct Same<T>(T);
impl<T> PartialEq for Same<T> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
fn readers<E: RElem, A: RefAlg<E>, B: Unsigned + Send, Sub: Unsigned + Send, Top: Unsigned + Send>(c: &Case, k: usize, bad: Bad, cx: &mut Cx) -> Result<(), String> {
    let l = levels(c, k);
    let (r, items) = ref_compound::<E, A>(k, l, c.leaves);
    let n = items[0].len();
    let top = Top::to_usize();
    let dir = cx.dir();
    let a = r.bases[0].arity;
    let full = default_discard(a, l as usize);
    let d = c.discard as usize % (full + 1);
    cx.label("readers");
    let mut os = vec![];
    let mut trees = vec![];
    for (i, b) in r.bases.iter().enumerate() {
        let id = format!("t{}", i);
        write_file(&data_file(&dir, &id), &to_bytes(&b.cached(d)));
        let (o, x) = outside(b.leaves(), (c.pick >> 16) as usize % 3 * i * 7, i % 3);
        os.push(o);
        let t = Lc::<E>::new_from_disk_with_reader(b.len(), a, &config(&dir, &id, d), x).and_then(|s| MerkleTree::<E, A, Lc<E>, B>::from_data_store(s, n));
        trees.push(t.map_err(|e| format!("open: {:?}", e))?);
    }
    let t = if top == 0 {
        MerkleTree::<E, A, Lc<E>, B, Sub, Top>::from_trees(trees)
    } else {
        MerkleTree::<E, A, Lc<E>, B, Sub, Top>::from_sub_trees_as_trees(trees)
    };
    let t = t.map_err(|e| format!("put together: {:?}", e))?;
    req!(t.root() == r.root, "another root");
    for q in 0..4u64 {
        let z = fin(c.pick ^ q);
        let i = (z % r.leafs() as u64) as usize;
        if z >> 40 & 1 == 0 {
            bad_reads::<E, _>(c, "read_at in layers", bad, &os, cx, || t.read_at(i), |v| if *v == r.leaf(i) { Ok(()) } else { Err("another leaf".into()) }, false)?;
        } else {
            bad_reads::<E, _>(c, "cached proof in layers", bad, &os, cx, || t.gen_cached_proof(i, Some(d)).map(Same), |p| same_proof(&p.0, &r.proof(i)), false)?;
        }
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
