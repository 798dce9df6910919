//! C16: what is built and read does not depend on threads, timing or neighbours.
use merkletree::hash::Algorithm;
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, LevelCacheStore, MmapStore, Store, VecStore};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::Hasher;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use typenum::{Unsigned, U2, U4, U8};

static SEED: AtomicU64 = AtomicU64::new(0);
static RATE: AtomicU64 = AtomicU64::new(0);
/// Perturbs the schedule: one call in `RATE` yields, spins or sleeps.
fn jitter(x: u64) {
    let rate = RATE.load(Relaxed);
    if rate == 0 {
        return;
    }
    let h = fin(x ^ SEED.load(Relaxed));
    if h % rate == 0 {
        match (h >> 32) % 4 {
            0 => std::thread::yield_now(),
            1 => (0..(h >> 40) % 4000).for_each(|_| std::hint::spin_loop()),
            _ => std::thread::sleep(std::time::Duration::from_micros((h >> 40) % 400)),
        }
    }
}

/// The row-bound algorithm, with jitter.
#[derive(Default)]
struct Jit(MixH);
impl Hasher for Jit {
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn finish(&self) -> u64 {
        self.0.finish()
    }
}
impl<E: RElem> Algorithm<E> for Jit {
    fn hash(&mut self) -> E {
        self.0.hash()
    }
    fn leaf(&mut self, e: E) -> E {
        jitter(u64::from_le_bytes(e.bytes()[..8].try_into().unwrap()));
        self.0.leaf(e)
    }
    fn multi_node(&mut self, n: &[E], h: usize) -> E {
        jitter(u64::from_le_bytes(n[0].bytes()[..8].try_into().unwrap()) ^ h as u64);
        self.0.multi_node(n, h)
    }
}
impl<E: RElem> RefAlg<E> for Jit {
    const HEIGHT: bool = true;
    const NAME: &'static str = "jitter";
    fn r_leaf(e: &E) -> E {
        <MixH as RefAlg<E>>::r_leaf(e)
    }
    fn r_node(ch: &[E], h: usize) -> E {
        <MixH as RefAlg<E>>::r_node(ch, h)
    }
    fn r_data(b: &[u8]) -> E {
        <MixH as RefAlg<E>>::r_data(b)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Sk {
    Vec,
    Disk,
    Mmap,
    Compact,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Feed {
    Iter,
    Par,
    Slice,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Part {
    shape: Shape,
    store: Sk,
    feed: Feed,
    leaves: Leaves,
    discard: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    parts: Vec<Part>,
    threads: usize,
    /// build the parts from inside the pool they build in
    nested: bool,
    jitter: u64,
    rate: u64,
    readers: usize,
    reads: usize,
    /// trees without a configuration built at the same moment: threads, rounds, leaves
    burst: Option<(u8, u8, u8)>,
}

type E = El<20>;
struct P;
impl Prop for P {
    const ID: &'static str = "C16";
    const RULE: &'static str = "case = (one to four trees with their shape, store and way of feeding the leaves, threads of the pool, whether they build from inside one pool, seed and \
        rate of the delays injected into hashing and into the parallel iterator, number of concurrent readers); non-trivial: more than one tree at once, or several chunks \
        of nodes and threads in one tree";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        const AR: &[usize] = &[2, 4, 8];
        let big = t.pick(1usize << 15, 1 << 17);
        let part = (
            prop_oneof![3 => shape(AR, 64, 1024, 50, 1), 4 => shape(AR, 8192, big, 60, 5)],
            prop_oneof![Just(Sk::Vec), Just(Sk::Disk), Just(Sk::Mmap), Just(Sk::Compact)],
            prop_oneof![Just(Feed::Iter), Just(Feed::Par), Just(Feed::Slice)],
            distinct_leaves(),
            any::<u8>(),
        )
            .prop_map(|(shape, store, feed, leaves, discard)| Part { shape, store, feed, leaves, discard });
        (
            proptest::collection::vec(part, 1..5),
            prop_oneof![Just(1usize), 2usize..5, Just(8), Just(16)],
            any::<bool>(),
            any::<u64>(),
            prop_oneof![Just(0u64), Just(40), Just(400), Just(2000)],
            1usize..5,
            1usize..60,
            proptest::option::weighted(0.4, (2u8..9, 1u8..12, 0u8..6)),
        )
            .prop_map(|(parts, threads, nested, jitter, rate, readers, reads, burst)| Case { parts, threads, nested, jitter, rate, readers, reads, burst })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1500, 20_000)
    }
    fn fixed(t: Tier) -> Vec<Case> {
        // several blocks of leaves: the parallel feeding stores them in any order
        let mut v = vec![];
        for (k, store) in [Sk::Vec, Sk::Disk, Sk::Mmap, Sk::Compact].into_iter().enumerate() {
            for threads in t.pick(vec![4], vec![1, 3, 8]) {
                for (arity, levels) in t.pick(vec![(2, 20)], vec![(2, 20), (4, 10), (8, 7)]) {
                    let p = Part { shape: Shape { arity, levels }, store, feed: Feed::Par, leaves: Leaves { seed: k as u64, mode: 0 }, discard: 3 };
                    v.push(Case { parts: vec![p], threads, nested: false, jitter: k as u64, rate: 20_000, readers: 2, reads: 20, burst: None });
                }
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        cx.label(format!("threads {}", c.threads));
        cx.label(if c.nested { "nested" } else { "side by side" });
        for p in &c.parts {
            cx.label(format!("{:?} {:?}", p.store, p.feed));
        }
        if c.parts.len() > 1 || (c.threads > 1 && c.parts[0].shape.leafs() >= 8192) {
            cx.nontrivial();
        }
        let dir = cx.dir();
        SEED.store(c.jitter, Relaxed);
        RATE.store(c.rate, Relaxed);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().unwrap_or_else(|e| infra(format!("pool: {}", e)));
        let rs: Vec<Result<(), String>> = if c.nested {
            pool.install(|| c.parts.par_iter().enumerate().map(|(k, p)| part(c, k, p, &dir)).collect())
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = c
                    .parts
                    .iter()
                    .enumerate()
                    .map(|(k, p)| {
                        let (pool, dir) = (&pool, &dir);
                        s.spawn(move || guard(|| pool.install(|| part(c, k, p, dir))).unwrap_or_else(|e| Err(format!("panic: {}", e))))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| infra("a thread of the harness ended"))).collect()
            })
        };
        for (k, r) in rs.into_iter().enumerate() {
            r.map_err(|e| format!("tree {}: {}", k, e))?;
        }
        if let Some((n, rounds, levels)) = c.burst {
            cx.label("burst");
            burst(c, n as usize, rounds as usize, 1 + levels as u32)?;
        }
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        vec!["schedules are sampled: threads, injected delays and neighbours vary, interleavings are not enumerated".into()]
    }
    fn shards() -> usize {
        4
    }
}

fn part(c: &Case, k: usize, p: &Part, dir: &Path) -> Result<(), String> {
    match p.shape.arity {
        2 => by_store::<U2>(c, k, p, dir),
        4 => by_store::<U4>(c, k, p, dir),
        _ => by_store::<U8>(c, k, p, dir),
    }
}
fn by_store<B: Unsigned + Send + Sync>(c: &Case, k: usize, p: &Part, dir: &Path) -> Result<(), String> {
    let items: Vec<E> = p.leaves.items(p.shape.leafs());
    let r = match p.feed {
        Feed::Slice => RefTree::<E>::from_hashed::<Jit>(items.clone(), p.shape.arity),
        _ => RefTree::<E>::from_items::<Jit>(&items, p.shape.arity),
    };
    let id = format!("t{}", k);
    match p.store {
        Sk::Vec => full(c, p, &r, build::<VecStore<E>, B>(p, &items, None)?),
        Sk::Mmap => full(c, p, &r, build::<MmapStore<E>, B>(p, &items, Some(config(dir, &id, 0)))?),
        Sk::Disk => {
            let t = build::<DiskStore<E>, B>(p, &items, Some(config(dir, &id, 0)))?;
            req!(read_file(&data_file(dir, &id)) == Some(r.flat_bytes()), "the file is not the tree");
            full(c, p, &r, t)
        }
        Sk::Compact => {
            let d = p.discard as usize % (default_discard(p.shape.arity, p.shape.levels as usize) + 1);
            let base = dir.join(format!("base{}", k));
            write_file(&base, &to_bytes(r.leaves()));
            let mut t = build::<LevelCacheStore<E, std::fs::File>, B>(p, &items, Some(config(dir, &id, d)))?;
            req!(read_file(&data_file(dir, &id)) == Some(to_bytes(&r.cached(d))), "the file is not the cached rows");
            t.set_external_reader_path(&base).map_err(|e| format!("reader: {:?}", e))?;
            readers(c, |seed| same_lc_tree(&t, &r, d, seed, c.reads.min(12)))
        }
    }
}
fn build<S: Store<E>, B: Unsigned>(p: &Part, items: &[E], cfg: Option<merkletree::store::StoreConfig>) -> Result<MerkleTree<E, Jit, S, B>, String> {
    type T<S, B> = MerkleTree<E, Jit, S, B>;
    let slow = |e: &E| {
        jitter(u64::from_le_bytes(e.0[8..16].try_into().unwrap()));
        *e
    };
    match (p.feed, cfg) {
        (Feed::Iter, None) => T::new(items.iter().copied()),
        (Feed::Iter, Some(c)) => T::new_with_config(items.iter().copied(), c),
        (Feed::Par, None) => T::from_par_iter(items.par_iter().map(slow)),
        (Feed::Par, Some(c)) => T::from_par_iter_with_config(items.par_iter().map(slow), c),
        (Feed::Slice, None) => T::from_byte_slice(&to_bytes(items)),
        (Feed::Slice, Some(c)) => T::from_byte_slice_with_config(&to_bytes(items), c),
    }
    .map_err(|e| format!("build: {:?}", e))
}
fn full<S: Store<E>, B: Unsigned>(c: &Case, p: &Part, r: &RefTree<E>, t: MerkleTree<E, Jit, S, B>) -> Result<(), String>
where
    MerkleTree<E, Jit, S, B>: Sync,
{
    same_header(&t, r)?;
    let flat = r.flat();
    let all = t.read_range(0, flat.len()).map_err(|e| format!("read_range: {:?}", e))?;
    if let Some(d) = diff(&all, &flat) {
        fail!("contents: {}", d);
    }
    let cached = matches!(p.store, Sk::Disk);
    readers(c, |seed| {
        for n in 0..c.reads as u64 {
            let h = fin(seed ^ fin(n));
            let i = (h % r.leaves().len() as u64) as usize;
            let want = r.ref_proof(i);
            let q = t.gen_proof(i).map_err(|e| format!("gen_proof({}): {:?}", i, e))?;
            same_proof(&q, &want).map_err(|e| format!("proof of leaf {}: {}", i, e))?;
            if cached && n % 4 == 0 {
                let q = t.gen_cached_proof(i, None).map_err(|e| format!("gen_cached_proof({}): {:?}", i, e))?;
                same_proof(&q, &want).map_err(|e| format!("cached proof of leaf {}: {}", i, e))?;
            }
            let a = (h >> 20) as usize % flat.len();
            let b = (a + 1 + (h >> 50) as usize % 64).min(flat.len());
            let got = t.read_range(a, b).map_err(|e| format!("read_range({}, {}): {:?}", a, b, e))?;
            req!(got == flat[a..b], "read_range({}, {}) differs", a, b);
            let mut buf = vec![0u8; E::LEN];
            t.read_into(a, &mut buf).map_err(|e| format!("read_into({}): {:?}", a, e))?;
            req!(buf == flat[a].bytes(), "read_into({}) differs", a);
        }
        Ok(())
    })
}
/// Trees of one size and without a configuration, begun at the same moment; none may see another.
fn burst(c: &Case, n: usize, rounds: usize, levels: u32) -> Result<(), String> {
    let gate = std::sync::Barrier::new(n);
    let gate = &gate;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                s.spawn(move || -> Result<(), String> {
                    let mut bad = Ok(());
                    for round in 0..rounds {
                        let items: Vec<E> = Leaves { seed: fin(c.jitter ^ (k * 1000 + round) as u64), mode: 0 }.items(2usize.pow(levels));
                        let r = RefTree::<E>::from_items::<Jit>(&items, 2);
                        let p = Part { shape: Shape { arity: 2, levels }, store: Sk::Disk, feed: [Feed::Iter, Feed::Par, Feed::Slice][(k + round) % 3], leaves: Leaves { seed: 0, mode: 0 }, discard: 0 };
                        let r = match p.feed {
                            Feed::Slice => RefTree::<E>::from_hashed::<Jit>(items.clone(), 2),
                            _ => r,
                        };
                        gate.wait();
                        if bad.is_err() {
                            gate.wait();
                            continue;
                        }
                        type Look<'a> = Box<dyn FnOnce() -> Result<(), String> + 'a>;
                        let r = &r;
                        let built = guard(|| -> Result<Look, String> {
                            if (round + k / 4) % 2 == 0 {
                                let t = build::<DiskStore<E>, U2>(&p, &items, None)?;
                                Ok(Box::new(move || same_tree(&t, r, 1, 2)))
                            } else {
                                let t = build::<MmapStore<E>, U2>(&p, &items, None)?;
                                Ok(Box::new(move || same_tree(&t, r, 1, 2)))
                            }
                        })
                        .unwrap_or_else(|e| Err(format!("panic: {}", e)));
                        gate.wait();
                        bad = built
                            .and_then(|f| guard(f).unwrap_or_else(|e| Err(format!("panic: {}", e))))
                            .map_err(|e| format!("one of {} trees without a configuration built at once: {}", n, e));
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| infra("a thread of the harness ended"))).collect::<Vec<Result<(), String>>>().into_iter().collect()
    })
}
/// The same reads from several threads at once.
fn readers(c: &Case, f: impl Fn(u64) -> Result<(), String> + Sync) -> Result<(), String> {
    let f = &f;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.readers)
            .map(|k| s.spawn(move || guard(|| f(fin(c.jitter ^ k as u64))).unwrap_or_else(|e| Err(format!("panic: {}", e)))))
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| infra("a thread of the harness ended")))
            .collect::<Result<Vec<()>, String>>()
            .map(|_| ())
            .map_err(|e| format!("with {} readers: {}", c.readers, e))
    })
}

fn main() {
    mtverif::main::<P>()
}
