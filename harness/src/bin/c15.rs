//! C15: iterating over a store in parallel visits every element once, in place.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, DiskStoreProducer, Store, VecStore, VecStoreProducer};
use mtverif::*;
use proptest::prelude::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::U2;

/// how a producer is taken apart
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plan {
    Split(u16, Box<Plan>, Box<Plan>),
    /// steps from the front (true) or the back, then the rest from the front or back
    Walk(Vec<bool>, bool),
}
fn plan() -> BoxedStrategy<Plan> {
    let leaf = (proptest::collection::vec(any::<bool>(), 0..12), any::<bool>()).prop_map(|(w, r)| Plan::Walk(w, r));
    leaf.prop_recursive(6, 40, 2, |inner| {
        prop_oneof![
            3 => (prop_oneof![0u16..8, any::<u16>()], inner.clone(), inner.clone()).prop_map(|(i, a, b)| Plan::Split(i, Box::new(a), Box::new(b))),
            1 => inner,
        ]
    })
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    disk: bool,
    len: usize,
    spare: usize,
    leaves: Leaves,
    plan: Plan,
    k: usize,
    m: usize,
    threads: usize,
    /// the file loses its end at this byte (disk)
    #[serde(default)]
    cut: Option<u32>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C15";
    const RULE: &'static str = "case = (store, number of elements, spare capacity, values, a tree of split points with a mixed front/back walk at every end, parameters of the \
        adaptors, threads); non-trivial: at least four elements that are not all equal";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        (
            any::<bool>(),
            prop_oneof![6 => 0usize..40, 2 => 0usize..600, 1 => 0usize..t.pick(5000, 40_000), 1 => (0u32..10).prop_map(|k| 1usize << k)],
            0usize..5,
            distinct_leaves(),
            plan(),
            1usize..70,
            0usize..70,
            1usize..6,
            proptest::option::weighted(0.3, any::<u32>()),
        )
            .prop_map(|(disk, len, spare, leaves, plan, k, m, threads, cut)| Case { disk, len, spare, leaves, plan, k, m, threads, cut })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(48_000, 800_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        cx.label(if c.disk { "disk" } else { "vec" });
        if c.len >= 4 {
            cx.nontrivial();
        }
        type E = El<20>;
        let v: Vec<E> = c.leaves.items(c.len);
        let b = to_bytes(&v);
        let size = c.len + c.spare;
        if c.disk {
            let mk = || DiskStore::<E>::new_from_slice(size, &b).unwrap_or_else(|e| infra(format!("store: {:?}", e)));
            let (s, t, u) = (mk(), mk(), mk());
            go(c, &v, &s)?;
            parts(c, &v, |a, b| DiskStoreProducer::new(a, b, &s))?;
            if c.cut.is_some() {
                lost(c, &v, cx)?;
            }
            owned(c, &v, t, u)
        } else {
            let mk = || VecStore::<E>::new_from_slice(size, &b).unwrap_or_else(|e| infra(format!("store: {:?}", e)));
            let (s, t, u) = (mk(), mk(), mk());
            go(c, &v, &s)?;
            parts(c, &v, |a, b| VecStoreProducer::new(a, b, &s))?;
            owned(c, &v, t, u)
        }
    }
    fn assumptions() -> Vec<String> {
        vec!["a producer is split within its length, as the library of parallel iterators promises".into()]
    }
}

/// producers of parts of a store
fn parts<E: RElem, P: Producer<Item = E> + Clone + Sized2>(c: &Case, v: &[E], mk: impl Fn(usize, usize) -> P) -> Result<(), String> {
    let n = v.len();
    for (a, b) in [(c.k, c.m), (c.m, c.k), (c.k / 2, c.k), (c.m / 3, n)] {
        let (a, b) = (a.min(n), b.min(n));
        let (a, b) = (a.min(b), a.max(b));
        let p = mk(a, b);
        req!(p.size() == (b - a, a == b), "the part {}..{} says {:?} of its size", a, b, p.size());
        apart(p.clone(), &c.plan, &v[a..b], a).map_err(|e| format!("part {}..{}: {}", a, b, e))?;
        apart(p, &c.plan, &v[a..b], a).map_err(|e| format!("part {}..{}, again: {}", a, b, e))?;
    }
    Ok(())
}
trait Sized2 {
    fn size(&self) -> (usize, bool);
}
impl<E: RElem> Sized2 for VecStoreProducer<'_, E> {
    fn size(&self) -> (usize, bool) {
        (self.len(), self.is_empty())
    }
}
impl<E: RElem> Sized2 for DiskStoreProducer<'_, E> {
    fn size(&self) -> (usize, bool) {
        (self.len(), self.is_empty())
    }
}

/// A walk over a file that lost its end: what is there in place, then nothing more; never something else.
fn lost<E: RElem>(c: &Case, v: &[E], cx: &mut Cx) -> Result<(), String> {
    let dir = cx.dir();
    let n = v.len();
    if n == 0 {
        return Ok(());
    }
    let s = DiskStore::<E>::new_from_slice_with_config(n + c.spare, 2, &to_bytes(v), config(&dir, "s", 0)).unwrap_or_else(|e| infra(format!("store: {:?}", e)));
    let keep = c.cut.unwrap_or(0) as usize % (n * E::LEN);
    if let Err(e) = std::fs::OpenOptions::new().write(true).open(data_file(&dir, "s")).and_then(|f| f.set_len(keep as u64)) {
        infra(format!("cut: {}", e));
    }
    let m = keep / E::LEN;
    cx.label("the file lost its end");
    let mut walks = vec![(0, n)];
    let (a, b) = (c.k.min(n), c.m.min(n));
    walks.push((a.min(b), a.max(b)));
    for (a, b) in walks {
        let mut it = DiskStoreProducer::new(a, b, &s).into_iter();
        for i in a..b.min(m) {
            let x = it.next();
            req!(x == Some(v[i]), "element {} of {} left in the file is {:?}", i, m, x.map(|x| hex(x.bytes())));
        }
        if m < b {
            for _ in 0..3 {
                let x = it.next();
                req!(x.is_none(), "an element that is no longer in the file is {:?}", x.map(|x| hex(x.bytes())));
            }
            let x = DiskStoreProducer::new(a, b, &s).into_iter().next_back();
            req!(a == b || x.is_none(), "the last element, no longer in the file, is {:?}", x.map(|x| hex(x.bytes())));
        }
    }
    Ok(())
}

struct Take<'a, E> {
    plan: &'a Plan,
    v: &'a [E],
}
impl<E: RElem> ProducerCallback<E> for Take<'_, E> {
    type Output = Result<(), String>;
    fn callback<P: Producer<Item = E>>(self, p: P) -> Self::Output {
        apart(p, self.plan, self.v, 0)
    }
}
fn apart<E: RElem, P: Producer<Item = E>>(p: P, plan: &Plan, v: &[E], base: usize) -> Result<(), String> {
    match plan {
        Plan::Split(i, a, b) => {
            let i = *i as usize % (v.len() + 1);
            let (x, y) = p.split_at(i);
            // the right half first: halves are independent
            apart(y, b, &v[i..], base + i)?;
            apart(x, a, &v[..i], base)
        }
        Plan::Walk(w, rest) => {
            let mut it = p.into_iter();
            let (mut lo, mut hi) = (0, v.len());
            let steps = w.iter().copied().chain(std::iter::repeat(*rest).take(v.len() + 2));
            for front in steps {
                req!(it.len() == hi - lo, "part at {}: {} elements left instead of {}", base, it.len(), hi - lo);
                let got = if front { it.next() } else { it.next_back() };
                let want = if lo == hi {
                    None
                } else if front {
                    lo += 1;
                    Some(v[lo - 1])
                } else {
                    hi -= 1;
                    Some(v[hi])
                };
                req!(
                    got == want,
                    "part at {} of {} elements: {} gives {:?} instead of {:?} ({}..{} left)",
                    base,
                    v.len(),
                    if front { "next" } else { "next_back" },
                    got.map(|x| hex(x.bytes())),
                    want.map(|x| hex(x.bytes())),
                    lo,
                    hi
                );
            }
            Ok(())
        }
    }
}

fn go<E: RElem, S>(c: &Case, v: &[E], s: &S) -> Result<(), String>
where
    S: Store<E>,
    for<'a> &'a S: IndexedParallelIterator<Item = E>,
{
    let n = v.len();
    req!(IndexedParallelIterator::len(&s) == n, "the parallel iterator announces {} of {} elements", IndexedParallelIterator::len(&s), n);
    req!(ParallelIterator::opt_len(&s) == Some(n), "the parallel iterator announces {:?} of {} elements", ParallelIterator::opt_len(&s), n);
    s.with_producer(Take { plan: &c.plan, v }).map_err(|e| format!("by reference: {}", e))?;
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.threads).build().unwrap_or_else(|e| infra(format!("pool: {}", e)));
    pool.install(|| -> Result<(), String> {
        let all: Vec<E> = s.into_par_iter().collect();
        same("collect", &all, v)?;
        let all: Vec<E> = s.into_par_iter().with_max_len(c.k).map(|x| x).collect();
        same("short pieces", &all, v)?;
        let all: Vec<E> = s.into_par_iter().rev().collect();
        let mut w = v.to_vec();
        w.reverse();
        same("rev", &all, &w)?;
        let k = c.k;
        let pairs: Vec<(usize, E)> = s.into_par_iter().with_min_len(k).enumerate().collect();
        req!(pairs.iter().enumerate().all(|(i, p)| p.0 == i && p.1 == v[i]) && pairs.len() == n, "enumerate misplaces elements");
        let ch: Vec<Vec<E>> = s.into_par_iter().chunks(k).collect();
        req!(ch.len() == (n + k - 1) / k && ch.iter().zip(v.chunks(k)).all(|(a, b)| a == b), "chunks of {} misplace elements", k);
        let m = c.m.min(n);
        let all: Vec<E> = s.into_par_iter().skip(m).collect();
        same("skip", &all, &v[m..])?;
        let all: Vec<E> = s.into_par_iter().take(m).collect();
        same("take", &all, &v[..m])?;
        let z: Vec<(E, E)> = s.into_par_iter().zip(s.into_par_iter().rev()).collect();
        req!(z.len() == n && z.iter().enumerate().all(|(i, (a, b))| *a == v[i] && *b == v[n - 1 - i]), "zip with itself reversed misplaces elements");
        let all: Vec<E> = s.into_par_iter().step_by(k).collect();
        same("step_by", &all, &v.iter().copied().step_by(k).collect::<Vec<E>>())?;
        req!(s.into_par_iter().count() == n, "count differs");
        if let Some(x) = v.get(m) {
            let at = s.into_par_iter().position_first(|y| y == *x);
            req!(at == Some(m), "element {} is found at {:?}", m, at);
        }
        // without the index
        let mut un: Vec<E> = s.into_par_iter().filter(|_| true).collect();
        same("filter", &un, v)?;
        un = s.into_par_iter().flat_map_iter(|x| [x, x]).collect();
        same("flat_map", &un, &v.iter().flat_map(|x| [*x, *x]).collect::<Vec<E>>())?;
        let sum = s.into_par_iter().map(|x| x.bytes()[0] as u64 + 256 * x.bytes()[1] as u64).sum::<u64>();
        req!(sum == v.iter().map(|x| x.bytes()[0] as u64 + 256 * x.bytes()[1] as u64).sum::<u64>(), "sum differs");
        Ok(())
    })?;
    // the way a tree is built from a store
    if n.is_power_of_two() && n >= 2 {
        let t = MerkleTree::<E, Mix, VecStore<E>, U2>::from_par_iter(s).map_err(|e| format!("a tree over the parallel iterator: {:?}", e))?;
        req!(t.root() == RefTree::from_items::<Mix>(v, 2).root(), "a tree over the parallel iterator has another root");
    }
    Ok(())
}
fn owned<E: RElem, S>(c: &Case, v: &[E], s: S, t: S) -> Result<(), String>
where
    S: Store<E> + IndexedParallelIterator<Item = E>,
{
    let n = v.len();
    req!(IndexedParallelIterator::len(&s) == n && ParallelIterator::opt_len(&s) == Some(n), "the owned parallel iterator announces another length");
    s.with_producer(Take { plan: &c.plan, v }).map_err(|e| format!("owned: {}", e))?;
    let all: Vec<E> = t.into_par_iter().with_max_len(c.k).collect();
    same("owned collect", &all, v)
}
fn same<E: RElem>(what: &str, got: &[E], want: &[E]) -> Result<(), String> {
    match diff(got, want) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what, d)),
    }
}

fn main() {
    mtverif::main::<P>()
}
