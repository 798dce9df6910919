//! C24: what was finished stays when the process is killed, whenever that happens.
#[path = "../iofault.rs"]
#[allow(dead_code)]
mod iofault;

use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, LevelCacheStore, MmapStore, Store, StoreConfig};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Sk {
    Disk,
    Mmap,
    Compact,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Step {
    /// place, store, constructor
    Build(u8, Sk, u8),
    /// place, format, whether with the tree that was built (if it's still in hand)
    Compact(u8, bool, bool),
    /// opened, read and proved; which of the ways
    Open(u8, u8),
    Delete(u8, u8),
    /// elements of a persisted array: at, how many (0: one)
    Put(u16, u8),
    Sync,
    /// the array dropped and opened again, or its mapping released
    Again(bool),
    /// a tree without any configuration
    Bare(Sk, u8),
}
/// When the process is killed: at a call of a step (the calls on files counted from its start,
/// or its end if there are fewer), before it or in the middle of it; or when an item is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Kill {
    step: u8,
    call: u8,
    torn: bool,
    item: Option<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    leaves: Leaves,
    discard: u8,
    /// capacity of the array, and its store
    array: u8,
    mapped: bool,
    steps: Vec<Step>,
    kill: Kill,
    pick: u64,
}
impl Case {
    fn discard(&self) -> usize {
        self.discard as usize % (self.shape.max_discard() + 1)
    }
    fn cap(&self) -> usize {
        8 + self.array as usize
    }
    fn kill_step(&self) -> usize {
        if self.kill.step > 220 {
            return self.steps.len();
        }
        let mut w = World::default();
        let mut busy = vec![];
        for (k, s) in self.steps.iter().enumerate() {
            if w.does(self, s) != Does::Nothing {
                busy.push(k)
            }
            w.after(self, s);
        }
        // the last ones more often: something was there before
        match busy.len() {
            0 => self.steps.len(),
            n => busy[n - 1 - (self.kill.step as usize % n).min(self.kill.step as usize / 16 % n)],
        }
    }
}

/// What a step comes to, given what is there before it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Form {
    Full,
    V1,
    V2,
}
#[derive(Clone, Debug, Default)]
struct World {
    /// form, and which leaves
    places: BTreeMap<u8, (Form, u64)>,
    array: Vec<u64>,
    created: bool,
    steps: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Does {
    Nothing,
    Builds(u8, Sk, u8),
    /// the place is taken
    Over(u8, Sk, u8),
    Compacts(u8, bool),
    Opens(u8, u8),
    Deletes(u8, u8),
    Puts(usize, usize),
    Syncs,
    Reopens,
    Releases,
    Bare(Sk, u8),
}
impl World {
    fn does(&self, c: &Case, s: &Step) -> Does {
        let has = |p: &u8| self.places.get(p).map(|x| x.0);
        match s {
            Step::Build(p, k, how) => match has(p) {
                None => Does::Builds(*p, *k, *how),
                Some(Form::Full) if *k != Sk::Compact => Does::Over(*p, *k, [0, 1, 2, 4][*how as usize % 4]),
                Some(_) => Does::Opens(*p, *how),
            },
            Step::Compact(p, v1, _) => match has(p) {
                Some(Form::Full) => Does::Compacts(*p, *v1),
                Some(_) => Does::Opens(*p, 0),
                None => Does::Nothing,
            },
            Step::Open(p, how) => has(p).map_or(Does::Nothing, |_| Does::Opens(*p, *how)),
            Step::Delete(p, how) => has(p).map_or(Does::Nothing, |_| Does::Deletes(*p, *how)),
            Step::Put(at, n) => {
                let n = (*n as usize % 6).max(1);
                let at = *at as usize % (self.array.len() + 1).min(c.cap());
                Does::Puts(at, n.min(c.cap() - at))
            }
            Step::Sync => Does::Syncs,
            Step::Again(_) if !self.created => Does::Nothing,
            Step::Again(true) if c.mapped => Does::Releases,
            Step::Again(_) => Does::Reopens,
            Step::Bare(k, how) => Does::Bare(*k, *how),
        }
    }
    fn after(&mut self, c: &Case, s: &Step) {
        let d = self.does(c, s);
        self.steps += 1;
        match d {
            Does::Builds(p, k, how) => {
                let form = match k {
                    Sk::Compact if how % 5 == 4 => Form::V1,
                    Sk::Compact => Form::V2,
                    _ => Form::Full,
                };
                self.places.insert(p, (form, self.steps));
            }
            Does::Compacts(p, v1) => {
                self.places.get_mut(&p).unwrap().0 = if v1 { Form::V1 } else { Form::V2 };
            }
            Does::Deletes(p, _) => {
                self.places.remove(&p);
            }
            Does::Puts(at, n) => {
                self.created = true;
                let new = self.array.len().max(at + n);
                self.array.resize(new, 0);
                for k in 0..n {
                    self.array[at + k] = self.steps * 8 + k as u64;
                }
            }
            Does::Syncs => self.created = true,
            Does::Reopens => self.array.resize(c.cap(), 0),
            _ => {}
        }
    }
}
fn leaves_of(c: &Case, k: u64) -> Leaves {
    c.leaves.offset(k * 131)
}
fn value<E: RElem>(c: &Case, k: u64) -> E {
    let a = fin(c.leaves.seed ^ fin(k));
    E::from_words([a, fin(a ^ 1), fin(a ^ 2), fin(a ^ 3)])
}
fn place(p: u8) -> String {
    format!("p{}", p)
}

struct P;
impl Prop for P {
    const ID: &'static str = "C24";
    const RULE: &'static str = "case = (shape, leaf values, rows dropped, a sequence of building, building over, compacting, opening and proving, deleting, writing to and flushing a persisted array; the \
        moment when the process that does it is killed: before or in the middle of one of the calls on files, when an item is asked for, or between two steps); non-trivial: something was finished \
        before and the process was killed inside of a step, or everything was finished and nothing was closed";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let sk = || prop_oneof![3 => Just(Sk::Disk), 2 => Just(Sk::Mmap), 2 => Just(Sk::Compact)];
        let p = || 0u8..3;
        let step = prop_oneof![
            6 => (p(), sk(), 0u8..5).prop_map(|(p, k, h)| Step::Build(p, k, h)),
            5 => (p(), any::<bool>(), any::<bool>()).prop_map(|(p, v, b)| Step::Compact(p, v, b)),
            3 => (p(), 0u8..2).prop_map(|(p, h)| Step::Open(p, h)),
            2 => (p(), 0u8..3).prop_map(|(p, h)| Step::Delete(p, h)),
            3 => (any::<u16>(), any::<u8>()).prop_map(|(a, n)| Step::Put(a, n)),
            1 => Just(Step::Sync),
            2 => any::<bool>().prop_map(Step::Again),
            1 => (sk(), 0u8..5).prop_map(|(k, h)| Step::Bare(k, h)),
        ];
        let kill = (
            prop_oneof![12 => any::<u8>(), 1 => Just(255u8)],
            prop_oneof![5 => 0u8..3, 4 => 3u8..9, 2 => 0u8..40, 1 => Just(255u8)],
            any::<bool>(),
            proptest::option::weighted(0.1, any::<u16>()),
        )
            .prop_map(|(step, call, torn, item)| Kill { step, call, torn, item });
        (
            shape(ARITIES, 256, t.pick(4096, 16384), 8, 1),
            0u8..2,
            distinct_leaves(),
            any::<u8>(),
            any::<u8>(),
            any::<bool>(),
            (proptest::collection::vec((p(), sk(), 0u8..5).prop_map(|(p, k, h)| Step::Build(p, k, h)), 0..4), proptest::collection::vec(step, 1..6)).prop_map(|(mut a, b)| {
                a.extend(b);
                a
            }),
            kill,
            any::<u64>(),
        )
            .prop_map(|(shape, ea, leaves, discard, array, mapped, steps, kill, pick)| Case { shape, ea, leaves, discard, array, mapped, steps, kill, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(16_000, 600_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, after_kill::<E, A, B>(c, cx))
    }
    fn assumptions() -> Vec<String> {
        vec![
            "the process is killed (SIGKILL), the machine goes on: what the kernel was given is kept. That something reached the device is judged by the order of flushes and changes only".into(),
        ]
    }
}

type T<E, A, S, B> = MerkleTree<E, A, S, B>;

/// items, at one of which the process is killed
struct Watched<E> {
    items: Vec<E>,
    at: usize,
    kill_at: Option<usize>,
}
impl<E: Copy> Iterator for Watched<E> {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        if self.kill_at == Some(self.at) {
            iofault::die()
        }
        self.at += 1;
        self.items.get(self.at - 1).copied()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len() - self.at.min(self.items.len());
        (n, Some(n))
    }
}
impl<E: Copy> ExactSizeIterator for Watched<E> {}

fn build<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned + Send>(how: u8, items: &[E], r: &RefTree<E>, cfg: Option<StoreConfig>, kill_at: Option<usize>) -> anyhow::Result<T<E, A, S, B>> {
    let w = || Watched { items: items.to_vec(), at: 0, kill_at };
    let par = |(i, x): (usize, &E)| {
        if kill_at == Some(i) {
            iofault::die()
        }
        *x
    };
    match (how % 5, cfg) {
        (0, Some(cfg)) => T::new_with_config(w(), cfg),
        (0, None) => T::new(w()),
        (1, Some(cfg)) => T::try_from_iter_with_config(w().map(Ok), cfg),
        (1, None) => T::try_from_iter(w().map(Ok)),
        (2, Some(cfg)) => T::from_par_iter_with_config(items.par_iter().enumerate().map(par), cfg),
        (2, None) => T::from_par_iter(items.par_iter().enumerate().map(par)),
        (3, Some(cfg)) => T::from_byte_slice_with_config(&to_bytes(r.leaves()), cfg),
        (3, None) => T::from_byte_slice(&to_bytes(r.leaves())),
        (_, Some(cfg)) => T::from_tree_slice_with_config(&r.flat_bytes(), r.leaves().len(), cfg),
        (_, None) => T::from_tree_slice(&r.flat_bytes(), r.leaves().len()),
    }
}
fn tree<E: RElem, A: RefAlg<E>>(c: &Case, k: u64) -> (Vec<E>, RefTree<E>) {
    let items: Vec<E> = leaves_of(c, k).items(c.shape.leafs());
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    (items, r)
}
fn form_bytes<E: RElem>(r: &RefTree<E>, f: Form, d: usize) -> Vec<u8> {
    match f {
        Form::Full => r.flat_bytes(),
        Form::V1 => to_bytes(&[r.leaves().to_vec(), r.cached(d)].concat()),
        Form::V2 => to_bytes(&r.cached(d)),
    }
}
/// opened, in the form it has, and compared
fn opens<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, dir: &Path, p: u8, f: Form, r: &RefTree<E>, how: u8, keep: &mut Vec<Box<dyn std::any::Any>>) -> Result<(), String>
where
    T<E, A, DiskStore<E>, B>: 'static,
{
    let d = c.discard();
    let cfg = config(dir, &place(p), d);
    let n = r.leaves().len();
    let rep = dir.join(format!("replica{}", p));
    let (ok, res) = match (f, how % 2) {
        (Form::Full, 0) => {
            let t = DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)).map_err(|e| format!("opening: {:?}", e))?;
            let x = same_tree(&t, r, c.pick, 4);
            keep.push(Box::new(t));
            (DiskStore::<E>::is_consistent(r.len(), r.arity, &cfg), x)
        }
        (Form::Full, _) => {
            let t = MmapStore::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)).map_err(|e| format!("opening (mapped): {:?}", e))?;
            let x = same_tree(&t, r, c.pick, 4);
            keep.push(Box::new(t));
            (DiskStore::<E>::is_consistent(r.len(), r.arity, &cfg), x)
        }
        (Form::V1, _) => {
            let t = Lc::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)).map_err(|e| format!("opening (with leaves): {:?}", e))?;
            let x = same_lc_tree(&t, r, d, c.pick, 4);
            keep.push(Box::new(t));
            (Lc::<E>::is_consistent_v1(r.len(), r.arity, &cfg), x)
        }
        (Form::V2, _) => {
            let t = LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(r.len(), r.arity, &cfg, file_reader(&rep))
                .and_then(|s| T::<E, A, _, B>::from_data_store(s, n))
                .map_err(|e| format!("opening (without leaves): {:?}", e))?;
            let x = same_lc_tree(&t, r, d, c.pick, 4);
            keep.push(Box::new(t));
            (Lc::<E>::is_consistent(r.len(), r.arity, &cfg), x)
        }
    };
    res?;
    match ok {
        Ok(true) => Ok(()),
        x => Err(format!("the test of consistency says {:?}", x.map_err(|e| e.to_string()))),
    }
}

// ---- the process that is killed ----

fn say(m: &str) {
    let m = format!("{}\n", m.replace('\n', " "));
    unsafe { libc::syscall(libc::SYS_write, 1, m.as_ptr(), m.len()) };
}
enum Arr<E: RElem> {
    Disk(DiskStore<E>),
    Mmap(MmapStore<E>),
}
fn lives<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, dir: &Path) -> Result<(), String>
where
    T<E, A, DiskStore<E>, B>: 'static,
{
    let d = c.discard();
    let mut w = World::default();
    let mut hand: BTreeMap<u8, T<E, A, DiskStore<E>, B>> = BTreeMap::new();
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    let mut array: Option<Arr<E>> = None;
    for (k, s) in c.steps.iter().enumerate() {
        let does = w.does(c, s);
        let now = k == c.kill_step();
        let item = if now { c.kill.item.map(|i| i as usize % c.shape.leafs()) } else { None };
        // outside leaves of what is opened
        if let Does::Opens(p, _) = does {
            let (_, r) = tree::<E, A>(c, w.places[&p].1);
            write_file(&dir.join(format!("replica{}", p)), &to_bytes(r.leaves()));
        }
        let of = match does {
            Does::Builds(..) | Does::Bare(..) => w.steps + 1,
            Does::Over(..) => w.steps + 7777,
            Does::Compacts(p, _) | Does::Opens(p, _) => w.places[&p].1,
            _ => 0,
        };
        let (items, r) = tree::<E, A>(c, of);
        if now && item.is_none() {
            iofault::arm(Some(c.kill.call as usize), if c.kill.torn { 5 } else { 4 }, 0);
        } else {
            iofault::arm(None, 0, 0);
        }
        let e = |e: anyhow::Error| format!("step {} {:?}: {:?}", k, does, e);
        let m = |e: String| format!("step {} {:?}: {}", k, does, e);
        match does {
            Does::Nothing => {}
            Does::Builds(p, kind, how) => {
                let cfg = Some(config(dir, &place(p), d));
                match kind {
                    Sk::Disk => {
                        let t = build::<E, A, DiskStore<E>, B>(how, &items, &r, cfg, item).map_err(e)?;
                        hand.insert(p, t);
                    }
                    Sk::Mmap => keep.push(Box::new(build::<E, A, MmapStore<E>, B>(how, &items, &r, cfg, item).map_err(e)?)),
                    Sk::Compact => keep.push(Box::new(build::<E, A, Lc<E>, B>(how, &items, &r, cfg, item).map_err(e)?)),
                }
            }
            Does::Over(p, kind, how) => {
                let cfg = Some(config(dir, &place(p), d));
                let (_, old) = tree::<E, A>(c, w.places[&p].1);
                if kind == Sk::Disk {
                    let t = build::<E, A, DiskStore<E>, B>(how, &items, &r, cfg, item).map_err(e)?;
                    same_tree(&t, &old, c.pick, 4).map_err(m)?;
                    hand.entry(p).or_insert(t);
                } else {
                    let t = build::<E, A, MmapStore<E>, B>(how, &items, &r, cfg, item).map_err(e)?;
                    same_tree(&t, &old, c.pick, 4).map_err(m)?;
                    keep.push(Box::new(t));
                }
            }
            Does::Compacts(p, v1) => {
                let cfg = config(dir, &place(p), d);
                let mut t = match (matches!(s, Step::Compact(_, _, true)), hand.remove(&p)) {
                    (true, Some(t)) => t,
                    (_, t) => {
                        keep.push(Box::new(t));
                        DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::from_data_store(s, r.leaves().len())).map_err(e)?
                    }
                };
                match t.compact(cfg, if v1 { 1 } else { 2 }) {
                    Ok(true) => req!(iofault::flushed(), "step {} {:?}: a compaction is reported as done and its file was not flushed", k, does),
                    x => fail!("step {} {:?}: {:?}", k, does, x),
                }
                keep.push(Box::new(t));
            }
            Does::Opens(p, how) => {
                opens::<E, A, B>(c, dir, p, w.places[&p].0, &r, how, &mut keep).map_err(m)?;
            }
            Does::Deletes(p, how) => {
                let cfg = config(dir, &place(p), d);
                match (how, hand.remove(&p)) {
                    (0, Some(t)) => {
                        t.delete(cfg).map_err(e)?;
                        keep.push(Box::new(t));
                    }
                    (how, t) => {
                        keep.push(Box::new(t));
                        match how {
                            0 => <DiskStore<E> as Store<E>>::delete(cfg),
                            1 => <MmapStore<E> as Store<E>>::delete(cfg),
                            _ => <Lc<E> as Store<E>>::delete(cfg),
                        }
                        .map_err(e)?;
                    }
                }
            }
            Does::Puts(..) | Does::Syncs => {
                if array.is_none() {
                    let cfg = config(dir, "a", 0);
                    array = Some(if c.mapped {
                        Arr::Mmap(MmapStore::new_with_config(c.cap(), 2, cfg).map_err(e)?)
                    } else {
                        Arr::Disk(DiskStore::new_with_config(c.cap(), 2, cfg).map_err(e)?)
                    });
                }
                let vals = |n: usize| -> Vec<E> { (0..n as u64).map(|j| value(c, (w.steps + 1) * 8 + j)).collect() };
                fn put<E: RElem, S: Store<E>>(s: &mut S, at: usize, v: &[E]) -> anyhow::Result<()> {
                    match v.len() {
                        1 if at == s.len() => s.push(v[0]),
                        1 => s.write_at(v[0], at),
                        _ => s.copy_from_slice(&to_bytes(v), at),
                    }
                }
                match (array.as_mut().unwrap(), does) {
                    (Arr::Disk(s), Does::Puts(at, n)) => put(s, at, &vals(n)).map_err(e)?,
                    (Arr::Mmap(s), Does::Puts(at, n)) => put(s, at, &vals(n)).map_err(e)?,
                    (Arr::Disk(s), _) => {
                        s.sync().map_err(e)?;
                        req!(iofault::flushed(), "step {}: a store was flushed, its file was not", k);
                    }
                    (Arr::Mmap(s), _) => s.sync().map_err(e)?,
                }
            }
            Does::Reopens => {
                array = None;
                let cfg = config(dir, "a", 0);
                array = Some(if c.mapped { Arr::Mmap(MmapStore::new_from_disk(c.cap(), 2, &cfg).map_err(e)?) } else { Arr::Disk(DiskStore::new_from_disk(c.cap(), 2, &cfg).map_err(e)?) });
            }
            Does::Releases => {
                if let Some(Arr::Mmap(s)) = array.as_mut() {
                    s.compact(2, config(dir, "a", 0), 2).map_err(e)?;
                }
            }
            Does::Bare(kind, how) => match kind {
                Sk::Disk => keep.push(Box::new(build::<E, A, DiskStore<E>, B>(how, &items, &r, None, item).map_err(e)?)),
                Sk::Mmap => keep.push(Box::new(build::<E, A, MmapStore<E>, B>(how, &items, &r, None, item).map_err(e)?)),
                // needs a configuration
                Sk::Compact => keep.push(Box::new(build::<E, A, Lc<E>, B>(4, &items, &r, None, item).map_err(e)?)),
            },
        }
        iofault::disarm();
        say("done");
        w.after(c, s);
        if now {
            iofault::die()
        }
    }
    iofault::die()
}
fn child(dir: PathBuf) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let c: Case = serde_json::from_str(&t).unwrap();
    let r = guard(|| with_eab!(c.shape.arity, c.ea, E, A, B, lives::<E, A, B>(&c, &dir)));
    iofault::disarm();
    say(&match r {
        Ok(Ok(())) => unreachable!(),
        Ok(Err(m)) => format!("error {}", m),
        Err(p) => format!("error panic: {}", p),
    });
    std::process::exit(7)
}

// ---- the one that looks at what is left ----

fn after_kill<E: RElem, A: RefAlg<E>, B: Unsigned + Send>(c: &Case, cx: &mut Cx) -> Result<(), String>
where
    T<E, A, DiskStore<E>, B>: 'static,
{
    let dir = cx.dir();
    let tmp = dir.join("tmp");
    std::fs::create_dir(&tmp).unwrap_or_else(|e| infra(format!("{}", e)));
    let mut p = Command::new(std::env::current_exe().unwrap())
        .env("C24_CHILD", &dir)
        .env("TMPDIR", &tmp)
        .env("RAYON_NUM_THREADS", "2")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| infra(format!("{}", e)));
    let mut stdin = p.stdin.take().unwrap();
    stdin.write_all(serde_json::to_string(c).unwrap().as_bytes()).unwrap_or_else(|e| infra(format!("{}", e)));
    drop(stdin);
    let o = p.wait_with_output().unwrap_or_else(|e| infra(format!("{}", e)));
    let said = String::from_utf8_lossy(&o.stdout).into_owned();
    if let Some(e) = said.lines().find_map(|l| l.strip_prefix("error ")) {
        return Err(e.to_string());
    }
    req!(o.status.signal() == Some(libc::SIGKILL), "the process ended by itself: {:?}, after {:?}", o.status, said);
    let done = said.lines().filter(|l| *l == "done").count();
    let mut w = World::default();
    for s in &c.steps[..done] {
        w.after(c, s);
    }
    let inside = done == c.kill_step() && done < c.steps.len();
    let doing = if inside { w.does(c, &c.steps[done]) } else { Does::Nothing };
    let what = format!("killed {} after {} of {} steps", if inside { format!("during {:?}", doing) } else { "between".into() }, done, c.steps.len());
    if (inside && doing != Does::Nothing && done > 0) || (!inside && done > 0) {
        cx.nontrivial();
    }
    let name = format!("{:?}", doing);
    cx.label(format!("killed {}", if inside { name.split('(').next().unwrap() } else { "between" }));

    let d = c.discard();
    let mut none = vec![];
    for p in 0..3u8 {
        let file = data_file(&dir, &place(p));
        let left = read_file(&file);
        let cfg = config(&dir, &place(p), d);
        match (w.places.get(&p).copied(), doing) {
            (None, Does::Builds(q, kind, how)) if q == p => {
                let (items, r) = tree::<E, A>(c, w.steps + 1);
                let n = r.leaves().len();
                let form = match kind {
                    Sk::Compact if how % 5 == 4 => Form::V1,
                    Sk::Compact => Form::V2,
                    _ => Form::Full,
                };
                let right = form_bytes(&r, form, d);
                if left.is_some() && left.as_ref() != Some(&right) {
                    write_file(&dir.join(format!("replica{}", p)), &to_bytes(r.leaves()));
                    let taken = guard(|| match form {
                        Form::Full if kind == Sk::Disk => DiskStore::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)).is_ok(),
                        Form::Full => MmapStore::<E>::new_from_disk(r.len(), r.arity, &cfg).and_then(|s| T::<E, A, _, B>::from_data_store(s, n)).is_ok(),
                        Form::V1 => matches!(Lc::<E>::is_consistent_v1(r.len(), r.arity, &cfg), Ok(true)),
                        Form::V2 => matches!(Lc::<E>::is_consistent(r.len(), r.arity, &cfg), Ok(true)),
                    });
                    match taken {
                        Err(p) => fail!("{}: looking at what is left panics: {}", what, p),
                        Ok(true) if left.as_ref().map(|x| x.len()) != Some(right.len()) => fail!("{}: what was left has not even the size of the tree, and is taken for it", what),
                        Ok(true) => cx.finding(&format!("torn-build-{:?}", kind), format!("{}: what was left is taken for a complete tree", what))?,
                        Ok(false) => {}
                    }
                    cx.label(if taken == Ok(true) { "torn build taken for complete" } else { "torn build refused" });
                }
                // cleared, and built again
                if left.is_some() {
                    match kind {
                        Sk::Disk => <DiskStore<E> as Store<E>>::delete(cfg.clone()),
                        Sk::Mmap => <MmapStore<E> as Store<E>>::delete(cfg.clone()),
                        Sk::Compact => <Lc<E> as Store<E>>::delete(cfg.clone()),
                    }
                    .map_err(|e| format!("{}: clearing: {:?}", what, e))?;
                }
                let again = guard(|| match kind {
                    Sk::Disk => build::<E, A, DiskStore<E>, B>(how, &items, &r, Some(cfg.clone()), None).map(|_| ()),
                    Sk::Mmap => build::<E, A, MmapStore<E>, B>(how, &items, &r, Some(cfg.clone()), None).map(|_| ()),
                    Sk::Compact => build::<E, A, Lc<E>, B>(how, &items, &r, Some(cfg.clone()), None).map(|_| ()),
                });
                match again {
                    Ok(Ok(())) => req!(read_file(&file) == Some(right), "{}: built again in the cleared place, the file is another", what),
                    x => fail!("{}: building again in the cleared place: {:?}", what, x),
                }
            }
            (None, _) => req!(left.is_none(), "{}: place {} has a file, nothing was built there", what, p),
            (Some((_, k)), Does::Compacts(q, v1)) if q == p => {
                let (_, r) = tree::<E, A>(c, k);
                req!(left.is_some(), "{}: the tree is gone", what);
                let right = form_bytes(&r, if v1 { Form::V1 } else { Form::V2 }, d);
                let is = guard(|| if v1 { Lc::<E>::is_consistent_v1(r.len(), r.arity, &cfg) } else { Lc::<E>::is_consistent(r.len(), r.arity, &cfg) });
                match is {
                    Err(p) => fail!("{}: the test of consistency panics: {}", what, p),
                    Ok(Ok(true)) => req!(left == Some(right) , "{}: what is left passes for a compacted tree and is none", what),
                    _ => {}
                }
                if left != Some(r.flat_bytes()) && matches!(DiskStore::<E>::is_consistent(r.len(), r.arity, &cfg), Ok(true)) {
                    req!(left.as_ref().map(|x| x.len()) == Some(r.len() * E::LEN), "{}: what was left has not even the size of the tree, and is taken for it", what);
                    cx.finding("torn-compaction", format!("{}: what was left is taken for a complete tree", what))?;
                    cx.label("torn compaction taken for complete");
                }
            }
            (Some((f, k)), Does::Deletes(q, _)) if q == p => {
                let (_, r) = tree::<E, A>(c, k);
                req!(left.is_none() || left == Some(form_bytes(&r, f, d)), "{}: the tree is neither gone nor as it was", what);
            }
            (Some((f, k)), _) => {
                let (_, r) = tree::<E, A>(c, k);
                req!(left == Some(form_bytes(&r, f, d)), "{}: the file of the tree finished in place {} ({:?}) is not as it was ({:?} bytes)", what, p, f, left.map(|x| x.len()));
                write_file(&dir.join(format!("replica{}", p)), &to_bytes(r.leaves()));
                match guard(|| opens::<E, A, B>(c, &dir, p, f, &r, c.pick as u8, &mut none)) {
                    Ok(x) => x.map_err(|m| format!("{}: place {} ({:?}): {}", what, p, f, m))?,
                    Err(x) => fail!("{}: place {} ({:?}): panics: {}", what, p, f, x),
                }
            }
        }
    }
    // the array
    if w.created {
        let b = read_file(&data_file(&dir, "a")).unwrap_or_default();
        req!(b.len() == c.cap() * E::LEN, "{}: the file of the array has {} bytes", what, b.len());
        for (i, k) in w.array.iter().enumerate() {
            if matches!(doing, Does::Puts(at, n) if i >= at && i < at + n) {
                continue;
            }
            let v = match *k {
                0 => vec![0; E::LEN],
                k => value::<E>(c, k).bytes().to_vec(),
            };
            req!(b[i * E::LEN..(i + 1) * E::LEN] == v, "{}: element {} of the array is not the one that was written", what, i);
        }
    }
    if !matches!(doing, Does::Builds(..) | Does::Compacts(..) | Does::Deletes(..)) {
        let mut known: Vec<PathBuf> = (0..3u8).flat_map(|p| [data_file(&dir, &place(p)), dir.join(format!("replica{}", p))]).collect();
        known.extend([data_file(&dir, "a"), tmp.clone()]);
        for e in std::fs::read_dir(&dir).unwrap_or_else(|e| infra(format!("{}", e))).flatten() {
            req!(known.contains(&e.path()), "{}: there is a file {:?}", what, e.file_name());
        }
    }
    // without a configuration nothing outlives the process
    let n = std::fs::read_dir(&tmp).map(|d| d.count()).unwrap_or(0);
    req!(n <= matches!(doing, Does::Bare(..)) as usize, "{}: {} temporary files are left", what, n);
    Ok(())
}

fn main() {
    if let Some(d) = std::env::var_os("C24_CHILD") {
        child(PathBuf::from(d))
    }
    mtverif::main::<P>()
}
