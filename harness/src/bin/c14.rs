//! C14: every store is an array of elements.
use merkletree::store::{DiskStore, MmapStore, Store, VecStore};
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    Vec,
    Disk,
    DiskFile,
    Mmap,
    MmapFile,
    /// base row of a level-cache store
    Lc,
    /// level-cache store without a configuration: nothing is cached
    LcBare,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(u16, u64),
    /// position, number of elements, value seed
    Copy(u16, u16, u64),
    /// a buffer with a partial element at its end
    CopyPartial(u16, u8, u8),
    Push(u64),
    Read(u16),
    ReadInto(u16),
    Range(u16, u16),
    RangeInto(u16, u16),
    Last,
    Sync,
    /// give back resources, then take them again (memory-mapped)
    Release,
    /// give back resources only: the next change takes them again (memory-mapped)
    Drop,
    /// close and open again (file backed stores, when nothing is missing)
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    size: u16,
    el: u8,
    /// initial elements, from a slice
    init: u16,
    ops: Vec<Op>,
    /// 0, or which border of sizes in bytes the store reaches over
    #[serde(default)]
    far: u8,
}
/// Borders of 32 bit numbers; the stores are sparse files.
const FAR: [u64; 6] = [0, 1 << 31, 1 << 32, (1 << 32) + 4096, 1 << 33, 3 << 32];

fn pos() -> impl Strategy<Value = u16> {
    prop_oneof![3 => 0u16..12, 2 => any::<u16>(), 2 => 40_000u16..40_012]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => (pos(), any::<u64>()).prop_map(|(i, v)| Op::Write(i, v)),
        3 => (pos(), prop_oneof![0u16..6, any::<u16>()], any::<u64>()).prop_map(|(i, n, v)| Op::Copy(i, n, v)),
        1 => (pos(), 0u8..4, 1u8..60).prop_map(|(i, n, b)| Op::CopyPartial(i, n, b)),
        4 => any::<u64>().prop_map(Op::Push),
        3 => pos().prop_map(Op::Read),
        2 => pos().prop_map(Op::ReadInto),
        3 => (pos(), prop_oneof![1u16..6, any::<u16>()]).prop_map(|(a, b)| Op::Range(a, b)),
        2 => (pos(), prop_oneof![1u16..6, any::<u16>()]).prop_map(|(a, b)| Op::RangeInto(a, b)),
        1 => Just(Op::Last),
        1 => Just(Op::Sync),
        1 => Just(Op::Release),
        1 => Just(Op::Drop),
        1 => Just(Op::Reopen),
    ]
}

struct P;
impl Prop for P {
    const ID: &'static str = "C14";
    const RULE: &'static str = "case = (store, capacity, element size, initial elements, a history of writes, bulk writes, appends, reads of elements and ranges, releases and \
        reopenings, at valid, border and invalid positions); compared with an array after every step; non-trivial: at least one bulk write or append and one later read";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = t.pick(2000u16, 20_000);
        (
            prop_oneof![Just(Kind::Vec), Just(Kind::Disk), Just(Kind::DiskFile), Just(Kind::Mmap), Just(Kind::MmapFile), Just(Kind::Lc), Just(Kind::LcBare)],
            prop_oneof![6 => 1u16..24, 2 => 1u16..300, 1 => 1u16..big],
            0u8..4,
            prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
            proptest::collection::vec(op(), 1..40),
            prop_oneof![29 => Just(0u8), 1 => 1u8..6],
        )
            .prop_map(|(kind, size, el, init, ops, far)| Case { kind, size, el, init, ops, far })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(800_000, 12_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c.el {
            0 => dispatch::<El<8>>(c, cx),
            1 => dispatch::<El<20>>(c, cx),
            2 => dispatch::<[u8; 32]>(c, cx),
            _ => dispatch::<El<48>>(c, cx),
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "elements below the length that were never written are not compared".into(),
            "an in-memory store grows instead of refusing, and panics instead of failing for reads past its end".into(),
            "ranges are not empty and buffers fit; reading ranges into a buffer is provided by the disk and level-cache stores only".into(),
            "a level-cache store with a configuration is an array in its base row only, and as large as its tree; other checks cover its cached rows".into(),
        ]
    }
}

fn dispatch<E: RElem>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    cx.label(format!("{:?}", c.kind));
    if c.far > 0 {
        return match c.kind {
            Kind::Vec | Kind::Disk | Kind::DiskFile => sparse::<E, DiskStore<E>>(c, cx),
            Kind::Mmap | Kind::MmapFile => sparse::<E, MmapStore<E>>(c, cx),
            Kind::Lc | Kind::LcBare => sparse::<E, Lc<E>>(c, cx),
        };
    }
    match c.kind {
        Kind::Vec => run::<E, VecStore<E>>(c, cx),
        Kind::Disk | Kind::DiskFile => run::<E, DiskStore<E>>(c, cx),
        Kind::Mmap | Kind::MmapFile => run::<E, MmapStore<E>>(c, cx),
        Kind::Lc | Kind::LcBare => run::<E, Lc<E>>(c, cx),
    }
}

fn val<E: RElem>(seed: u64) -> E {
    E::from_words([fin(seed), fin(seed ^ 1), fin(seed ^ 2), fin(seed ^ 3)])
}

fn run<E: RElem, S: Store<E>>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let dir = cx.dir();
    let lc = c.kind == Kind::Lc;
    let file = matches!(c.kind, Kind::DiskFile | Kind::MmapFile);
    // base row of a binary tree; the rows above are discarded except the root
    let (size, cap, levels) = if lc {
        let levels = 2 + (c.size as u32 % 6);
        (2 * (1usize << levels) - 1, 1usize << levels, levels)
    } else {
        (c.size as usize, c.size as usize, 1)
    };
    let cfg = config(&dir, "s", if lc { levels as usize - 1 } else { 0 });
    let init = c.init as usize % (cap + 1);
    let mut model: Vec<Option<E>> = (0..init).map(|i| Some(val(77 + i as u64))).collect();
    let bytes = to_bytes(&model.iter().map(|x| x.unwrap()).collect::<Vec<E>>());
    let made = if init == 0 {
        if file || lc {
            S::new_with_config(size, 2, cfg.clone())
        } else {
            S::new(size)
        }
    } else if file || lc {
        S::new_from_slice_with_config(size, 2, &bytes, cfg.clone())
    } else {
        S::new_from_slice(size, &bytes)
    };
    let mut s = made.map_err(|e| format!("a store of {} elements: {:?}", size, e))?;
    let grows = c.kind == Kind::Vec;
    let mmap = matches!(c.kind, Kind::Mmap | Kind::MmapFile);
    // positions: small ones, ones around the capacity, any
    let at = |x: u16| -> usize {
        if x >= 40_000 && x < 40_012 {
            (cap + (x - 40_000) as usize).saturating_sub(8)
        } else {
            x as usize % (cap + 2)
        }
    };
    // the level-cache store is an array only up to the end of its base row
    let any_at = at;
    let at = |x: u16| if lc { at(x).min(cap - 1) } else { at(x) };
    let (mut wrote, mut read_after, mut dropped) = (false, false, false);
    for (step, op) in c.ops.iter().enumerate() {
        if dropped {
            // reading is an error until the next change
            match *op {
                Op::Read(i) | Op::ReadInto(i) | Op::Range(i, _) => {
                    let i = at(i);
                    let r = guard(|| match op {
                        Op::Read(_) => s.read_at(i).map(|_| ()),
                        Op::ReadInto(_) => s.read_into(i, &mut vec![0; E::LEN]),
                        _ => s.read_range(i..i + 1).map(|_| ()),
                    });
                    req!(matches!(r, Ok(Err(_))), "step {} ({:?}): reading without the mapping: {:?}", step, op, r.map(|x| x.is_ok()));
                    continue;
                }
                Op::Last | Op::RangeInto(..) => continue,
                // these take the mapping again even if they fail
                Op::Write(..) | Op::Copy(..) | Op::Push(_) | Op::Reopen | Op::Release => dropped = false,
                Op::CopyPartial(..) | Op::Sync | Op::Drop => {}
            }
            if matches!(op, Op::Reopen) && !(file && model.len() == size) {
                dropped = true;
            }
        }
        let err = |e: String| format!("step {} ({:?}): {}", step, op, e);
        let len = model.len();
        match *op {
            // beyond the whole store, rows above the base row included
            Op::Write(i, v) if lc && any_at(i) >= cap => {
                let i = size + any_at(i) - cap;
                let r = guard(|| s.write_at(val(v), i)).map_err(|p| err(format!("panics: {}", p)))?;
                req!(r.is_err(), "{}", err(format!("writing element {} of {} succeeds", i, size)));
            }
            Op::Copy(i, n, v) if lc && any_at(i) >= cap => {
                // at least one element is beyond the end
                let i = size + any_at(i) - cap;
                let back = (n as usize / 7) % 4;
                let n = 1 + back + n as usize % 4;
                let data: Vec<E> = (0..n).map(|k| val(v.wrapping_add(k as u64))).collect();
                let r = guard(|| s.copy_from_slice(&to_bytes(&data), i - back.min(size - cap))).map_err(|p| err(format!("panics: {}", p)))?;
                req!(r.is_err(), "{}", err(format!("writing {} elements at {} of {} succeeds", n, i, size)));
            }
            Op::Write(i, v) => {
                let i = at(i);
                let r = guard(|| s.write_at(val(v), i)).map_err(|p| err(format!("panics: {}", p)))?;
                if i < cap || grows {
                    r.map_err(|e| err(format!("{:?}", e)))?;
                    if len <= i {
                        model.resize(i + 1, None);
                    }
                    model[i] = Some(val(v));
                } else {
                    req!(r.is_err(), "{}", err(format!("writing element {} of {} succeeds", i, cap)));
                }
            }
            Op::Copy(i, n, v) => {
                let i = at(i);
                let n = if lc { (n as usize % (cap + 1)).min(cap - i) } else { n as usize % (cap + 2) };
                let data: Vec<E> = (0..n).map(|k| val(v.wrapping_add(k as u64))).collect();
                let r = guard(|| s.copy_from_slice(&to_bytes(&data), i)).map_err(|p| err(format!("panics: {}", p)))?;
                if i + n <= cap || grows {
                    r.map_err(|e| err(format!("{:?}", e)))?;
                    if len < i + n {
                        model.resize(i + n, None);
                    }
                    for (k, x) in data.iter().enumerate() {
                        model[i + k] = Some(*x);
                    }
                    // an empty copy past the end may count as touching it
                    if n == 0 && s.len() > model.len() && s.len() <= i {
                        model.resize(s.len(), None);
                    }
                    wrote |= n > 0;
                } else {
                    req!(r.is_err(), "{}", err(format!("writing {} elements at {} of {} succeeds", n, i, cap)));
                }
            }
            Op::CopyPartial(i, n, b) => {
                let buf = vec![3u8; n as usize * E::LEN + 1 + (b as usize % (E::LEN - 1))];
                let r = guard(|| s.copy_from_slice(&buf, at(i))).map_err(|p| err(format!("panics: {}", p)))?;
                req!(r.is_err(), "{}", err(format!("writing {} bytes to elements of {} succeeds", buf.len(), E::LEN)));
            }
            Op::Push(v) => {
                if lc && len >= cap {
                    continue;
                }
                let r = guard(|| s.push(val(v))).map_err(|p| err(format!("panics: {}", p)))?;
                if len < cap || grows {
                    r.map_err(|e| err(format!("{:?}", e)))?;
                    model.push(Some(val(v)));
                    wrote = true;
                } else {
                    req!(r.is_err(), "{}", err(format!("appending to a full store of {} succeeds", cap)));
                }
            }
            Op::Read(i) | Op::ReadInto(i) => {
                let i = at(i);
                let into = matches!(op, Op::ReadInto(_));
                let r = guard(|| {
                    if into {
                        let mut buf = vec![0u8; E::LEN];
                        s.read_into(i, &mut buf).map(|_| E::raw(&buf))
                    } else {
                        s.read_at(i)
                    }
                });
                if i < len {
                    let x = r.map_err(|p| err(format!("panics: {}", p)))?.map_err(|e| err(format!("{:?}", e)))?;
                    if let Some(w) = model[i] {
                        req!(x == w, "{}", err(format!("element {} is {} instead of {}", i, hex(x.bytes()), hex(w.bytes()))));
                    }
                    read_after |= wrote;
                } else {
                    outside(grows, r).map_err(|e| err(format!("element {} of {}: {}", i, len, e)))?;
                }
            }
            Op::Range(a, n) | Op::RangeInto(a, n) => {
                let into = matches!(op, Op::RangeInto(..));
                if into && (mmap || grows) {
                    continue;
                }
                let a = at(a);
                let n = 1 + (n as usize) % (cap + 1);
                let b = if lc { (a + n).min(cap) } else { a + n };
                let r = guard(|| {
                    if into {
                        let mut buf = vec![0u8; E::LEN * (b - a)];
                        s.read_range_into(a, b, &mut buf).map(|_| buf.chunks(E::LEN).map(E::raw).collect::<Vec<E>>())
                    } else {
                        s.read_range(a..b)
                    }
                });
                if b <= len {
                    let x = r.map_err(|p| err(format!("panics: {}", p)))?.map_err(|e| err(format!("{:?}", e)))?;
                    req!(x.len() == b - a, "{}", err(format!("{} elements instead of {}", x.len(), b - a)));
                    for (k, x) in x.iter().enumerate() {
                        if let Some(w) = model[a + k] {
                            req!(*x == w, "{}", err(format!("element {} is {} instead of {}", a + k, hex(x.bytes()), hex(w.bytes()))));
                        }
                    }
                    read_after |= wrote;
                } else {
                    outside(grows, r).map_err(|e| err(format!("elements {}..{} of {}: {}", a, b, len, e)))?;
                }
            }
            Op::Last => {
                if len > 0 {
                    let x = s.last().map_err(|e| err(format!("{:?}", e)))?;
                    if let Some(w) = model[len - 1] {
                        req!(x == w, "{}", err("not the last element".into()));
                    }
                }
            }
            Op::Drop => {
                if mmap {
                    s.compact(2, cfg.clone(), 2).map_err(|e| err(format!("{:?}", e)))?;
                    dropped = true;
                    cx.label("released");
                }
            }
            Op::Sync => s.sync().map_err(|e| err(format!("{:?}", e)))?,
            Op::Release => {
                if mmap {
                    s.compact(2, cfg.clone(), 2).map_err(|e| err(format!("{:?}", e)))?;
                    // the next write takes the mapping again by itself; reads need this
                    s.reinit().map_err(|e| err(format!("reinit: {:?}", e)))?;
                } else if !lc {
                    s.reinit().map_err(|e| err(format!("reinit: {:?}", e)))?;
                }
            }
            Op::Reopen => {
                if file && len == size {
                    drop(s);
                    s = S::new_from_disk(size, 2, &cfg).map_err(|e| err(format!("{:?}", e)))?;
                    cx.label("reopened");
                }
            }
        }
        req!(s.len() == model.len(), "{}", err(format!("{} elements instead of {}", s.len(), model.len())));
        req!(s.is_empty() == model.is_empty(), "{}", err("is_empty is wrong".into()));
    }
    if dropped {
        s.reinit().map_err(|e| format!("at the end, reinit: {:?}", e))?;
    }
    // at the end everything is still there
    for (i, w) in model.iter().enumerate() {
        if let Some(w) = w {
            let x = s.read_at(i).map_err(|e| format!("at the end, element {}: {:?}", i, e))?;
            req!(x == *w, "at the end, element {} is {} instead of {}", i, hex(x.bytes()), hex(w.bytes()));
        }
    }
    if file && !mmap && c.init % 2 == 1 && !model.is_empty() {
        // behind its back, the file loses its end
        let path = data_file(&dir, "s");
        let keep = c.init as usize / 2 % (model.len() * E::LEN);
        let whole = read_file(&path).ok_or("no file")?;
        let cut = |n: usize| {
            if let Err(e) = std::fs::OpenOptions::new().write(true).open(&path).and_then(|f| f.set_len(n as u64)) {
                infra(format!("{:?}: {}", path, e));
            }
        };
        cut(keep);
        for (i, w) in model.iter().enumerate() {
            let r = guard(|| s.read_at(i)).map_err(|p| format!("reading element {} of a file that lost its end panics: {}", i, p))?;
            let q = guard(|| s.read_range(i..model.len())).map_err(|p| format!("reading elements {}.. of a file that lost its end panics: {}", i, p))?;
            req!(q.is_err(), "reading elements {}.. of a file that lost its end succeeds", i);
            match (r, w) {
                (Ok(_), _) if (i + 1) * E::LEN > keep => fail!("element {} is read though the file ends before", i),
                (Ok(x), Some(w)) => req!(x == *w, "element {} of a file that lost its end differs", i),
                (Err(e), Some(_)) if (i + 1) * E::LEN <= keep => fail!("element {} of a file that lost its end: {:?}", i, e),
                _ => {}
            }
        }
        cx.label("file lost its end");
        write_file(&path, &whole);
    }
    if file {
        drop(s);
        let b = read_file(&data_file(&dir, "s")).ok_or("no file")?;
        req!(b.len() == size * E::LEN, "the file has {} bytes for {} elements", b.len(), size);
        for (i, w) in model.iter().enumerate() {
            if let Some(w) = w {
                req!(&b[i * E::LEN..(i + 1) * E::LEN] == w.bytes(), "element {} of the file differs", i);
            }
        }
    }
    if wrote && read_after {
        cx.nontrivial();
    }
    Ok(())
}

/// A store of several GB, of which the elements around a border are used.
fn sparse<E: RElem, S: Store<E>>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    cx.label("over 2^31 bytes");
    let dir = cx.dir();
    let size = 8 + c.size as usize % 600;
    let far = (FAR[c.far as usize % FAR.len()] / E::LEN as u64) as usize - size.min(40) / 2;
    let cap = far + size;
    let file = matches!(c.kind, Kind::DiskFile | Kind::MmapFile);
    let cfg = config(&dir, "s", 0);
    let made = if file { S::new_with_config(cap, 2, cfg.clone()) } else { S::new(cap) };
    let mut s = made.map_err(|e| format!("a store of {} elements: {:?}", cap, e))?;
    let into = !matches!(c.kind, Kind::Mmap | Kind::MmapFile);
    let at = |x: u16| if (40_000..40_012).contains(&x) { cap + (x - 40_000) as usize - 8 } else { far + x as usize % (size + 2) };
    let mut model: std::collections::BTreeMap<usize, E> = Default::default();
    let mut len = 0;
    let (mut wrote, mut read_after) = (false, false);
    for (step, op) in c.ops.iter().enumerate() {
        let err = |e: String| format!("{} elements, step {} ({:?}): {}", cap, step, op, e);
        match *op {
            Op::Write(i, v) | Op::Copy(i, _, v) => {
                let i = at(i);
                let (n, r) = match *op {
                    Op::Copy(_, n, _) => {
                        let n = 1 + n as usize % size;
                        let data: Vec<E> = (0..n).map(|k| val(v.wrapping_add(k as u64))).collect();
                        (n, guard(|| s.copy_from_slice(&to_bytes(&data), i)))
                    }
                    _ => (1, guard(|| s.write_at(val(v), i))),
                };
                let r = r.map_err(|p| err(format!("panics: {}", p)))?;
                if i + n <= cap {
                    r.map_err(|e| err(format!("{:?}", e)))?;
                    for k in 0..n {
                        model.insert(i + k, val(v.wrapping_add(k as u64)));
                    }
                    len = len.max(i + n);
                    wrote = true;
                } else {
                    req!(r.is_err(), "{}", err(format!("writing {} elements at {} succeeds", n, i)));
                }
            }
            Op::Push(v) if len > 0 => {
                let r = guard(|| s.push(val(v))).map_err(|p| err(format!("panics: {}", p)))?;
                if len < cap {
                    r.map_err(|e| err(format!("{:?}", e)))?;
                    model.insert(len, val(v));
                    len += 1;
                    wrote = true;
                } else {
                    req!(r.is_err(), "{}", err("appending to a full store succeeds".into()));
                }
            }
            Op::Read(i) | Op::ReadInto(i) => {
                let i = at(i);
                let r = guard(|| {
                    if matches!(op, Op::ReadInto(_)) {
                        let mut buf = vec![0u8; E::LEN];
                        s.read_into(i, &mut buf).map(|_| E::raw(&buf))
                    } else {
                        s.read_at(i)
                    }
                });
                if i < len {
                    let x = r.map_err(|p| err(format!("panics: {}", p)))?.map_err(|e| err(format!("{:?}", e)))?;
                    if let Some(w) = model.get(&i) {
                        req!(x == *w, "{}", err(format!("element {} is {} instead of {}", i, hex(x.bytes()), hex(w.bytes()))));
                        read_after |= wrote;
                    }
                } else {
                    outside(false, r).map_err(|e| err(format!("element {} of {}: {}", i, len, e)))?;
                }
            }
            Op::Range(a, n) | Op::RangeInto(a, n) => {
                if matches!(op, Op::RangeInto(..)) && !into {
                    continue;
                }
                let a = at(a);
                let b = a + 1 + n as usize % size;
                let r = guard(|| {
                    if matches!(op, Op::RangeInto(..)) {
                        let mut buf = vec![0u8; E::LEN * (b - a)];
                        s.read_range_into(a, b, &mut buf).map(|_| buf.chunks(E::LEN).map(E::raw).collect::<Vec<E>>())
                    } else {
                        s.read_range(a..b)
                    }
                });
                if b <= len {
                    let x = r.map_err(|p| err(format!("panics: {}", p)))?.map_err(|e| err(format!("{:?}", e)))?;
                    req!(x.len() == b - a, "{}", err(format!("{} elements instead of {}", x.len(), b - a)));
                    for (k, x) in x.iter().enumerate() {
                        if let Some(w) = model.get(&(a + k)) {
                            req!(x == w, "{}", err(format!("element {} is {} instead of {}", a + k, hex(x.bytes()), hex(w.bytes()))));
                            read_after |= wrote;
                        }
                    }
                } else {
                    outside(false, r).map_err(|e| err(format!("elements {}..{} of {}: {}", a, b, len, e)))?;
                }
            }
            Op::Last if len > 0 => {
                let x = s.last().map_err(|e| err(format!("{:?}", e)))?;
                if let Some(w) = model.get(&(len - 1)) {
                    req!(x == *w, "{}", err("not the last element".into()));
                }
            }
            Op::Reopen if file && len == cap => {
                drop(s);
                s = S::new_from_disk(cap, 2, &cfg).map_err(|e| err(format!("{:?}", e)))?;
                cx.label("reopened (over 2^31 bytes)");
            }
            _ => {}
        }
        req!(s.len() == len, "{}", err(format!("{} elements instead of {}", s.len(), len)));
    }
    for (i, w) in &model {
        let x = s.read_at(*i).map_err(|e| format!("at the end, element {}: {:?}", i, e))?;
        req!(x == *w, "{} elements, at the end, element {} is {} instead of {}", cap, i, hex(x.bytes()), hex(w.bytes()));
    }
    if wrote && read_after {
        cx.nontrivial();
    }
    Ok(())
}

fn outside<T>(grows: bool, r: Result<anyhow::Result<T>, String>) -> Result<(), String> {
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err("reading past the end succeeds".into()),
        Err(_) if grows => Ok(()),
        Err(p) => Err(format!("reading past the end panics: {}", p)),
    }
}

fn main() {
    mtverif::main::<P>()
}
