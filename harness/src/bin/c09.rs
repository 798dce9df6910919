//! C09: a store that dropped rows never passes off anything else as their contents.
use merkletree::merkle::MerkleTree;
use merkletree::store::{DiskStore, LevelCacheStore, Store};
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Origin {
    V1,
    V2,
    Direct,
    /// a complete tree handed over as bytes
    Slice,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Read {
    At(u32),
    Into(u32),
    Range(u32, u32),
    RangeInto(u32, u32),
    /// element relative to a border (0: first cached, 1: first dropped, 2: end)
    Near(u8, i8, u8),
    Last,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    origin: Origin,
    discard: u8,
    leaves: Leaves,
    reads: Vec<Read>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C09";
    const RULE: &'static str = "case = (shape, how the compact store came about, discard count, a sequence of reads of elements and ranges, many around the borders of the kept rows); \
        non-trivial: at least one read succeeds and one touches dropped rows";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let read = prop_oneof![
            2 => any::<u32>().prop_map(Read::At),
            1 => any::<u32>().prop_map(Read::Into),
            3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Read::Range(a, b)),
            3 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Read::RangeInto(a, b)),
            6 => (0u8..3, -4i8..5, 0u8..7).prop_map(|(a, b, c)| Read::Near(a, b, c)),
            1 => Just(Read::Last),
        ];
        (
            shape(ARITIES, 1024, 4096, 10, 1),
            0u8..2,
            prop_oneof![Just(Origin::V1), Just(Origin::V2), Just(Origin::Direct), Just(Origin::Slice)],
            any::<u8>(),
            distinct_leaves(),
            proptest::collection::vec(read, 1..24),
        )
            .prop_map(|(shape, ea, origin, discard, leaves, reads)| Case { shape, ea, origin, discard, leaves, reads })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(200_000, 3_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, go::<E, A, B>(c, cx))
    }
    fn assumptions() -> Vec<String> {
        vec!["a range over both the base row and the cached rows may be refused even if nothing lies between them".into()]
    }
}

type L<E, A, B> = MerkleTree<E, A, Lc<E>, B>;

fn go<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let levels = c.shape.levels as usize;
    let arity = c.shape.arity;
    let d = c.discard as usize % levels;
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, arity);
    let flat = r.flat();
    let dir = cx.dir();
    let cfg = config(&dir, "t", d);
    let rep = dir.join("replica");
    write_file(&rep, &to_bytes(r.leaves()));
    cx.label(format!("{:?}", c.origin));
    let t: L<E, A, B> = match c.origin {
        Origin::Direct => {
            let mut t = L::<E, A, B>::new_with_config(items.iter().copied(), cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
            t.set_external_reader_path(&rep).map_err(|e| format!("set reader: {:?}", e))?;
            t
        }
        Origin::Slice => L::<E, A, B>::from_tree_slice_with_config(&to_bytes(&flat), n, cfg.clone()).map_err(|e| format!("from slice: {:?}", e))?,
        _ => {
            let mut t = MerkleTree::<E, A, DiskStore<E>, B>::new_with_config(items.iter().copied(), cfg.clone()).map_err(|e| format!("build: {:?}", e))?;
            let v = if c.origin == Origin::V1 { 1 } else { 2 };
            t.compact(cfg.clone(), v).map_err(|e| format!("compact: {:?}", e))?;
            let s: Lc<E> = if v == 1 {
                Lc::<E>::new_from_disk(r.len(), arity, &cfg)
            } else {
                LevelCacheStore::new_from_disk_with_reader(r.len(), arity, &cfg, file_reader(&rep))
            }
            .map_err(|e| format!("reopen: {:?}", e))?;
            L::<E, A, B>::from_data_store(s, n).map_err(|e| format!("reopen as tree: {:?}", e))?
        }
    };
    let s = t.data().ok_or("no store")?;
    let len = flat.len();
    let cache_start = len - r.cached(d).len();
    req!(s.len() == len && t.len() == len && !s.is_empty(), "len() is {} instead of {}", s.len(), len);
    let (mut good, mut gone) = (false, false);
    for rd in &c.reads {
        // a bit beyond the end, so that both sides of every border are tried
        let span = len + 3;
        let (a, b, how) = match *rd {
            Read::At(i) => (i as usize % span, i as usize % span + 1, 0),
            Read::Into(i) => (i as usize % span, i as usize % span + 1, 1),
            Read::Range(i, k) => {
                let a = i as usize % span;
                (a, a + 1 + k as usize % (span - a), 2)
            }
            Read::RangeInto(i, k) => {
                let a = i as usize % span;
                (a, a + 1 + k as usize % (span - a), 3)
            }
            Read::Near(w, o, k) => {
                let at = [cache_start, n, len][w as usize] as i64 + o as i64;
                let a = at.max(0) as usize;
                (a, a + 1 + k as usize / 2, 2 + (k as usize) % 2)
            }
            Read::Last => (len - 1, len, 4),
        };
        let got: Result<anyhow::Result<Vec<u8>>, String> = guard(|| match how {
            0 => s.read_at(a).map(|e| e.bytes().to_vec()),
            1 => {
                let mut v = vec![0xEE; E::LEN];
                s.read_into(a, &mut v).map(|_| v)
            }
            2 => t.read_range(a, b).map(|v| to_bytes(&v)),
            3 => {
                let mut v = vec![0xEE; (b - a) * E::LEN];
                t.read_range_into(a, b, &mut v).map(|_| v)
            }
            _ => s.last().map(|e| e.bytes().to_vec()),
        });
        let got = match got {
            Ok(x) => x,
            Err(p) => fail!("reading {}..{} panics: {}", a, b, p),
        };
        let where_ = format!("reading {}..{} (base ends at {}, cached rows start at {}, len {})", a, b, n, cache_start, len);
        if b > len {
            req!(got.is_err(), "{} is no error", where_);
        } else if a < cache_start && b > n {
            if a < n && b > cache_start && cache_start == n {
                // nothing dropped in between
                if let Ok(v) = &got {
                    req!(*v == to_bytes(&flat[a..b]), "{} gives something else", where_);
                }
            } else {
                gone = true;
                req!(got.is_err(), "{} gives data for dropped rows", where_);
            }
        } else {
            good = true;
            let v = got.map_err(|e| format!("{}: {:?}", where_, e))?;
            req!(v == to_bytes(&flat[a..b]), "{} gives something else", where_);
        }
        cx.count("reads", 1);
    }
    if good && gone {
        cx.nontrivial();
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
