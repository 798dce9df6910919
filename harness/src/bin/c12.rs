//! C12: the size functions describe the trees that are built.
use merkletree::merkle::{
    get_merkle_proof_lemma_len, get_merkle_tree_cache_size, get_merkle_tree_leafs, get_merkle_tree_len, get_merkle_tree_len_generic, get_merkle_tree_row_count,
    is_merkle_tree_size_valid, log2_pow2, next_pow2,
};
use merkletree::store::StoreConfig;
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// everything about the tree of arity^levels leaves
    Tree { log_arity: u32, levels: u32, discard: usize },
    /// is this the length of a tree?
    Len { log_arity: u32, len: u64 },
    /// is this a number of leaves of a tree?
    Leafs { arity: usize, leafs: u64 },
    /// powers of two
    Pow { n: u64 },
    Generic { k: usize, levels: u32 },
}
/// up to this many leaves
const MAX_LOG: u32 = 48;

fn near_tree(t: u32) -> BoxedStrategy<u64> {
    // the neighbourhood of a tree length or of a power
    (1u32..7, 1u32..MAX_LOG, -3i64..4, prop::bool::ANY)
        .prop_map(move |(la, l, d, leafs)| {
            let la = if t > 0 { t } else { la };
            let l = l.min(MAX_LOG / la);
            let n = if leafs { 1u64 << (la * l) } else { (0..=l).map(|k| 1u64 << (la * k)).sum() };
            (n as i64 + d).max(1) as u64
        })
        .boxed()
}

struct P;
impl Prop for P {
    const ID: &'static str = "C12";
    const RULE: &'static str = "case = (arity, levels, discard count), a candidate tree length, a candidate number of leaves, or an integer; compared with sums of rows written out \
        one by one; non-trivial: at least two levels, or a candidate above one";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        let any_n = || prop_oneof![3 => near_tree(0), 1 => 1u64..5000, 1 => 1u64..(1 << MAX_LOG)];
        prop_oneof![
            4 => (1u32..7, 1u32..MAX_LOG + 1, prop_oneof![3 => 0usize..60, 1 => 0usize..4]).prop_map(|(log_arity, levels, discard)| Case::Tree {
                log_arity,
                levels: 1 + (levels - 1) % (MAX_LOG / log_arity),
                discard,
            }),
            4 => (1u32..7).prop_flat_map(move |la| (Just(la), prop_oneof![3 => near_tree(la), 1 => near_tree(0), 1 => 1u64..5000, 1 => 1u64..(1 << MAX_LOG)])).prop_map(|(log_arity, len)| Case::Len { log_arity, len }),
            3 => (prop_oneof![3 => (1u32..7).prop_map(|k| 1usize << k), 1 => 0usize..130], any_n()).prop_map(|(arity, leafs)| Case::Leafs { arity, leafs }),
            1 => prop_oneof![near_tree(0), 1u64..(1 << 62)].prop_map(|n| Case::Pow { n }),
            1 => (0usize..COMPOUNDS.len(), 1u32..20).prop_map(|(k, levels)| Case::Generic { k, levels }),
        ]
        .boxed()
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for log_arity in 1..=6 {
            for levels in 1..=MAX_LOG / log_arity {
                for discard in 0..=levels as usize + 1 {
                    v.push(Case::Tree { log_arity, levels, discard });
                }
            }
            for len in 1..3000 {
                v.push(Case::Len { log_arity, len });
            }
        }
        for arity in 0..70usize {
            for leafs in 1..140 {
                v.push(Case::Leafs { arity, leafs });
            }
        }
        v
    }
    fn cases(t: Tier) -> u32 {
        t.pick(3_000_000, 60_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match *c {
            Case::Tree { log_arity, levels, discard } => {
                cx.label("tree");
                if levels > 1 {
                    cx.nontrivial();
                }
                tree(1usize << log_arity, levels as usize, discard)
            }
            Case::Len { log_arity, len } => {
                cx.label("length");
                if len > 1 {
                    cx.nontrivial();
                }
                length(1usize << log_arity, len as usize, cx)
            }
            Case::Leafs { arity, leafs } => {
                cx.label("leafs");
                if leafs > 1 {
                    cx.nontrivial();
                }
                leaf_count(arity, leafs as usize, cx)
            }
            Case::Pow { n } => {
                cx.label("power of two");
                if n > 1 {
                    cx.nontrivial();
                }
                let n = n as usize;
                let mut p = 1usize;
                let mut l = 0;
                while p < n {
                    p *= 2;
                    l += 1;
                }
                req!(next_pow2(n) == p, "next_pow2({}) = {} instead of {}", n, next_pow2(n), p);
                req!(log2_pow2(p) == l, "log2_pow2({}) = {} instead of {}", p, log2_pow2(p), l);
                Ok(())
            }
            Case::Generic { k, levels } => {
                cx.label("tree of trees");
                cx.nontrivial();
                let (a, sub, top) = COMPOUNDS[k];
                let n = a.pow(levels);
                let base: usize = (0..=levels).map(|l| a.pow(l)).sum();
                let mid = base * sub + 1;
                let want = if top > 0 { mid * top + 1 } else { mid };
                let (got, plain, two) = with_compound!(k, E, A, B, Sub, Top, {
                    let _ = std::marker::PhantomData::<(E, A)>;
                    (get_merkle_tree_len_generic::<B, Sub, Top>(n), get_merkle_tree_len_generic::<B, U0, U0>(n), get_merkle_tree_len_generic::<B, Sub, U0>(n))
                });
                req!(ok(&got) == Some(want), "length of the tree of trees {:?} over {} leaves: {:?} instead of {}", COMPOUNDS[k], n, got, want);
                req!(ok(&plain) == Some(base), "generic length of a base tree: {:?} instead of {}", plain, base);
                req!(ok(&two) == Some(mid), "generic length of a two-layer tree: {:?} instead of {}", two, mid);
                Ok(())
            }
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            format!("arities 2 to 64 (powers of two) and at most 2^{} leaves; lengths of trees with a leaf count that is no power of the arity are not compared", MAX_LOG),
            "an arity of one is outside the domain: the validity test does not end there".into(),
        ]
    }
}
fn ok<T: Copy>(r: &anyhow::Result<T>) -> Option<T> {
    r.as_ref().ok().copied()
}

fn tree(arity: usize, levels: usize, discard: usize) -> Result<(), String> {
    let n = arity.pow(levels as u32);
    // widths of the rows, leaves first
    let mut rows = vec![n];
    while *rows.last().unwrap() > 1 {
        rows.push(rows.last().unwrap() / arity);
    }
    let len: usize = rows.iter().sum();
    let at = format!("{} leaves, arity {}", n, arity);
    let got = get_merkle_tree_len(n, arity);
    req!(ok(&got) == Some(len), "length for {}: {:?} instead of {}", at, got, len);
    let got = get_merkle_tree_row_count(n, arity);
    req!(got == rows.len(), "row count for {}: {} instead of {}", at, got, rows.len());
    let got = get_merkle_tree_leafs(len, arity);
    req!(ok(&got) == Some(n), "leaves of a tree of {} elements, arity {}: {:?} instead of {}", len, arity, got, n);
    req!(is_merkle_tree_size_valid(n, arity), "{} is called invalid", at);
    let got = get_merkle_proof_lemma_len(rows.len(), arity);
    let want = 2 + rows[..rows.len() - 1].iter().map(|_| arity - 1).sum::<usize>();
    req!(got == want, "proof length for {}: {} instead of {}", at, got, want);
    let got = get_merkle_tree_cache_size(n, arity, discard);
    if discard + 1 <= levels {
        let want: usize = rows[1 + discard..].iter().sum();
        req!(ok(&got) == Some(want), "cached elements for {} discarding {}: {:?} instead of {}", at, discard, got, want);
    } else {
        req!(got.is_err(), "cached elements for {} discarding {}: {:?} instead of an error", at, discard, got);
    }
    let got = StoreConfig::default_rows_to_discard(n, arity);
    let want = default_discard(arity, levels);
    req!(got == want, "default discard for {}: {} instead of {}", at, got, want);
    Ok(())
}
fn length(arity: usize, len: usize, cx: &mut Cx) -> Result<(), String> {
    // grow trees until they are at least that long
    let (mut n, mut sum) = (1usize, 1usize);
    while sum < len {
        n *= arity;
        sum += n;
    }
    let got = get_merkle_tree_leafs(len, arity);
    if sum == len {
        cx.label("length of a tree");
        req!(ok(&got) == Some(n), "leaves of a tree of {} elements, arity {}: {:?} instead of {}", len, arity, got, n);
    } else {
        cx.label("length of no tree");
        req!(got.is_err(), "{} elements are no tree of arity {}, yet have {:?} leaves", len, arity, got);
    }
    Ok(())
}
fn leaf_count(arity: usize, leafs: usize, cx: &mut Cx) -> Result<(), String> {
    if arity == 1 {
        cx.label("outside the domain");
        return Ok(());
    }
    let power = arity >= 2 && {
        let mut x = 1usize;
        while x < leafs {
            x = x.saturating_mul(arity);
        }
        x == leafs
    };
    let valid = power && arity.is_power_of_two();
    cx.label(if valid { "valid leaf count" } else { "invalid leaf count" });
    let got = is_merkle_tree_size_valid(leafs, arity);
    req!(got == valid, "{} leaves of arity {} are called {}", leafs, arity, if got { "valid" } else { "invalid" });
    if !arity.is_power_of_two() || leafs < arity || (arity == 2 && !leafs.is_power_of_two()) {
        let got = get_merkle_tree_len(leafs, arity);
        req!(got.is_err(), "length for {} leaves, arity {}: {:?} instead of an error", leafs, arity, got);
    }
    if !arity.is_power_of_two() {
        let got = get_merkle_tree_leafs(leafs, arity);
        req!(got.is_err(), "leaves of a tree of {} elements, arity {}: {:?} instead of an error", leafs, arity, got);
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
