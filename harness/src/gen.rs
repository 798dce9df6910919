//! Shared generators and small helpers.
use crate::model::*;
use merkletree::store::{LevelCacheStore, StoreConfig};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;

pub type Lc<E> = LevelCacheStore<E, std::fs::File>;

/// What the leaves are: everything is a function of these two numbers.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Leaves {
    pub seed: u64,
    pub mode: u8,
}
impl Leaves {
    /// `n` items (before the leaf hash)
    pub fn items<E: RElem>(&self, n: usize) -> Vec<E> {
        let s = fin(self.seed.wrapping_add(0x9E37_79B9));
        (0..n as u64)
            .map(|i| {
                let k = match self.mode {
                    0 => i,               // all different
                    1 => 0,               // all equal
                    2 => fin(i ^ s) % 3,  // three values
                    3 => return E::raw(&vec![0u8; E::LEN]),
                    4 => i / 5,           // runs
                    5 => i % 8,           // repeating
                    _ => {
                        // plain counter, little entropy
                        let mut v = vec![0u8; E::LEN];
                        v[..8.min(E::LEN)].copy_from_slice(&i.to_le_bytes()[..8.min(E::LEN)]);
                        return E::raw(&v);
                    }
                };
                let a = fin(s ^ k.wrapping_mul(0xD6E8_FEB8_6659_FD93));
                E::from_words([a, fin(a ^ 1), fin(a ^ 2), fin(a ^ 3)])
            })
            .collect()
    }
    pub fn repeats(&self) -> bool {
        matches!(self.mode, 1..=5)
    }
    pub fn offset(&self, k: u64) -> Leaves {
        Leaves { seed: self.seed.wrapping_mul(31).wrapping_add(k).wrapping_add(1), mode: self.mode }
    }
}
pub fn leaves() -> impl Strategy<Value = Leaves> + Clone {
    (
        prop_oneof![4 => 0u64..16, 4 => any::<u64>()],
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8), 1 => Just(5u8), 1 => Just(6u8)],
    )
        .prop_map(|(seed, mode)| Leaves { seed, mode })
}
/// all leaves different: what order-sensitive checks want
pub fn distinct_leaves() -> impl Strategy<Value = Leaves> + Clone {
    (prop_oneof![4 => 0u64..16, 4 => any::<u64>()], prop_oneof![7 => Just(0u8), 1 => Just(6u8)])
        .prop_map(|(seed, mode)| Leaves { seed, mode })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum StoreKind {
    Vec,
    Disk,
    Mmap,
}
pub fn store_kind() -> impl Strategy<Value = StoreKind> + Clone {
    prop_oneof![Just(StoreKind::Vec), Just(StoreKind::Disk), Just(StoreKind::Mmap)]
}

/// (arity, number of levels above the leaves)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Shape {
    pub arity: usize,
    pub levels: u32,
}
impl Shape {
    pub fn leafs(&self) -> usize {
        self.arity.pow(self.levels)
    }
    pub fn rows(&self) -> usize {
        self.levels as usize + 1
    }
    /// levels above the base that may be dropped while the root row stays
    pub fn max_discard(&self) -> usize {
        self.levels as usize - 1
    }
    pub fn len(&self) -> usize {
        (0..=self.levels).map(|k| self.arity.pow(k)).sum()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
}
/// Shapes with at most `max` leaves; `big` of them (in percent) above `mid` leaves.
pub fn shape(arities: &'static [usize], mid: usize, max: usize, big: u32, min_levels: u32) -> BoxedStrategy<Shape> {
    let upto = move |lo: usize, hi: usize| {
        let mut v = vec![];
        for &a in arities {
            let mut l = min_levels;
            loop {
                match a.checked_pow(l) {
                    Some(n) if n <= hi => {
                        if n > lo {
                            v.push(Shape { arity: a, levels: l });
                        }
                    }
                    _ => break,
                }
                l += 1;
            }
        }
        // simplest first: selection shrinks towards the front
        v.sort_by_key(|s| (s.leafs(), s.arity));
        v
    };
    let small = upto(0, mid);
    let large = upto(mid, max);
    assert!(!small.is_empty());
    if large.is_empty() || big == 0 {
        return proptest::sample::select(small).boxed();
    }
    prop_oneof![
        (100 - big) => proptest::sample::select(small),
        big => proptest::sample::select(large),
    ]
    .boxed()
}
pub const ARITIES: &[usize] = &[2, 4, 8, 16, 64];

pub fn config(dir: &Path, id: &str, rows_to_discard: usize) -> StoreConfig {
    StoreConfig::new(dir, id, rows_to_discard)
}
/// where the documentation of the store config puts a tree
pub fn data_file(dir: &Path, id: &str) -> std::path::PathBuf {
    dir.join(format!("sc-02-data-{}.dat", id))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().take(12).map(|x| format!("{:02x}", x)).collect()
}
/// first difference between two element sequences
pub fn diff<E: RElem>(got: &[E], want: &[E]) -> Option<String> {
    if got == want {
        return None;
    }
    if got.len() != want.len() {
        return Some(format!("{} elements instead of {}", got.len(), want.len()));
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
    Some(format!("element {} is {} instead of {}", i, hex(got[i].bytes()), hex(want[i].bytes())))
}
/// spread of positions to look at: edges, chunk borders and pseudo-random ones
pub fn positions(n: usize, seed: u64, max: usize) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, 2, n / 2 - 1, n / 2, n - 2, n - 1];
    for b in [63, 64, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 262143, 262144, 262145] {
        if b < n {
            v.push(b);
        }
    }
    let mut k = 0u64;
    while v.len() < max {
        v.push((fin(seed ^ fin(k)) % n as u64) as usize);
        k += 1;
    }
    v.retain(|x| *x < n);
    v.sort_unstable();
    v.dedup();
    v
}

use merkletree::merkle::MerkleTree;
use merkletree::proof::Proof;
use merkletree::store::{ExternalReader, Store};
use typenum::Unsigned;

/// Field by field comparison of a proof with the reference proof.
pub fn same_proof<E: RElem, B: Unsigned>(p: &Proof<E, B>, r: &RefProof<E>) -> Result<(), String> {
    if let Some(d) = diff(p.lemma(), &r.lemma) {
        return Err(format!("lemma: {}", d));
    }
    if p.path() != &r.path {
        return Err(format!("path is {:?} instead of {:?}", p.path(), r.path));
    }
    if (p.top_layer_nodes(), p.sub_layer_nodes()) != (r.top, r.sub) {
        return Err(format!("layer arities ({}, {}) instead of ({}, {})", p.top_layer_nodes(), p.sub_layer_nodes(), r.top, r.sub));
    }
    match (&p.sub_tree_proof, &r.inner) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => same_proof(a, b).map_err(|e| format!("inner proof: {}", e)),
        (a, _) => Err(format!("inner proof present: {}", a.is_some())),
    }
}

/// Everything observable of a (full) base tree against the reference.
pub fn same_tree<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(
    t: &MerkleTree<E, A, S, B>,
    r: &RefTree<E>,
    seed: u64,
    proofs: usize,
) -> Result<(), String> {
    same_header(t, r)?;
    let flat = r.flat();
    let all = t.read_range(0, flat.len()).map_err(|e| format!("read_range of everything: {:?}", e))?;
    if let Some(d) = diff(&all, &flat) {
        return Err(format!("contents: {}", d));
    }
    for i in positions(flat.len(), seed ^ 5, 40) {
        let e = t.read_at(i).map_err(|e| format!("read_at({}): {:?}", i, e))?;
        if e != flat[i] {
            return Err(format!("read_at({}) differs", i));
        }
    }
    for i in positions(r.leaves().len(), seed, proofs) {
        let p = t.gen_proof(i).map_err(|e| format!("gen_proof({}): {:?}", i, e))?;
        same_proof(&p, &r.ref_proof(i)).map_err(|e| format!("proof of leaf {}: {}", i, e))?;
        match p.validate::<A>() {
            Ok(true) => {}
            o => return Err(format!("proof of leaf {} does not validate: {:?}", i, o)),
        }
    }
    Ok(())
}
pub fn same_header<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(
    t: &MerkleTree<E, A, S, B>,
    r: &RefTree<E>,
) -> Result<(), String> {
    if t.root() != r.root() {
        return Err(format!("root is {} instead of {}", hex(t.root().bytes()), hex(r.root().bytes())));
    }
    let got = (t.leafs(), t.len(), t.row_count());
    let want = (r.leaves().len(), r.len(), r.rows.len());
    if got != want {
        return Err(format!("(leafs, len, row_count) is {:?} instead of {:?}", got, want));
    }
    Ok(())
}
/// What a level-cache backed tree must still answer: its header, its leaves and cached proofs.
pub fn same_lc_tree<E: RElem, A: RefAlg<E>, B: Unsigned, R: std::io::Read + Send + Sync>(
    t: &MerkleTree<E, A, LevelCacheStore<E, R>, B>,
    r: &RefTree<E>,
    discarded: usize,
    seed: u64,
    proofs: usize,
) -> Result<(), String> {
    same_header(t, r)?;
    let flat = r.flat();
    let n = r.leaves().len();
    let cache_start = flat.len() - r.cached(discarded).len();
    for i in positions(n, seed ^ 9, 40).into_iter().chain(positions(flat.len() - cache_start, seed ^ 8, 30).into_iter().map(|x| x + cache_start)) {
        let e = t.read_at(i).map_err(|e| format!("read_at({}): {:?}", i, e))?;
        if e != flat[i] {
            return Err(format!("read_at({}) is {} instead of {}", i, hex(e.bytes()), hex(flat[i].bytes())));
        }
    }
    for i in positions(n, seed, proofs) {
        // a discard count that matches the store must work; the default may be smaller than it
        let want = r.ref_proof(i);
        match t.gen_cached_proof(i, Some(discarded)) {
            Ok(p) => {
                same_proof(&p, &want).map_err(|e| format!("cached proof of leaf {}: {}", i, e))?;
                match p.validate::<A>() {
                    Ok(true) => {}
                    o => return Err(format!("cached proof of leaf {} does not validate: {:?}", i, o)),
                }
            }
            Err(e) => {
                if discarded <= default_discard(r.arity, r.rows.len() - 1) {
                    return Err(format!("gen_cached_proof({}, {}): {:?}", i, discarded, e));
                }
            }
        }
        // without the discarded rows a full proof is right or refused
        if let Ok(p) = t.gen_proof(i) {
            same_proof(&p, &want).map_err(|e| format!("full proof of leaf {}: {}", i, e))?;
        }
    }
    Ok(())
}
/// documented default: at most 7 (binary), 5 (quad) or 2 rows, and never the top row
pub fn default_discard(arity: usize, levels: usize) -> usize {
    let cap = match arity {
        2 => 7,
        4 => 5,
        _ => 2,
    };
    cap.min(levels - 1)
}

pub fn write_file(p: &Path, b: &[u8]) {
    if let Err(e) = std::fs::write(p, b) {
        crate::runner::infra(format!("{:?}: {}", p, e));
    }
}
pub fn file_reader(p: &Path) -> ExternalReader<std::fs::File> {
    match ExternalReader::new_from_path(p) {
        Ok(r) => r,
        Err(e) => crate::runner::infra(format!("{:?}: {:?}", p, e)),
    }
}
pub fn read_file(p: &Path) -> Option<Vec<u8>> {
    match std::fs::read(p) {
        Ok(b) => Some(b),
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
        Err(e) => crate::runner::infra(format!("{:?}: {}", p, e)),
    }
}

/// Shapes of trees of trees the checks instantiate: (base arity, sub, top).
pub const COMPOUNDS: &[(usize, usize, usize)] = &[
    (2, 1, 0),
    (2, 2, 0),
    (2, 3, 0),
    (4, 4, 0),
    (2, 5, 0),
    (8, 7, 0),
    (4, 2, 2),
    (2, 3, 2),
    (2, 1, 3),
    (8, 4, 1),
    (4, 2, 5),
];
#[macro_export]
macro_rules! with_compound {
    ($k:expr, $E:ident, $A:ident, $B:ident, $Sub:ident, $Top:ident, $body:expr) => {{
        use typenum::*;
        match $k {
            0 => $crate::bindc!($E = [u8; 32], $A = $crate::Mix, $B = U2, $Sub = U1, $Top = U0, $body),
            1 => $crate::bindc!($E = $crate::El<20>, $A = $crate::MixH, $B = U2, $Sub = U2, $Top = U0, $body),
            2 => $crate::bindc!($E = [u8; 32], $A = $crate::MixH, $B = U2, $Sub = U3, $Top = U0, $body),
            3 => $crate::bindc!($E = $crate::El<8>, $A = $crate::Mix, $B = U4, $Sub = U4, $Top = U0, $body),
            4 => $crate::bindc!($E = [u8; 32], $A = $crate::Mix, $B = U2, $Sub = U5, $Top = U0, $body),
            5 => $crate::bindc!($E = $crate::El<20>, $A = $crate::MixH, $B = U8, $Sub = U7, $Top = U0, $body),
            6 => $crate::bindc!($E = [u8; 32], $A = $crate::MixH, $B = U4, $Sub = U2, $Top = U2, $body),
            7 => $crate::bindc!($E = $crate::El<8>, $A = $crate::Mix, $B = U2, $Sub = U3, $Top = U2, $body),
            8 => $crate::bindc!($E = [u8; 32], $A = $crate::Mix, $B = U2, $Sub = U1, $Top = U3, $body),
            9 => $crate::bindc!($E = [u8; 32], $A = $crate::MixH, $B = U8, $Sub = U4, $Top = U1, $body),
            10 => $crate::bindc!($E = $crate::El<20>, $A = $crate::MixH, $B = U4, $Sub = U2, $Top = U5, $body),
            o => $crate::infra(format!("compound {}", o)),
        }
    }};
}
#[macro_export]
macro_rules! bindc {
    ($E:ident = $e:ty, $A:ident = $a:ty, $B:ident = $b:ty, $Sub:ident = $s:ty, $Top:ident = $t:ty, $body:expr) => {{
        type $E = $e;
        type $A = $a;
        type $B = $b;
        type $Sub = $s;
        type $Top = $t;
        $body
    }};
}
/// Levels of the base trees of compound `k`, at most `max` leaves each.
pub fn compound_levels(k: usize, max: usize) -> Vec<u32> {
    let a = COMPOUNDS[k].0;
    (1..20).take_while(|l| a.pow(*l) <= max).collect()
}
pub fn compound(max: usize) -> BoxedStrategy<(usize, u32)> {
    (0..COMPOUNDS.len())
        .prop_flat_map(move |k| (Just(k), proptest::sample::select(compound_levels(k, max))))
        .boxed()
}
/// Reference compound with different leaves in every base tree.
pub fn ref_compound<E: RElem, A: RefAlg<E>>(k: usize, levels: u32, leaves: Leaves) -> (RefCompound<E>, Vec<Vec<E>>) {
    let (a, sub, top) = COMPOUNDS[k];
    let n = a.pow(levels);
    let items: Vec<Vec<E>> = (0..sub * top.max(1)).map(|b| leaves.offset(b as u64).items(n)).collect();
    let bases = items.iter().map(|v| RefTree::from_items::<A>(v, a)).collect();
    (RefCompound::new::<A>(bases, sub, top), items)
}
