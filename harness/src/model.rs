//! Element types, hash algorithms and the reference (specification) model.
//!
//! Nothing in this file calls into the library for a *result*: the reference
//! hashes are computed from raw bytes, so a change in the library's own
//! defaults (prefixes, order of children, resets) is visible as a difference.

use merkletree::hash::Algorithm;
use merkletree::merkle::Element;
use std::hash::Hasher;

/// An N byte element.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct El<const N: usize>(pub [u8; N]);

impl<const N: usize> Default for El<N> {
    fn default() -> Self {
        El([0u8; N])
    }
}
impl<const N: usize> AsRef<[u8]> for El<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Element for El<N> {
    fn byte_len() -> usize {
        N
    }
    fn from_slice(bytes: &[u8]) -> Self {
        assert_eq!(bytes.len(), N, "element slice has the wrong length");
        let mut a = [0u8; N];
        a.copy_from_slice(bytes);
        El(a)
    }
    fn copy_to_slice(&self, bytes: &mut [u8]) {
        bytes.copy_from_slice(&self.0);
    }
}

/// What the harness needs of an element.
pub trait RElem: Element + Copy + 'static {
    const LEN: usize;
    fn raw(bytes: &[u8]) -> Self;
    fn from_words(w: [u64; 4]) -> Self {
        let mut out = vec![0u8; Self::LEN];
        let mut x = w;
        let mut i = 0;
        while i < out.len() {
            let k = (i / 8) % 4;
            if i > 0 && k == 0 {
                for v in x.iter_mut() {
                    *v = fin(*v ^ 0x5851_F42D_4C95_7F2D);
                }
            }
            let b = x[k].to_le_bytes();
            let n = std::cmp::min(8, out.len() - i);
            out[i..i + n].copy_from_slice(&b[..n]);
            i += n;
        }
        Self::raw(&out)
    }
    fn bytes(&self) -> &[u8] {
        self.as_ref()
    }
}
impl<const N: usize> RElem for El<N> {
    const LEN: usize = N;
    fn raw(bytes: &[u8]) -> Self {
        let mut a = [0u8; N];
        a.copy_from_slice(bytes);
        El(a)
    }
}
/// The element type the library itself ships.
impl RElem for [u8; 32] {
    const LEN: usize = 32;
    fn raw(bytes: &[u8]) -> Self {
        let mut a = [0u8; 32];
        a.copy_from_slice(bytes);
        a
    }
}

#[inline]
pub fn fin(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

/// Streaming, order-sensitive, non-resetting hash over a byte stream.
#[derive(Clone, Debug)]
pub struct St {
    s: [u64; 4],
    buf: [u8; 8],
    n: usize,
    total: u64,
}
impl Default for St {
    fn default() -> Self {
        St {
            s: [
                0x243f_6a88_85a3_08d3,
                0x1319_8a2e_0370_7344,
                0xa409_3822_299f_31d0,
                0x082e_fa98_ec4e_6c89,
            ],
            buf: [0; 8],
            n: 0,
            total: 0,
        }
    }
}
impl St {
    #[inline]
    fn word(&mut self, w: u64) {
        let s = &mut self.s;
        s[0] = (s[0] ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        s[1] = (s[1].wrapping_add(w ^ s[0])).wrapping_mul(0xC2B2_AE3D_27D4_EB4F).rotate_left(31);
        s[2] = (s[2] ^ s[1]).wrapping_mul(0x1656_67B1_9E37_79F9).rotate_left(27);
        s[3] = s[3].wrapping_add(s[2] ^ w).rotate_left(17) ^ s[0];
    }
    pub fn put(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.buf[self.n] = b;
            self.n += 1;
            if self.n == 8 {
                let w = u64::from_le_bytes(self.buf);
                self.word(w);
                self.n = 0;
            }
        }
        self.total += bytes.len() as u64;
    }
    pub fn out(&self) -> [u64; 4] {
        let mut c = self.clone();
        let mut last = [0u8; 8];
        last[..c.n].copy_from_slice(&c.buf[..c.n]);
        c.word(u64::from_le_bytes(last));
        c.word(c.total ^ 0xff51_afd7_ed55_8ccd);
        let s = c.s;
        [
            fin(s[0] ^ s[3]),
            fin(s[1].wrapping_add(s[0])),
            fin(s[2] ^ s[1]),
            fin(s[3].wrapping_add(s[2])),
        ]
    }
}

/// Hash of a byte string: the reference digest.
pub fn digest<E: RElem>(parts: &[&[u8]]) -> E {
    let mut s = St::default();
    for p in parts {
        s.put(p);
    }
    E::from_words(s.out())
}

/// Reference side of an algorithm.
pub trait RefAlg<E: RElem>: Algorithm<E> + Send + Sync + 'static {
    /// node hashes depend on the row number handed to the algorithm
    const HEIGHT: bool;
    const NAME: &'static str;
    fn r_leaf(e: &E) -> E;
    fn r_node(ch: &[E], height: usize) -> E;
    /// hash of a raw datum (before the leaf hash)
    fn r_data(bytes: &[u8]) -> E;
}

/// Uses every default of the library's `Algorithm` trait (0x00 / 0x01 prefixes).
#[derive(Clone, Debug, Default)]
pub struct Mix(St);
impl Hasher for Mix {
    fn write(&mut self, bytes: &[u8]) {
        self.0.put(bytes)
    }
    fn finish(&self) -> u64 {
        self.0.out()[0]
    }
}
impl<E: RElem> Algorithm<E> for Mix {
    fn hash(&mut self) -> E {
        E::from_words(self.0.out())
    }
}
impl<E: RElem> RefAlg<E> for Mix {
    const HEIGHT: bool = false;
    const NAME: &'static str = "ct-default";
    fn r_leaf(e: &E) -> E {
        digest(&[&[0u8], e.bytes()])
    }
    fn r_node(ch: &[E], _h: usize) -> E {
        let mut s = St::default();
        s.put(&[1u8]);
        for c in ch {
            s.put(c.bytes());
        }
        E::from_words(s.out())
    }
    fn r_data(bytes: &[u8]) -> E {
        digest(&[bytes])
    }
}

/// Custom scheme: own leaf rule, and node hashes bound to the row they are in.
#[derive(Clone, Debug, Default)]
pub struct MixH(St);
impl Hasher for MixH {
    fn write(&mut self, bytes: &[u8]) {
        self.0.put(bytes)
    }
    fn finish(&self) -> u64 {
        self.0.out()[0]
    }
}
impl<E: RElem> Algorithm<E> for MixH {
    fn hash(&mut self) -> E {
        E::from_words(self.0.out())
    }
    fn leaf(&mut self, leaf: E) -> E {
        self.0.put(&[0xA5]);
        self.0.put(leaf.bytes());
        E::from_words(self.0.out())
    }
    fn multi_node(&mut self, nodes: &[E], height: usize) -> E {
        self.0.put(&[0x5A]);
        self.0.put(&(height as u64).to_le_bytes());
        self.0.put(&(nodes.len() as u64).to_le_bytes());
        for n in nodes {
            self.0.put(n.bytes());
        }
        E::from_words(self.0.out())
    }
}
impl<E: RElem> RefAlg<E> for MixH {
    const HEIGHT: bool = true;
    const NAME: &'static str = "custom-row-bound";
    fn r_leaf(e: &E) -> E {
        digest(&[&[0xA5u8], e.bytes()])
    }
    fn r_node(ch: &[E], h: usize) -> E {
        let mut s = St::default();
        s.put(&[0x5A]);
        s.put(&(h as u64).to_le_bytes());
        s.put(&(ch.len() as u64).to_le_bytes());
        for c in ch {
            s.put(c.bytes());
        }
        E::from_words(s.out())
    }
    fn r_data(bytes: &[u8]) -> E {
        digest(&[bytes])
    }
}

/// A deliberately weak algorithm: children in any order give the same node.
#[derive(Clone, Debug)]
pub struct Weak {
    acc: Vec<u8>,
    i: usize,
    n: usize,
}
impl Default for Weak {
    fn default() -> Self {
        Weak { acc: vec![0; 64], i: 0, n: 0 }
    }
}
impl Hasher for Weak {
    fn write(&mut self, bytes: &[u8]) {
        // each written slice is xor-ed from position 0: order-insensitive
        for (k, b) in bytes.iter().enumerate() {
            self.acc[k % 64] ^= *b;
        }
        self.i += bytes.len();
        self.n += 1;
    }
    fn finish(&self) -> u64 {
        0
    }
}
impl<E: RElem> Algorithm<E> for Weak {
    fn hash(&mut self) -> E {
        let mut v = self.acc[..E::LEN].to_vec();
        let l = v.len();
        v[0] = v[0].wrapping_add(self.i as u8);
        v[l - 1] = v[l - 1].wrapping_add(self.n as u8);
        E::raw(&v)
    }
}
impl<E: RElem> RefAlg<E> for Weak {
    const HEIGHT: bool = false;
    const NAME: &'static str = "weak-xor";
    fn r_leaf(e: &E) -> E {
        weak(&[&[0u8], e.bytes()])
    }
    fn r_node(ch: &[E], _h: usize) -> E {
        let one = [1u8];
        let mut parts: Vec<&[u8]> = vec![&one];
        parts.extend(ch.iter().map(|c| c.bytes()));
        weak(&parts)
    }
    fn r_data(bytes: &[u8]) -> E {
        weak(&[bytes])
    }
}
fn weak<E: RElem>(parts: &[&[u8]]) -> E {
    let mut acc = vec![0u8; 64];
    let mut total = 0usize;
    for p in parts {
        for (k, b) in p.iter().enumerate() {
            acc[k % 64] ^= *b;
        }
        total += p.len();
    }
    let mut v = acc[..E::LEN].to_vec();
    v[0] = v[0].wrapping_add(total as u8);
    let l = v.len();
    v[l - 1] = v[l - 1].wrapping_add(parts.len() as u8);
    E::raw(&v)
}

/// Reference tree: rows from the leaves (row 0) up to the root.
#[derive(Clone, Debug)]
pub struct RefTree<E> {
    pub rows: Vec<Vec<E>>,
    pub arity: usize,
}
impl<E: RElem> RefTree<E> {
    /// From already hashed leaves. `leaves.len()` must be a power of `arity`.
    pub fn from_hashed<A: RefAlg<E>>(leaves: Vec<E>, arity: usize) -> Self {
        let mut rows = vec![leaves];
        while rows.last().unwrap().len() > 1 {
            let h = rows.len() - 1;
            let prev = rows.last().unwrap();
            assert_eq!(prev.len() % arity, 0, "harness: bad reference shape");
            let next: Vec<E> = prev.chunks(arity).map(|c| A::r_node(c, h)).collect();
            rows.push(next);
        }
        RefTree { rows, arity }
    }
    pub fn from_items<A: RefAlg<E>>(items: &[E], arity: usize) -> Self {
        Self::from_hashed::<A>(items.iter().map(|e| A::r_leaf(e)).collect(), arity)
    }
    pub fn root(&self) -> E {
        self.rows.last().unwrap()[0]
    }
    pub fn leaves(&self) -> &[E] {
        &self.rows[0]
    }
    pub fn len(&self) -> usize {
        self.rows.iter().map(|r| r.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    /// linear layout: leaves, then each row upwards, root last
    pub fn flat(&self) -> Vec<E> {
        self.rows.iter().flatten().copied().collect()
    }
    pub fn flat_bytes(&self) -> Vec<u8> {
        to_bytes(&self.flat())
    }
    /// (lemma, path) the documentation prescribes for leaf i
    pub fn proof(&self, i: usize) -> (Vec<E>, Vec<usize>) {
        let mut lemma = vec![self.rows[0][i]];
        let mut path = vec![];
        let mut j = i;
        for row in &self.rows[..self.rows.len() - 1] {
            let s = (j / self.arity) * self.arity;
            for k in s..s + self.arity {
                if k != j {
                    lemma.push(row[k]);
                }
            }
            path.push(j % self.arity);
            j /= self.arity;
        }
        lemma.push(self.root());
        (lemma, path)
    }
    /// number of elements in the rows kept when `discard` rows above the base are dropped
    pub fn cached(&self, discard: usize) -> Vec<E> {
        self.rows[1 + discard..].iter().flatten().copied().collect()
    }
}

pub fn to_bytes<E: RElem>(v: &[E]) -> Vec<u8> {
    let mut out = Vec::with_capacity(v.len() * E::LEN);
    for e in v {
        out.extend_from_slice(e.bytes());
    }
    out
}

/// Reference inclusion proof, one record per layer (outermost first).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefProof<E> {
    pub lemma: Vec<E>,
    pub path: Vec<usize>,
    /// declared arities of the top and of the sub-tree layer; 0, 0 at the base
    pub top: usize,
    pub sub: usize,
    pub inner: Option<Box<RefProof<E>>>,
}
impl<E: RElem> RefProof<E> {
    pub fn root(&self) -> Option<E> {
        self.lemma.last().copied()
    }
    /// the leaf this proof is about
    pub fn item(&self) -> Option<E> {
        match &self.inner {
            Some(i) => i.item(),
            None => self.lemma.first().copied(),
        }
    }
    pub fn depth(&self) -> usize {
        1 + self.inner.as_ref().map_or(0, |i| i.depth())
    }
    pub fn layer_mut(&mut self, k: usize) -> &mut RefProof<E> {
        if k == 0 || self.inner.is_none() {
            return self;
        }
        self.inner.as_mut().unwrap().layer_mut(k - 1)
    }
    /// The meaning of a proof: hashing upwards reproduces the root of every layer.
    pub fn holds<A: RefAlg<E>>(&self, arity: usize) -> bool {
        let layer = if self.top > 0 { self.top } else { self.sub };
        if layer > 0 {
            let Some(inner) = &self.inner else { return false };
            if self.lemma.len() != layer || self.path.len() != 1 || self.path[0] >= layer {
                return false;
            }
            if !inner.holds::<A>(arity) {
                return false;
            }
            let mut nodes = self.lemma[..layer - 1].to_vec();
            nodes.insert(self.path[0], inner.root().unwrap());
            return A::r_node(&nodes, 1) == self.root().unwrap();
        }
        if self.inner.is_some() || self.path.is_empty() {
            return false;
        }
        if self.lemma.len() != 2 + (arity - 1) * self.path.len() {
            return false;
        }
        let mut h = self.lemma[0];
        for (row, &p) in self.path.iter().enumerate() {
            if p >= arity {
                return false;
            }
            let at = 1 + row * (arity - 1);
            let mut nodes = self.lemma[at..at + arity - 1].to_vec();
            nodes.insert(p, h);
            h = A::r_node(&nodes, row);
        }
        h == self.root().unwrap()
    }
}
impl<E: RElem> RefTree<E> {
    pub fn ref_proof(&self, i: usize) -> RefProof<E> {
        let (lemma, path) = self.proof(i);
        RefProof { lemma, path, top: 0, sub: 0, inner: None }
    }
}

/// Reference tree of trees: `sub` base trees per group, `top` groups (0: layer absent).
#[derive(Clone, Debug)]
pub struct RefCompound<E> {
    pub bases: Vec<RefTree<E>>,
    pub sub: usize,
    pub top: usize,
    pub group_roots: Vec<E>,
    pub root: E,
}
impl<E: RElem> RefCompound<E> {
    pub fn new<A: RefAlg<E>>(bases: Vec<RefTree<E>>, sub: usize, top: usize) -> Self {
        let roots: Vec<E> = bases.iter().map(|b| b.root()).collect();
        let group_roots: Vec<E> = roots.chunks(sub).map(|g| A::r_node(g, 1)).collect();
        assert_eq!(group_roots.len(), top.max(1), "harness: bad compound shape");
        let root = if top > 0 { A::r_node(&group_roots, 1) } else { group_roots[0] };
        RefCompound { bases, sub, top, group_roots, root }
    }
    pub fn leafs(&self) -> usize {
        self.bases.iter().map(|b| b.leaves().len()).sum()
    }
    pub fn leaf(&self, i: usize) -> E {
        let w = self.bases[0].leaves().len();
        self.bases[i / w].leaves()[i % w]
    }
    pub fn row_count(&self) -> usize {
        self.bases[0].rows.len() + 1 + usize::from(self.top > 0)
    }
    pub fn len(&self) -> usize {
        let b = self.bases[0].len();
        if self.top > 0 {
            (b * self.sub + 1) * self.top + 1
        } else {
            b * self.sub + 1
        }
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    pub fn proof(&self, i: usize) -> RefProof<E> {
        let w = self.bases[0].leaves().len();
        let bi = i / w;
        let base = self.bases[bi].ref_proof(i % w);
        let g = bi / self.sub;
        let k = bi % self.sub;
        let mut lemma: Vec<E> = (0..self.sub).filter(|x| *x != k).map(|x| self.bases[g * self.sub + x].root()).collect();
        lemma.push(self.group_roots[g]);
        let mid = RefProof { lemma, path: vec![k], top: 0, sub: self.sub, inner: Some(Box::new(base)) };
        if self.top == 0 {
            return mid;
        }
        let mut lemma: Vec<E> = (0..self.top).filter(|x| *x != g).map(|x| self.group_roots[x]).collect();
        lemma.push(self.root);
        RefProof { lemma, path: vec![g], top: self.top, sub: self.sub, inner: Some(Box::new(mid)) }
    }
}
