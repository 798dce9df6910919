//! Mutations of inclusion proofs, and building library proofs from reference proofs.
use crate::model::*;
use merkletree::proof::Proof;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::*;

/// Values a mutation can plant into a proof.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Val {
    Zero,
    Random(u64),
    /// element of some lemma of the same proof
    Own(u8, u16),
    /// element of the proof of another leaf
    Other(u8, u16),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Mut {
    Flip { layer: u8, at: u16, byte: u8, mask: u8 },
    Swap { layer: u8, a: u16, b: u16 },
    Set { layer: u8, at: u16, v: Val },
    SetLeaf { v: Val },
    SetRoot { layer: u8, v: Val },
    Path { layer: u8, at: u16, v: u8 },
    PathShift { layer: u8, at: u16, by: u8 },
    PathPush { layer: u8, v: u8 },
    PathPop { layer: u8 },
    LemmaPush { layer: u8, v: Val },
    LemmaPop { layer: u8 },
    LemmaInsert { layer: u8, at: u16, v: Val },
    LemmaRemove { layer: u8, at: u16 },
    LemmaClear { layer: u8 },
    /// drop the lowest row of the base proof: a proof of an interior node
    CutRow,
    /// put one more row under the base proof
    AddRow { v: Val, path: u8 },
    Arity { layer: u8, top: u8, sub: u8 },
    DropInner { layer: u8 },
    InnerOther { layer: u8 },
    OtherLemma { layer: u8 },
    OtherPath { layer: u8 },
    Unwrap,
    Wrap { top: u8, sub: u8, path: u8 },
    /// make the layer hash to its root again (if it is well formed)
    Rehash { layer: u8 },
    RehashAll,
}

pub const SUBS: &[usize] = &[0, 1, 2, 3, 4, 5, 7];
pub const TOPS: &[usize] = &[0, 1, 2, 3, 5];

pub fn val() -> impl Strategy<Value = Val> + Clone {
    prop_oneof![
        Just(Val::Zero),
        any::<u64>().prop_map(Val::Random),
        (0u8..3, any::<u16>()).prop_map(|(l, i)| Val::Own(l, i)),
        (0u8..3, any::<u16>()).prop_map(|(l, i)| Val::Other(l, i)),
    ]
}
pub fn mutation() -> BoxedStrategy<Mut> {
    let l = || 0u8..3;
    let i = any::<u16>;
    prop_oneof![
        4 => (l(), i(), any::<u8>(), 1u8..=255).prop_map(|(layer, at, byte, mask)| Mut::Flip { layer, at, byte, mask }),
        3 => (l(), i(), i()).prop_map(|(layer, a, b)| Mut::Swap { layer, a, b }),
        3 => (l(), i(), val()).prop_map(|(layer, at, v)| Mut::Set { layer, at, v }),
        2 => val().prop_map(|v| Mut::SetLeaf { v }),
        2 => (l(), val()).prop_map(|(layer, v)| Mut::SetRoot { layer, v }),
        3 => (l(), i(), 0u8..70).prop_map(|(layer, at, v)| Mut::Path { layer, at, v }),
        3 => (l(), i(), 1u8..8).prop_map(|(layer, at, by)| Mut::PathShift { layer, at, by }),
        1 => (l(), 0u8..8).prop_map(|(layer, v)| Mut::PathPush { layer, v }),
        1 => l().prop_map(|layer| Mut::PathPop { layer }),
        1 => (l(), val()).prop_map(|(layer, v)| Mut::LemmaPush { layer, v }),
        1 => l().prop_map(|layer| Mut::LemmaPop { layer }),
        1 => (l(), i(), val()).prop_map(|(layer, at, v)| Mut::LemmaInsert { layer, at, v }),
        1 => (l(), i()).prop_map(|(layer, at)| Mut::LemmaRemove { layer, at }),
        1 => l().prop_map(|layer| Mut::LemmaClear { layer }),
        2 => Just(Mut::CutRow),
        1 => (val(), 0u8..8).prop_map(|(v, path)| Mut::AddRow { v, path }),
        2 => (l(), proptest::sample::select(TOPS), proptest::sample::select(SUBS))
            .prop_map(|(layer, t, s)| Mut::Arity { layer, top: t as u8, sub: s as u8 }),
        1 => l().prop_map(|layer| Mut::DropInner { layer }),
        2 => l().prop_map(|layer| Mut::InnerOther { layer }),
        1 => l().prop_map(|layer| Mut::OtherLemma { layer }),
        2 => l().prop_map(|layer| Mut::OtherPath { layer }),
        1 => Just(Mut::Unwrap),
        1 => (proptest::sample::select(TOPS), proptest::sample::select(SUBS), 0u8..8)
            .prop_map(|(t, s, path)| Mut::Wrap { top: t as u8, sub: s as u8, path }),
        2 => l().prop_map(|layer| Mut::Rehash { layer }),
        2 => Just(Mut::RehashAll),
    ]
    .boxed()
}

fn pick<E: RElem>(v: Val, own: &RefProof<E>, other: &RefProof<E>) -> E {
    let from = |p: &RefProof<E>, l: u8, i: u16| {
        let mut c = p.clone();
        let r = c.layer_mut(l as usize % p.depth());
        if r.lemma.is_empty() {
            E::raw(&vec![0; E::LEN])
        } else {
            r.lemma[i as usize % r.lemma.len()]
        }
    };
    match v {
        Val::Zero => E::raw(&vec![0; E::LEN]),
        Val::Random(s) => E::from_words([fin(s), fin(s ^ 1), fin(s ^ 2), fin(s ^ 3)]),
        Val::Own(l, i) => from(own, l, i),
        Val::Other(l, i) => from(other, l, i),
    }
}

/// Applies one mutation; `other` is the proof of another leaf of the same tree.
pub fn apply<E: RElem, A: RefAlg<E>>(m: Mut, p: &mut RefProof<E>, other: &RefProof<E>, arity: usize) {
    let own = p.clone();
    let depth = p.depth();
    let lay = |l: u8| l as usize % depth;
    let other_layer = |l: u8| other.clone().layer_mut(l as usize % other.depth()).clone();
    match m {
        Mut::Flip { layer, at, byte, mask } => {
            let r = p.layer_mut(lay(layer));
            if !r.lemma.is_empty() {
                let k = at as usize % r.lemma.len();
                let mut b = r.lemma[k].bytes().to_vec();
                let n = b.len();
                b[byte as usize % n] ^= mask;
                r.lemma[k] = E::raw(&b);
            }
        }
        Mut::Swap { layer, a, b } => {
            let r = p.layer_mut(lay(layer));
            let n = r.lemma.len();
            if n > 0 {
                r.lemma.swap(a as usize % n, b as usize % n);
            }
        }
        Mut::Set { layer, at, v } => {
            let v = pick(v, &own, other);
            let r = p.layer_mut(lay(layer));
            let n = r.lemma.len();
            if n > 0 {
                r.lemma[at as usize % n] = v;
            }
        }
        Mut::SetLeaf { v } => {
            let v = pick(v, &own, other);
            if let Some(x) = p.layer_mut(depth).lemma.first_mut() {
                *x = v;
            }
        }
        Mut::SetRoot { layer, v } => {
            let v = pick(v, &own, other);
            if let Some(x) = p.layer_mut(lay(layer)).lemma.last_mut() {
                *x = v;
            }
        }
        Mut::Path { layer, at, v } => {
            let r = p.layer_mut(lay(layer));
            let n = r.path.len();
            if n > 0 {
                r.path[at as usize % n] = v as usize;
            }
        }
        Mut::PathShift { layer, at, by } => {
            let base = lay(layer) + 1 == depth;
            let r = p.layer_mut(lay(layer));
            let m = if base { arity } else { r.top.max(r.sub).max(1) };
            let n = r.path.len();
            if n > 0 {
                let k = at as usize % n;
                r.path[k] = (r.path[k] + by as usize) % m;
            }
        }
        Mut::PathPush { layer, v } => p.layer_mut(lay(layer)).path.push(v as usize),
        Mut::PathPop { layer } => {
            p.layer_mut(lay(layer)).path.pop();
        }
        Mut::LemmaPush { layer, v } => {
            let v = pick(v, &own, other);
            p.layer_mut(lay(layer)).lemma.push(v)
        }
        Mut::LemmaPop { layer } => {
            p.layer_mut(lay(layer)).lemma.pop();
        }
        Mut::LemmaInsert { layer, at, v } => {
            let v = pick(v, &own, other);
            let r = p.layer_mut(lay(layer));
            let k = at as usize % (r.lemma.len() + 1);
            r.lemma.insert(k, v);
        }
        Mut::LemmaRemove { layer, at } => {
            let r = p.layer_mut(lay(layer));
            if !r.lemma.is_empty() {
                let k = at as usize % r.lemma.len();
                r.lemma.remove(k);
            }
        }
        Mut::LemmaClear { layer } => p.layer_mut(lay(layer)).lemma.clear(),
        Mut::CutRow => {
            let r = p.layer_mut(depth);
            if r.path.len() >= 1 && r.lemma.len() == 2 + (arity - 1) * r.path.len() && r.path[0] < arity {
                let mut nodes = r.lemma[1..arity].to_vec();
                nodes.insert(r.path[0], r.lemma[0]);
                let h = A::r_node(&nodes, 0);
                r.path.remove(0);
                let tail = r.lemma.split_off(arity);
                r.lemma = vec![h];
                r.lemma.extend(tail);
            }
        }
        Mut::AddRow { v, path } => {
            let v = pick(v, &own, other);
            let r = p.layer_mut(depth);
            if !r.lemma.is_empty() {
                r.path.insert(0, path as usize % arity);
                for _ in 0..arity - 1 {
                    r.lemma.insert(1, v);
                }
            }
        }
        Mut::Arity { layer, top, sub } => {
            let r = p.layer_mut(lay(layer));
            r.top = top as usize;
            r.sub = sub as usize;
        }
        Mut::DropInner { layer } => p.layer_mut(lay(layer)).inner = None,
        Mut::InnerOther { layer } => {
            let o = other_layer(layer);
            let r = p.layer_mut(lay(layer));
            r.inner = o.inner.clone();
        }
        Mut::OtherLemma { layer } => {
            let o = other_layer(layer);
            p.layer_mut(lay(layer)).lemma = o.lemma;
        }
        Mut::OtherPath { layer } => {
            let o = other_layer(layer);
            p.layer_mut(lay(layer)).path = o.path;
        }
        Mut::Unwrap => {
            if let Some(i) = p.inner.take() {
                *p = *i;
            }
        }
        Mut::Wrap { top, sub, path } => {
            if depth < 4 {
                let (top, sub) = (top as usize, sub as usize);
                let n = if top > 0 { top } else { sub };
                let z = E::raw(&vec![7; E::LEN]);
                let inner = std::mem::replace(p, RefProof { lemma: vec![z; n], path: vec![path as usize % n.max(1)], top, sub, inner: None });
                p.inner = Some(Box::new(inner));
            }
        }
        Mut::Rehash { layer } => rehash::<E, A>(p.layer_mut(lay(layer)), arity),
        Mut::RehashAll => {
            for k in (0..depth).rev() {
                rehash::<E, A>(p.layer_mut(k), arity);
            }
        }
    }
}
fn rehash<E: RElem, A: RefAlg<E>>(r: &mut RefProof<E>, arity: usize) {
    let layer = if r.top > 0 { r.top } else { r.sub };
    let n = r.lemma.len();
    if layer > 0 {
        if let Some(x) = r.inner.as_ref().and_then(|i| i.root()) {
            if n == layer && r.path.len() == 1 && r.path[0] < layer {
                let mut nodes = r.lemma[..layer - 1].to_vec();
                nodes.insert(r.path[0], x);
                r.lemma[n - 1] = A::r_node(&nodes, 1);
            }
        }
    } else if !r.path.is_empty() && n == 2 + (arity - 1) * r.path.len() && r.path.iter().all(|p| *p < arity) {
        let mut h = r.lemma[0];
        for (row, &p) in r.path.iter().enumerate() {
            let at = 1 + row * (arity - 1);
            let mut nodes = r.lemma[at..at + arity - 1].to_vec();
            nodes.insert(p, h);
            h = A::r_node(&nodes, row);
        }
        r.lemma[n - 1] = h;
    }
}

macro_rules! arities {
    ($t:expr, $s:expr, $f:ident, $args:tt, $( ($tv:literal, $T:ty) ),* ; $svs:tt) => {
        match $t { $( $tv => arities!(@sub $s, $T, $f, $args, $svs), )* o => crate::runner::infra(format!("top arity {}", o)) }
    };
    (@sub $s:expr, $T:ty, $f:ident, $args:tt, [ $( ($sv:literal, $S:ty) ),* ]) => {
        match $s { $( $sv => arities!(@call $f, $T, $S, $args), )* o => crate::runner::infra(format!("sub arity {}", o)) }
    };
    (@call $f:ident, $T:ty, $S:ty, ($($a:expr),*)) => { $f::<E, B, $T, $S>($($a),*) };
}
fn mk<E: RElem, B: Unsigned, T: Unsigned, S: Unsigned>(
    inner: Option<Box<Proof<E, B>>>,
    lemma: Vec<E>,
    path: Vec<usize>,
) -> anyhow::Result<Proof<E, B>> {
    Proof::new::<T, S>(inner, lemma, path)
}
/// The constructor of the library, with the layer arities given as numbers.
pub fn new_proof<E: RElem, B: Unsigned>(
    top: usize,
    sub: usize,
    inner: Option<Box<Proof<E, B>>>,
    lemma: Vec<E>,
    path: Vec<usize>,
) -> anyhow::Result<Proof<E, B>> {
    arities!(top, sub, mk, (inner, lemma, path), (0, U0), (1, U1), (2, U2), (3, U3), (5, U5);
        [(0, U0), (1, U1), (2, U2), (3, U3), (4, U4), (5, U5), (7, U7)])
}
/// A library proof with exactly these parts, however malformed. None: there is no way to make it.
pub fn to_proof<E: RElem, B: Unsigned>(r: &RefProof<E>) -> Option<Proof<E, B>> {
    let inner = match &r.inner {
        Some(i) => Some(Box::new(to_proof::<E, B>(i)?)),
        None => None,
    };
    let (lemma, fixup) = if r.top == 0 && r.sub == 0 {
        if r.path.is_empty() {
            return None;
        }
        (vec![E::default(); 2 + (B::to_usize() - 1) * r.path.len()], true)
    } else {
        (r.lemma.clone(), false)
    };
    let mut p = new_proof::<E, B>(r.top, r.sub, inner, lemma, r.path.clone()).ok()?;
    if fixup {
        *p.lemma_mut() = r.lemma.clone();
    }
    Some(p)
}
