//! C05: checking a proof together with data accepts exactly the data of the proved leaf.
use merkletree::hash::Hashable;
use merkletree::merkle::MerkleTree;
use merkletree::proof::Proof;
use merkletree::store::VecStore;
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Base { shape: Shape, ea: u8 },
    Compound { k: usize, levels: u32 },
}
/// how a datum is presented to the library
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Form {
    Bytes,
    Slice,
    Text,
    Num,
    Tuple,
    Array,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Cand {
    Own,
    Leaf(u32),
    Flip(u16, u8),
    Append(u8),
    Truncate,
    Empty,
    /// the bytes of an element of the lemma
    Lemma(u16),
    /// what an interior node hashes
    Children,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    seed: u64,
    len: u8,
    /// number of different data among the leaves
    variety: u16,
    form: Form,
    leaf: u32,
    other: u32,
    muts: Vec<Mut>,
    cand: Cand,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C05";
    const RULE: &'static str = "case = (tree or tree of trees over generated raw data, a leaf, mutations of its proof, candidate data: own, of another leaf, altered, empty, bytes of \
        the proof, the preimage of an interior node); non-trivial: the proof is mutated or the candidate is not the leaf's own data";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![
                (shape(&[2, 4, 8, 16], 128, 128, 0, 1), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                compound(16).prop_map(|(k, levels)| Kind::Compound { k, levels }),
            ],
            prop_oneof![0u64..8, any::<u64>()],
            0u8..40,
            prop_oneof![3 => Just(u16::MAX), 1 => 1u16..6],
            prop_oneof![Just(Form::Bytes), Just(Form::Slice), Just(Form::Text), Just(Form::Num), Just(Form::Tuple), Just(Form::Array)],
            any::<u32>(),
            any::<u32>(),
            prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(mutation(), 1..3)],
            prop_oneof![
                4 => Just(Cand::Own),
                4 => any::<u32>().prop_map(Cand::Leaf),
                3 => (any::<u16>(), 1u8..=255).prop_map(|(a, b)| Cand::Flip(a, b)),
                1 => any::<u8>().prop_map(Cand::Append),
                1 => Just(Cand::Truncate),
                1 => Just(Cand::Empty),
                1 => any::<u16>().prop_map(Cand::Lemma),
                1 => Just(Cand::Children),
            ],
        )
            .prop_map(|(kind, seed, len, variety, form, leaf, other, muts, cand)| Case { kind, seed, len, variety, form, leaf, other, muts, cand })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_200_000, 20_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c.kind {
            Kind::Base { shape, ea } => with_eab!(shape.arity, ea, E, A, B, base::<E, A, B>(c, shape, cx)),
            Kind::Compound { k, levels } => with_compound!(k, E, A, B, Sub, Top, comp::<E, A, B, Sub, Top>(c, k, levels, cx)),
        }
    }
    fn assumptions() -> Vec<String> {
        vec!["the leaf of a datum is the leaf hash of the hash of its bytes; the reference hashes do not collide on the data tried".into()]
    }
}

fn datum(c: &Case, i: usize) -> Vec<u8> {
    let k = i as u64 % c.variety.max(1) as u64;
    let mut v = vec![];
    let mut x = fin(c.seed ^ fin(k));
    while v.len() < 48 {
        v.extend_from_slice(&x.to_le_bytes());
        x = fin(x ^ 0xABCD);
    }
    match c.form {
        Form::Num => v.truncate(8),
        Form::Array => v.truncate(16),
        Form::Text => {
            v.truncate(c.len as usize);
            v.iter_mut().for_each(|b| *b = b'a' + *b % 26);
        }
        Form::Tuple => v.truncate(4 + c.len as usize),
        _ => v.truncate(c.len as usize),
    }
    // data of different leaves differ
    if !matches!(c.form, Form::Num | Form::Array) {
        v.extend_from_slice(format!("{:04x}", k).as_bytes());
    }
    v
}
struct Dyn<'a, A>(Box<dyn Hashable<A> + 'a>);
impl<A: std::hash::Hasher> Hashable<A> for Dyn<'_, A> {
    fn hash(&self, state: &mut A) {
        self.0.hash(state)
    }
}
/// the datum in its form, if its bytes fit the form
fn present<'a, A: std::hash::Hasher + 'a>(f: Form, b: &'a [u8]) -> Dyn<'a, A> {
    Dyn(match f {
        Form::Num if b.len() == 8 => Box::new(u64::from_ne_bytes(b.try_into().unwrap())),
        Form::Array if b.len() == 16 => {
            let a: [u8; 16] = b.try_into().unwrap();
            Box::new(a)
        }
        Form::Text if std::str::from_utf8(b).is_ok() => Box::new(String::from_utf8(b.to_vec()).unwrap()),
        Form::Tuple if b.len() >= 4 => Box::new((u32::from_ne_bytes(b[..4].try_into().unwrap()), b[4..].to_vec())),
        Form::Slice => Box::new(b),
        _ => Box::new(b.to_vec()),
    })
}

fn build<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, from: usize, n: usize) -> Result<MerkleTree<E, A, VecStore<E>, B>, String> {
    let data: Vec<Vec<u8>> = (from..from + n).map(|i| datum(c, i)).collect();
    MerkleTree::from_data(data.iter().map(|d| present::<A>(c.form, d))).map_err(|e| format!("from_data: {:?}", e))
}
fn reference<E: RElem, A: RefAlg<E>>(c: &Case, from: usize, n: usize, arity: usize) -> RefTree<E> {
    let items: Vec<E> = (from..from + n).map(|i| A::r_data(&datum(c, i))).collect();
    RefTree::from_items::<A>(&items, arity)
}

fn base<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, shape: Shape, cx: &mut Cx) -> Result<(), String> {
    let n = shape.leafs();
    let r = reference::<E, A>(c, 0, n, shape.arity);
    let i = c.leaf as usize % n;
    let real = if c.muts.is_empty() {
        let t = build::<E, A, B>(c, 0, n)?;
        Some(t.gen_proof(i).map_err(|e| format!("gen_proof: {:?}", e))?)
    } else {
        None
    };
    go::<E, A, B>(c, i, n, real, r.ref_proof(i), r.ref_proof(c.other as usize % n), cx)
}
fn comp<E: RElem, A: RefAlg<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(c: &Case, k: usize, levels: u32, cx: &mut Cx) -> Result<(), String> {
    let (arity, sub, top) = COMPOUNDS[k];
    let w = arity.pow(levels);
    let count = sub * top.max(1);
    let n = w * count;
    let r = RefCompound::new::<A>((0..count).map(|b| reference::<E, A>(c, b * w, w, arity)).collect(), sub, top);
    let i = c.leaf as usize % n;
    cx.label("tree of trees");
    let real = if c.muts.is_empty() {
        let mut trees = vec![];
        for b in 0..count {
            trees.push(build::<E, A, B>(c, b * w, w)?);
        }
        let t = if top > 0 {
            MerkleTree::<E, A, VecStore<E>, B, Sub, Top>::from_sub_trees_as_trees(trees)
        } else {
            MerkleTree::<E, A, VecStore<E>, B, Sub, Top>::from_trees(trees)
        }
        .map_err(|e| format!("assembling: {:?}", e))?;
        Some(t.gen_proof(i).map_err(|e| format!("gen_proof: {:?}", e))?)
    } else {
        None
    };
    go::<E, A, B>(c, i, n, real, r.proof(i), r.proof(c.other as usize % n), cx)
}

fn go<E: RElem, A: RefAlg<E>, B: Unsigned>(
    c: &Case,
    i: usize,
    n: usize,
    real: Option<Proof<E, B>>,
    mut p: RefProof<E>,
    other: RefProof<E>,
    cx: &mut Cx,
) -> Result<(), String> {
    let arity = B::to_usize();
    for m in &c.muts {
        apply::<E, A>(*m, &mut p, &other, arity);
    }
    let own = datum(c, i);
    let cand: Vec<u8> = match c.cand {
        Cand::Own => own.clone(),
        Cand::Leaf(j) => datum(c, j as usize % n),
        Cand::Flip(at, m) => {
            let mut v = own.clone();
            let l = v.len();
            v[at as usize % l] ^= m;
            v
        }
        Cand::Append(b) => [&own[..], &[b]].concat(),
        Cand::Truncate => own[..own.len() - 1].to_vec(),
        Cand::Empty => vec![],
        Cand::Lemma(k) => {
            let mut q = p.clone();
            let l = q.layer_mut(9).lemma.clone();
            if l.is_empty() {
                vec![]
            } else {
                l[k as usize % l.len()].bytes().to_vec()
            }
        }
        Cand::Children => {
            let mut q = p.clone();
            let l = q.layer_mut(9).lemma.clone();
            let mut v = vec![1u8];
            l.iter().take(arity).for_each(|e| v.extend_from_slice(e.bytes()));
            v
        }
    };
    if !c.muts.is_empty() || cand != own {
        cx.nontrivial();
    }
    let real = match real {
        Some(r) => r,
        None => match to_proof::<E, B>(&p) {
            Some(r) => r,
            None => {
                cx.label("not constructible");
                return Ok(());
            }
        },
    };
    let leaf: E = A::r_leaf(&A::r_data(&cand));
    let want = p.holds::<A>(arity) && p.item() == Some(leaf);
    cx.label(format!("proof {} data {} -> {}", if c.muts.is_empty() { "genuine" } else { "mutated" }, if cand == own { "own" } else { "other" }, want));
    let d = present::<A>(c.form, &cand);
    match guard(|| real.validate_with_data::<A>(&d)) {
        Err(e) => fail!("validate_with_data panics: {}", e),
        Ok(Ok(x)) if x == want => Ok(()),
        Ok(Err(_)) if !want => Ok(()),
        Ok(o) => Err(format!(
            "validate_with_data gives {:?} where the data {} of the leaf of the proof and the proof {}",
            o.map_err(|e| e.to_string()),
            if p.item() == Some(leaf) { "are those" } else { "are not those" },
            if p.holds::<A>(arity) { "holds" } else { "does not hold" },
        )),
    }
}

fn main() {
    mtverif::main::<P>()
}
