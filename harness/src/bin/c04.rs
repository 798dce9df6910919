//! C04: a proof is accepted exactly if it hashes up to its root.
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Base { shape: Shape, ea: u8 },
    WeakBase { shape: Shape },
    Compound { k: usize, levels: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    leaves: Leaves,
    leaf: u32,
    other: u32,
    muts: Vec<Mut>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C04";
    const RULE: &'static str = "case = (the proof of a generated leaf of a generated tree or tree of trees, a sequence of mutations of leaf, siblings, roots, paths, lengths, layer \
        arities and inner proofs); non-trivial: the mutated proof differs from the genuine one";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            prop_oneof![
                6 => (shape(ARITIES, 300, 300, 0, 1), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                1 => shape(&[2, 4], 64, 64, 0, 1).prop_map(|shape| Kind::WeakBase { shape }),
                6 => compound(64).prop_map(|(k, levels)| Kind::Compound { k, levels }),
            ],
            leaves(),
            any::<u32>(),
            any::<u32>(),
            prop_oneof![
                4 => proptest::collection::vec(mutation(), 1),
                3 => proptest::collection::vec(mutation(), 0..5),
            ],
        )
            .prop_map(|(kind, leaves, leaf, other, muts)| Case { kind, leaves, leaf, other, muts })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(2_000_000, 30_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        match c.kind {
            Kind::Base { shape, ea } => with_eab!(shape.arity, ea, E, A, B, base::<E, A, B>(c, shape, cx)),
            Kind::WeakBase { shape } => match shape.arity {
                2 => base::<El<8>, Weak, typenum::U2>(c, shape, cx),
                _ => base::<El<20>, Weak, typenum::U4>(c, shape, cx),
            },
            Kind::Compound { k, levels } => with_compound!(k, E, A, B, Sub, Top, {
                let _ = std::marker::PhantomData::<(Sub, Top)>;
                comp::<E, A, B>(c, k, levels, cx)
            }),
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "acceptance is compared with hashing the parts of the proof upwards with the reference hash; two different inputs of the reference hashes of 64 bits and more do not collide".into(),
            "a base layer proof with an empty path cannot be made through the interface".into(),
        ]
    }
}

fn base<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, shape: Shape, cx: &mut Cx) -> Result<(), String> {
    let items: Vec<E> = c.leaves.items(shape.leafs());
    let r = RefTree::<E>::from_items::<A>(&items, shape.arity);
    let n = shape.leafs();
    cx.label(format!("base {} arity {}", A::NAME, shape.arity));
    go::<E, A, B>(c, r.ref_proof(c.leaf as usize % n), r.ref_proof(c.other as usize % n), cx)
}
fn comp<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, k: usize, levels: u32, cx: &mut Cx) -> Result<(), String> {
    let (r, _) = ref_compound::<E, A>(k, levels, c.leaves);
    let n = r.leafs();
    cx.label(if r.top > 0 { "two layers of trees" } else { "one layer of trees" });
    go::<E, A, B>(c, r.proof(c.leaf as usize % n), r.proof(c.other as usize % n), cx)
}

fn go<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, genuine: RefProof<E>, other: RefProof<E>, cx: &mut Cx) -> Result<(), String> {
    let arity = B::to_usize();
    let mut p = genuine.clone();
    for m in &c.muts {
        apply::<E, A>(*m, &mut p, &other, arity);
    }
    let changed = p != genuine;
    if changed {
        cx.nontrivial();
    }
    // the constructor refuses lemmas that do not fit the path, and nothing else
    if p.top == 0 && p.sub == 0 {
        let fits = p.lemma.len() > 2 && p.lemma.len() == 2 + (arity - 1) * p.path.len();
        match guard(|| new_proof::<E, B>(0, 0, None, p.lemma.clone(), p.path.clone())) {
            Ok(r) => req!(r.is_ok() == fits, "constructing a base proof with {} elements and {} path entries: {:?}", p.lemma.len(), p.path.len(), r.map(|_| ())),
            Err(e) => fail!("constructing a base proof panics: {}", e),
        }
    }
    let Some(real) = to_proof::<E, B>(&p) else {
        cx.label("not constructible");
        return Ok(());
    };
    same_proof(&real, &p).map_err(|e| format!("the proof does not hold what it was made of: {}", e))?;
    let want = p.holds::<A>(arity);
    cx.label(format!("{} {}", if changed { "changed" } else { "genuine" }, if want { "holds" } else { "does not hold" }));
    let got = match guard(|| real.validate::<A>()) {
        Ok(r) => r,
        Err(e) => fail!("validate panics: {}", e),
    };
    match (want, &got) {
        (true, Ok(true)) | (false, Ok(false)) | (false, Err(_)) => Ok(()),
        (true, o) => Err(format!("a proof that hashes up to its root is not accepted: {:?}", o.as_ref().map_err(|e| e.to_string()))),
        (false, _) => Err("a proof that does not hash up to its root is accepted".into()),
    }?;
    if want {
        req!(guard(|| real.item()) == Ok(p.item().unwrap()), "item() is not the leaf of the proof");
        req!(guard(|| real.root()) == Ok(p.root().unwrap()), "root() is not the root of the proof");
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
