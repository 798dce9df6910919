//! C03: the proof of every leaf is exact and accepted; there is none for anything else.
use merkletree::merkle::MerkleTree;
use merkletree::store::Store;
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Base { shape: Shape, ea: u8 },
    Compound { k: usize, levels: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    store: StoreKind,
    leaves: Leaves,
    beyond: Vec<u32>,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C03";
    const RULE: &'static str = "case = (a base tree or a tree of trees, store, leaf values, some indexes past the end); all leaves of small trees and a spread of leaves of \
        larger ones are proved; non-trivial: a tree of at least three rows whose leaves are not all equal";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = t.pick(1usize << 15, 1 << 17);
        (
            prop_oneof![
                10 => (shape(ARITIES, 512, 4096, 20, 1), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                1 => (shape(ARITIES, 4096, big, 70, 1), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                8 => compound(256).prop_map(|(k, levels)| Kind::Compound { k, levels }),
            ],
            store_kind(),
            leaves(),
            proptest::collection::vec(any::<u32>(), 1..5),
        )
            .prop_map(|(kind, store, leaves, beyond)| Case { kind, store, leaves, beyond })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(48_000, 600_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for store in [StoreKind::Vec, StoreKind::Disk, StoreKind::Mmap] {
            for (arity, levels) in [(2, 17), (4, 9), (8, 6), (16, 4), (64, 3)] {
                v.push(Case { kind: Kind::Base { shape: Shape { arity, levels }, ea: 0 }, store, leaves: Leaves { seed: 2, mode: 0 }, beyond: vec![0] });
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        if c.leaves.mode != 1 && c.leaves.mode != 3 {
            cx.nontrivial();
        }
        match c.kind {
            Kind::Base { shape, ea } => {
                if shape.levels < 2 {
                    cx.nontrivial = false;
                }
                with_eab!(shape.arity, ea, E, A, B, with_store!(c.store, E, S, base::<E, A, S, B>(c, shape, cx)))
            }
            Kind::Compound { k, levels } => {
                with_compound!(k, E, A, B, Sub, Top, with_store!(c.store, E, S, comp::<E, A, S, B, Sub, Top>(c, k, levels, cx)))
            }
        }
    }
    fn assumptions() -> Vec<String> {
        vec!["at most 2^17 leaves; 11 shapes of trees of trees; the hash algorithms of the harness".into()]
    }
}

fn base<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned>(c: &Case, shape: Shape, cx: &mut Cx) -> Result<(), String> {
    let items: Vec<E> = c.leaves.items(shape.leafs());
    let r = RefTree::<E>::from_items::<A>(&items, shape.arity);
    cx.label(format!("base arity {} {:?}", shape.arity, c.store));
    let t = MerkleTree::<E, A, S, B>::new(items.iter().copied()).map_err(|e| format!("build: {:?}", e))?;
    let n = shape.leafs();
    let mut idx = positions(n, c.leaves.seed, 300);
    if n > 300 {
        // whole sibling groups
        idx.extend((n / 2..n / 2 + shape.arity).filter(|i| *i < n));
    }
    cx.count("proofs", idx.len() as u64);
    for i in idx {
        one::<E, A, B>(t.gen_proof(i), &r.ref_proof(i), shape.arity, i, r.leaves()[i], r.root())?;
    }
    outside(&t, n, &c.beyond)?;
    for i in [t.len() - 1, t.len(), n + shape.arity] {
        req!(matches!(guard(|| t.gen_proof(i)), Ok(Err(_))), "gen_proof({}) of a tree with {} leaves is no error", i, n);
    }
    Ok(())
}

fn one<E: RElem, A: RefAlg<E>, B: Unsigned>(
    p: anyhow::Result<merkletree::proof::Proof<E, B>>,
    want: &RefProof<E>,
    arity: usize,
    i: usize,
    leaf: E,
    root: E,
) -> Result<(), String> {
    let p = p.map_err(|e| format!("gen_proof({}): {:?}", i, e))?;
    same_proof(&p, want).map_err(|e| format!("proof of leaf {}: {}", i, e))?;
    match p.validate::<A>() {
        Ok(true) => {}
        o => fail!("the proof of leaf {} is not accepted: {:?}", i, o),
    }
    if !want.holds::<A>(arity) {
        infra("reference proof does not hold");
    }
    req!(p.item() == leaf, "item() of the proof of leaf {} is not that leaf", i);
    req!(p.root() == root, "root() of the proof of leaf {} is not the root of the tree", i);
    Ok(())
}

fn outside<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(
    t: &MerkleTree<E, A, S, B, Sub, Top>,
    n: usize,
    beyond: &[u32],
) -> Result<(), String> {
    for i in [n, n + 1, 2 * n, usize::MAX >> 8].into_iter().chain(beyond.iter().map(|x| n + *x as usize)) {
        match guard(|| t.gen_proof(i)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => fail!("gen_proof({}) of a tree with {} leaves is no error", i, n),
            Err(p) => fail!("gen_proof({}) of a tree with {} leaves panics: {}", i, n, p),
        }
    }
    Ok(())
}

fn comp<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(
    c: &Case,
    k: usize,
    levels: u32,
    cx: &mut Cx,
) -> Result<(), String> {
    let (r, items) = ref_compound::<E, A>(k, levels, c.leaves);
    cx.label(format!("compound {:?}", COMPOUNDS[k]));
    let mut trees = vec![];
    for v in &items {
        trees.push(MerkleTree::<E, A, S, B>::new(v.iter().copied()).map_err(|e| format!("build: {:?}", e))?);
    }
    let t = if r.top > 0 {
        MerkleTree::<E, A, S, B, Sub, Top>::from_sub_trees_as_trees(trees)
    } else {
        MerkleTree::<E, A, S, B, Sub, Top>::from_trees(trees)
    }
    .map_err(|e| format!("assembling: {:?}", e))?;
    let n = r.leafs();
    let w = r.bases[0].leaves().len();
    let mut idx = positions(n, c.leaves.seed, 200);
    // both ends of every base tree
    idx.extend((0..r.bases.len()).flat_map(|b| [b * w, b * w + w - 1]));
    cx.count("proofs", idx.len() as u64);
    for i in idx {
        let want = r.proof(i);
        let p = t.gen_proof(i);
        if let Ok(p) = &p {
            let inner = want.inner.as_ref().unwrap();
            req!(guard(|| p.sub_tree_root()) == Ok(inner.root().unwrap()), "sub_tree_root() of the proof of leaf {}", i);
        }
        one::<E, A, B>(p, &want, COMPOUNDS[k].0, i, r.leaf(i), r.root)?;
    }
    outside(&t, n, &c.beyond)
}

fn main() {
    mtverif::main::<P>()
}
