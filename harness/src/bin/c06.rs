//! C06: a proof generated from cached rows is the proof generated from the whole tree.
use merkletree::merkle::MerkleTree;
use merkletree::store::{DiskStore, LevelCacheStore, Store};
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Base { shape: Shape, ea: u8 },
    Compound { k: usize, levels: u32 },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Backing {
    /// everything on disk
    Full,
    /// compacted, base rows kept
    V1,
    /// compacted, base rows elsewhere
    V2,
    /// built compact
    Direct,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    backing: Backing,
    discard: u8,
    /// requested discard counts; 255 stands for none
    ask: Vec<u8>,
    leaves: Leaves,
    pick: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C06";
    const RULE: &'static str = "case = (base tree or tree of trees, full / compacted v1 / compacted v2 / built compact, rows discarded by the store, rows requested to be skipped, \
        leaf values, leaves to prove); non-trivial: at least three rows, leaves not all equal";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = t.pick(1usize << 14, 1 << 16);
        (
            prop_oneof![
                20 => (shape(ARITIES, 1024, 4096, 15, 1), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                1 => (shape(&[2, 4, 8, 16], 4096, big, 80, 2), 0u8..2).prop_map(|(shape, ea)| Kind::Base { shape, ea }),
                10 => compound(128).prop_map(|(k, levels)| Kind::Compound { k, levels }),
            ],
            prop_oneof![Just(Backing::Full), Just(Backing::V1), Just(Backing::V2), Just(Backing::Direct)],
            any::<u8>(),
            proptest::collection::vec(prop_oneof![2 => Just(255u8), 5 => 0u8..10, 1 => 10u8..40], 1..4),
            leaves(),
            any::<u64>(),
        )
            .prop_map(|(kind, backing, discard, ask, leaves, pick)| Case { kind, backing, discard, ask, leaves, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(32_000, 500_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for backing in [Backing::Full, Backing::V1, Backing::V2, Backing::Direct] {
            for (arity, levels, discard) in [(4, 8, 5), (2, 15, 7), (64, 3, 1), (16, 4, 2), (8, 5, 2)] {
                v.push(Case {
                    kind: Kind::Base { shape: Shape { arity, levels }, ea: 0 },
                    backing,
                    discard,
                    ask: vec![255, discard, 39, 0],
                    leaves: Leaves { seed: 4, mode: 0 },
                    pick: 11,
                });
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        if c.leaves.mode != 1 && c.leaves.mode != 3 {
            cx.nontrivial();
        }
        match c.kind {
            Kind::Base { shape, ea } => {
                if shape.levels < 2 {
                    cx.nontrivial = false;
                }
                with_eab!(shape.arity, ea, E, A, B, base::<E, A, B>(c, shape, cx))
            }
            Kind::Compound { k, levels } => with_compound!(k, E, A, B, Sub, Top, comp::<E, A, B, Sub, Top>(c, k, levels, cx)),
        }
    }
    fn assumptions() -> Vec<String> {
        vec![
            "only stores that can read ranges into a buffer generate cached proofs (disk and level cache)".into(),
            "a level cache that dropped more rows than the request covers may refuse, but not answer differently".into(),
        ]
    }
}

fn disk<E: RElem, A: RefAlg<E>, B: Unsigned>(items: &[E], dir: &std::path::Path, id: &str, d: usize) -> Result<MerkleTree<E, A, DiskStore<E>, B>, String> {
    MerkleTree::new_with_config(items.iter().copied(), config(dir, id, d)).map_err(|e| format!("build: {:?}", e))
}
fn cached<E: RElem, A: RefAlg<E>, B: Unsigned>(
    c: &Case,
    items: &[E],
    r: &RefTree<E>,
    dir: &std::path::Path,
    id: &str,
    d: usize,
) -> Result<MerkleTree<E, A, Lc<E>, B>, String> {
    let cfg = config(dir, id, d);
    let rep = dir.join(format!("replica-{}", id));
    if c.backing != Backing::V1 {
        write_file(&rep, &to_bytes(r.leaves()));
    }
    if c.backing == Backing::Direct {
        let mut t = MerkleTree::<E, A, Lc<E>, B>::new_with_config(items.iter().copied(), cfg).map_err(|e| format!("level cache build: {:?}", e))?;
        t.set_external_reader_path(&rep).map_err(|e| format!("set reader: {:?}", e))?;
        return Ok(t);
    }
    let mut t = disk::<E, A, B>(items, dir, id, d)?;
    let v = if c.backing == Backing::V1 { 1 } else { 2 };
    match t.compact(cfg.clone(), v) {
        Ok(true) => {}
        o => return Err(format!("compact: {:?}", o)),
    }
    drop(t);
    let s: Lc<E> = if v == 1 {
        Lc::<E>::new_from_disk(r.len(), r.arity, &cfg)
    } else {
        LevelCacheStore::new_from_disk_with_reader(r.len(), r.arity, &cfg, file_reader(&rep))
    }
    .map_err(|e| format!("reopen: {:?}", e))?;
    MerkleTree::from_data_store(s, r.leaves().len()).map_err(|e| format!("reopen as tree: {:?}", e))
}

fn ask(a: u8) -> Option<usize> {
    if a == 255 {
        None
    } else {
        Some(a as usize)
    }
}

/// `dropped`: rows the stores no longer have (None: nothing dropped)
fn prove<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(
    c: &Case,
    t: &MerkleTree<E, A, S, B, Sub, Top>,
    n: usize,
    idx: Vec<usize>,
    proof: impl Fn(usize) -> RefProof<E>,
    dropped: Option<usize>,
    default: usize,
    cx: &mut Cx,
) -> Result<(), String> {
    for &a in &c.ask {
        let eff = ask(a).unwrap_or(default).min(default);
        for &i in &idx {
            let want = proof(i);
            match guard(|| t.gen_cached_proof(i, ask(a))) {
                Ok(Ok(p)) => {
                    same_proof(&p, &want).map_err(|e| format!("cached proof of leaf {} (requested {:?}): {}", i, ask(a), e))?;
                    match p.validate::<A>() {
                        Ok(true) => {}
                        o => fail!("cached proof of leaf {} (requested {:?}) is not accepted: {:?}", i, ask(a), o),
                    }
                    cx.count("proofs", 1);
                }
                Ok(Err(e)) => {
                    req!(dropped.map_or(false, |d| eff < d), "gen_cached_proof({}, {:?}): {:?}", i, ask(a), e);
                    cx.count("refused: rows are gone", 1);
                }
                Err(p) => fail!("gen_cached_proof({}, {:?}) panics: {}", i, ask(a), p),
            }
        }
        for i in [n, n + 1, n * 3, usize::MAX >> 8] {
            match guard(|| t.gen_cached_proof(i, ask(a))) {
                Ok(Err(_)) => {}
                Ok(Ok(_)) => fail!("gen_cached_proof({}) of a tree with {} leaves is no error", i, n),
                Err(p) => fail!("gen_cached_proof({}) of a tree with {} leaves panics: {}", i, n, p),
            }
        }
    }
    // the ordinary proof: the same one, or refused if rows are gone
    for &i in idx.iter().take(4) {
        match guard(|| t.gen_proof(i)) {
            Ok(Ok(p)) => same_proof(&p, &proof(i)).map_err(|e| format!("full proof of leaf {}: {}", i, e))?,
            Ok(Err(e)) => req!(dropped.map_or(false, |d| d > 0), "gen_proof({}): {:?}", i, e),
            Err(p) => fail!("gen_proof({}) panics: {}", i, p),
        }
    }
    Ok(())
}

fn base<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, shape: Shape, cx: &mut Cx) -> Result<(), String> {
    let n = shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, shape.arity);
    let d = c.discard as usize % (shape.max_discard() + 1);
    let default = default_discard(shape.arity, shape.levels as usize);
    let dir = cx.dir();
    cx.label(format!("{:?}", c.backing));
    let idx = positions(n, c.pick, if n > 5000 { 8 } else { 12 });
    if c.backing == Backing::Full {
        let t = disk::<E, A, B>(&items, &dir, "t", d)?;
        prove(c, &t, n, idx, |i| r.ref_proof(i), None, default, cx)
    } else {
        let t = cached::<E, A, B>(c, &items, &r, &dir, "t", d)?;
        prove(c, &t, n, idx, |i| r.ref_proof(i), Some(d), default, cx)
    }
}

fn comp<E: RElem, A: RefAlg<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(c: &Case, k: usize, levels: u32, cx: &mut Cx) -> Result<(), String> {
    let (r, items) = ref_compound::<E, A>(k, levels, c.leaves);
    let arity = COMPOUNDS[k].0;
    let d = c.discard as usize % levels as usize;
    let default = default_discard(arity, levels as usize);
    let dir = cx.dir();
    cx.label(format!("compound {:?}", c.backing));
    let n = r.leafs();
    let mut idx = positions(n, c.pick, 12);
    let w = r.bases[0].leaves().len();
    idx.extend((0..r.bases.len()).map(|b| b * w + (c.pick as usize % w)));
    if c.backing == Backing::Full {
        let mut v = vec![];
        for (b, it) in items.iter().enumerate() {
            v.push(disk::<E, A, B>(it, &dir, &format!("t{}", b), d)?);
        }
        let t = assemble::<E, A, _, B, Sub, Top>(v)?;
        prove(c, &t, n, idx, |i| r.proof(i), None, default, cx)
    } else {
        let mut v = vec![];
        for (b, it) in items.iter().enumerate() {
            v.push(cached::<E, A, B>(c, it, &r.bases[b], &dir, &format!("t{}", b), d)?);
        }
        let t = assemble::<E, A, _, B, Sub, Top>(v)?;
        prove(c, &t, n, idx, |i| r.proof(i), Some(d), default, cx)
    }
}
fn assemble<E: RElem, A: RefAlg<E>, S: Store<E>, B: Unsigned, Sub: Unsigned, Top: Unsigned>(
    v: Vec<MerkleTree<E, A, S, B>>,
) -> Result<MerkleTree<E, A, S, B, Sub, Top>, String> {
    if Top::to_usize() > 0 {
        MerkleTree::from_sub_trees_as_trees(v)
    } else {
        MerkleTree::from_trees(v)
    }
    .map_err(|e| format!("assembling: {:?}", e))
}

fn main() {
    mtverif::main::<P>()
}
