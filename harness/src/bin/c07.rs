//! C07: compaction keeps exactly the configured rows, and the compacted tree answers as before.
use merkletree::merkle::MerkleTree;
use merkletree::store::{DiskStore, LevelCacheStore, MmapStore, Store, VecStore};
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    store: StoreKind,
    /// (discard, version) of the compactions tried one after another; 100 + x: x brought into the valid range
    steps: Vec<(u8, u8)>,
    /// reopen the full tree from disk before the first one
    reopen: bool,
    /// discard count of the configuration the tree was built with
    built_with: u8,
    /// another discard count to open it with
    wrong: u8,
    leaves: Leaves,
    pick: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C07";
    const RULE: &'static str = "case = (shape, store, a sequence of compactions with discard counts and format versions, valid or not, whether the tree is reopened before); \
        non-trivial: a disk tree of at least three rows with leaves that are not all equal, compacted with a valid discard count";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = t.pick(1usize << 14, 1 << 17);
        (
            prop_oneof![12 => shape(ARITIES, 1024, 4096, 15, 1), 1 => shape(ARITIES, 4096, big, 70, 2)],
            0u8..2,
            prop_oneof![8 => Just(StoreKind::Disk), 1 => Just(StoreKind::Mmap), 1 => Just(StoreKind::Vec)],
            proptest::collection::vec((prop_oneof![3 => 100u8..110, 1 => 0u8..12], prop_oneof![Just(1u8), Just(2u8)]), 1..4),
            any::<bool>(),
            0u8..4,
            0u8..10,
            leaves(),
            any::<u64>(),
        )
            .prop_map(|(shape, ea, store, steps, reopen, built_with, wrong, leaves, pick)| Case { shape, ea, store, steps, reopen, built_with, wrong, leaves, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(30_000, 500_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for (arity, levels, d, ver) in [(2, 18, 7, 1), (2, 18, 7, 2), (4, 9, 5, 1), (8, 6, 2, 2), (16, 4, 1, 1), (64, 3, 1, 2), (8, 6, 2, 1), (2, 17, 0, 2)] {
            v.push(Case {
                shape: Shape { arity, levels },
                ea: 0,
                store: StoreKind::Disk,
                steps: vec![(d, ver)],
                reopen: false,
                built_with: 0,
                wrong: d + 1,
                leaves: Leaves { seed: 1, mode: 0 },
                pick: 3,
            });
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, match c.store {
            StoreKind::Disk => disk::<E, A, B>(c, cx),
            StoreKind::Mmap => mmap::<E, A, B>(c, cx),
            StoreKind::Vec => vecs::<E, A, B>(c, cx),
        })
    }
    fn assumptions() -> Vec<String> {
        vec!["format version 1 keeps the base row in front of the cached rows, version 2 keeps the cached rows only; the base row of version 2 trees is served from a file that holds it".into()]
    }
}

fn layout<E: RElem>(r: &RefTree<E>, d: usize, v: u8) -> Vec<u8> {
    let mut b = if v == 1 { to_bytes(r.leaves()) } else { vec![] };
    b.extend(to_bytes(&r.cached(d)));
    b
}

fn disk<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let levels = c.shape.levels as usize;
    let dir = cx.dir();
    let file = data_file(&dir, "t");
    // an unrelated tree next to it
    let bystander = data_file(&dir, "t2");
    write_file(&bystander, b"not a tree");
    let rep = dir.join("replica");
    write_file(&rep, &to_bytes(r.leaves()));
    let arity = c.shape.arity;
    type T<E, A, B> = MerkleTree<E, A, DiskStore<E>, B>;
    let mut t = T::<E, A, B>::new_with_config(items.iter().copied(), config(&dir, "t", c.built_with as usize)).map_err(|e| format!("build: {:?}", e))?;
    if c.reopen {
        drop(t);
        let s = DiskStore::new_from_disk(r.len(), arity, &config(&dir, "t", c.built_with as usize)).map_err(|e| format!("reopen: {:?}", e))?;
        t = T::from_data_store(s, n).map_err(|e| format!("reopen as tree: {:?}", e))?;
    }
    let mut now = r.flat_bytes();
    req!(read_file(&file).as_ref() == Some(&now), "the built file is not the tree");
    let mut state: Option<(usize, u8)> = None;
    for &(d, v) in &c.steps {
        let d = if d >= 100 { (d as usize - 100) % levels } else { d as usize };
        let valid = d < levels;
        let cfg = config(&dir, "t", d);
        let res = match guard(|| t.compact(cfg.clone(), v as u32)) {
            Ok(x) => x,
            Err(p) => fail!("compact(discard {}, version {}) panics: {}", d, v, p),
        };
        let bytes = read_file(&file).ok_or("the file is gone")?;
        match res {
            Ok(done) => {
                req!(done, "compact(discard {}, version {}) does nothing", d, v);
                req!(valid, "compact(discard {}) of a tree of {} rows above the base succeeds", d, levels);
                req!(bytes == layout(&r, d, v), "compact(discard {}, version {}) after {:?}: the file is not the configured part of the tree ({} bytes, wanted {})", d, v, state, bytes.len(), layout(&r, d, v).len());
                state = Some((d, v));
                now = bytes;
                if c.shape.levels >= 2 && c.leaves.mode != 1 && c.leaves.mode != 3 {
                    cx.nontrivial();
                }
                cx.label(format!("compacted version {}", v));
            }
            Err(e) => {
                req!(bytes == now, "compact(discard {}, version {}) after {:?} fails ({}) and changes the file", d, v, state, e);
                req!(!(valid && state.is_none()), "compact(discard {}, version {}) of a full tree with {} rows above the base: {:?}", d, v, levels, e);
                cx.label("refused");
                if state.is_none() {
                    same_tree(&t, &r, c.pick, 4).map_err(|e| format!("after a refused compaction (discard {}): {}", d, e))?;
                }
            }
        }
        req!(t.root() == r.root() && t.leafs() == n && t.row_count() == r.rows.len(), "root, leaf or row count changed by compaction");
        req!(read_file(&bystander).as_deref() == Some(&b"not a tree"[..]), "an unrelated file was changed");
    }
    drop(t);
    // what the consistency checks say, for the count used and for others
    let size = now.len();
    for d in [state.map_or(0, |s| s.0), c.wrong as usize, 0] {
        let cfg = config(&dir, "t", d);
        if d < levels {
            let v2 = to_bytes(&r.cached(d)).len();
            let v1 = v2 + n * E::LEN;
            let got = Lc::<E>::is_consistent(r.len(), arity, &cfg).map_err(|e| format!("is_consistent: {:?}", e))?;
            req!(got == (size == v2), "is_consistent(discard {}) = {} for a file of {} bytes (cached rows: {})", d, got, size, v2);
            let got = Lc::<E>::is_consistent_v1(r.len(), arity, &cfg).map_err(|e| format!("is_consistent_v1: {:?}", e))?;
            req!(got == (size == v1), "is_consistent_v1(discard {}) = {} for a file of {} bytes", d, got, size);
            if size != v2 {
                req!(
                    LevelCacheStore::<E, std::fs::File>::new_from_disk_with_reader(r.len(), arity, &cfg, file_reader(&rep)).is_err(),
                    "a file of {} bytes opens with a discard count of {} that needs {}", size, d, v2
                );
            }
        } else {
            req!(guard(|| Lc::<E>::is_consistent(r.len(), arity, &cfg).map_or(false, |x| x)) == Ok(false), "is_consistent for an impossible discard count");
        }
        let got = DiskStore::<E>::is_consistent(r.len(), arity, &cfg).map_err(|e| format!("is_consistent: {:?}", e))?;
        req!(got == (size == r.len() * E::LEN), "disk is_consistent = {} for {} bytes", got, size);
    }
    let none = config(&dir, "absent", 0);
    req!(
        Lc::<E>::is_consistent(r.len(), arity, &none).is_err() && Lc::<E>::is_consistent_v1(r.len(), arity, &none).is_err() && DiskStore::<E>::is_consistent(r.len(), arity, &none).is_err(),
        "a missing store is consistent"
    );
    // and the tree is still all there
    if let Some((d, v)) = state {
        let cfg = config(&dir, "t", d);
        type L<E, A, B> = MerkleTree<E, A, Lc<E>, B>;
        let mut opened: Vec<(&str, L<E, A, B>)> = vec![];
        let open = |s: anyhow::Result<Lc<E>>| -> Result<L<E, A, B>, String> {
            L::from_data_store(s.map_err(|e| format!("reopen: {:?}", e))?, n).map_err(|e| format!("reopen as tree: {:?}", e))
        };
        if v == 1 {
            opened.push(("v1", open(Lc::<E>::new_from_disk(r.len(), arity, &cfg))?));
            opened.push(("v1 by config", open(Lc::<E>::new_with_config(r.len(), arity, cfg.clone()))?));
        } else {
            opened.push(("v2", open(LevelCacheStore::new_from_disk_with_reader(r.len(), arity, &cfg, file_reader(&rep)))?));
            let mut s = Lc::<E>::new_from_disk(r.len(), arity, &cfg).map_err(|e| format!("reopen: {:?}", e))?;
            s.set_external_reader(file_reader(&rep)).map_err(|e| format!("{:?}", e))?;
            opened.push(("v2 with a reader set later", open(Ok(s))?));
        }
        for (name, mut t) in opened {
            same_lc_tree(&t, &r, d, c.pick, 6).map_err(|e| format!("{} (discard {}): {}", name, d, e))?;
            let again = guard(|| t.compact(cfg.clone(), v as u32));
            req!(matches!(again, Ok(Err(_))), "compacting a level cache store is no error: {:?}", again);
            req!(read_file(&file).as_ref() == Some(&now), "the compacted file changed");
        }
    }
    Ok(())
}

fn mmap<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let dir = cx.dir();
    cx.label("Mmap");
    let mut t = MerkleTree::<E, A, MmapStore<E>, B>::new_with_config(items.iter().copied(), config(&dir, "t", 0)).map_err(|e| format!("build: {:?}", e))?;
    let file = data_file(&dir, "t");
    let mut mapped = true;
    for &(d, v) in &c.steps {
        let res = t.compact(config(&dir, "t", d as usize), v as u32).map_err(|e| format!("compact: {:?}", e))?;
        req!(res == mapped, "compact reports {}", res);
        mapped = false;
        req!(t.root() == r.root(), "root changed");
        for i in [0, n - 1, r.len() - 1] {
            match guard(|| t.read_at(i)) {
                Ok(Err(_)) => {}
                Ok(Ok(e)) => req!(e == r.flat()[i], "read_at({}) is wrong after compaction", i),
                Err(p) => fail!("read_at({}) panics after compaction: {}", i, p),
            }
        }
        req!(read_file(&file) == Some(r.flat_bytes()), "the file changed");
        if d % 2 == 0 {
            t.reinit().map_err(|e| format!("reinit: {:?}", e))?;
            same_tree(&t, &r, c.pick, 4).map_err(|e| format!("after reinit: {}", e))?;
            mapped = true;
        }
    }
    t.reinit().map_err(|e| format!("reinit: {:?}", e))?;
    same_tree(&t, &r, c.pick, 4).map_err(|e| format!("after reinit: {}", e))
}

fn vecs<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let items: Vec<E> = c.leaves.items(n);
    let r = RefTree::<E>::from_items::<A>(&items, c.shape.arity);
    let dir = cx.dir();
    cx.label("Vec");
    let mut t = MerkleTree::<E, A, VecStore<E>, B>::new(items.iter().copied()).map_err(|e| format!("build: {:?}", e))?;
    for &(d, v) in &c.steps {
        let ok = t.compact(config(&dir, "t", d as usize), v as u32).map_err(|e| format!("compact: {:?}", e))?;
        req!(ok, "compact reports false");
        t.reinit().map_err(|e| format!("reinit: {:?}", e))?;
        same_tree(&t, &r, c.pick, 4).map_err(|e| format!("in memory, after compaction: {}", e))?;
    }
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
