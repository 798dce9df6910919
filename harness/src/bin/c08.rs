//! C08: building compact gives what building in full and compacting gives.
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::store::{DiskStore, LevelCacheStore, Store};
use mtverif::*;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use typenum::Unsigned;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum How {
    Iter,
    New,
    Par,
    Bytes,
    Data,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    ea: u8,
    how: How,
    /// 100 + x: x brought into the valid range
    discard: u8,
    leaves: Leaves,
    pick: u64,
}

struct P;
impl Prop for P {
    const ID: &'static str = "C08";
    const RULE: &'static str = "case = (shape, constructor, discard count, leaf values); non-trivial: valid discard count, at least three rows, leaves not all equal";
    type Case = Case;
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let big = t.pick(1usize << 15, 1 << 18);
        (
            prop_oneof![12 => shape(ARITIES, 1024, 4096, 20, 1), 1 => shape(ARITIES, 4096, big, 70, 2)],
            0u8..2,
            prop_oneof![Just(How::Iter), Just(How::New), Just(How::Par), Just(How::Bytes), Just(How::Data)],
            prop_oneof![5 => 100u8..115, 1 => 0u8..16],
            leaves(),
            any::<u64>(),
        )
            .prop_map(|(shape, ea, how, discard, leaves, pick)| Case { shape, ea, how, discard, leaves, pick })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(20_000, 300_000)
    }
    fn fixed(_t: Tier) -> Vec<Case> {
        let mut v = vec![];
        for (arity, levels, d, how) in [
            (2, 18, 107, How::Iter),
            (2, 19, 103, How::Par),
            (4, 9, 105, How::Bytes),
            (8, 6, 102, How::Par),
            (16, 4, 101, How::New),
            (64, 3, 101, How::Data),
            (2, 16, 115, How::Iter),
            (2, 14, 100, How::Bytes),
        ] {
            v.push(Case { shape: Shape { arity, levels }, ea: 0, how, discard: d, leaves: Leaves { seed: 1, mode: 0 }, pick: 3 });
        }
        v
    }
    fn rayon_threads() -> usize {
        3
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        with_eab!(c.shape.arity, c.ea, E, A, B, go::<E, A, B>(c, cx))
    }
    fn assumptions() -> Vec<String> {
        vec!["the base row of a tree built compact is served by an external reader that is set before it is read".into()]
    }
}

type L<E, A, B> = MerkleTree<E, A, Lc<E>, B>;

fn go<E: RElem, A: RefAlg<E>, B: Unsigned>(c: &Case, cx: &mut Cx) -> Result<(), String> {
    let n = c.shape.leafs();
    let levels = c.shape.levels as usize;
    let arity = c.shape.arity;
    let d = if c.discard >= 100 { (c.discard as usize - 100) % levels } else { c.discard as usize };
    let data: Vec<E> = c.leaves.items(n);
    // Data hashes the raw bytes first
    let items: Vec<E> = if c.how == How::Data { data.iter().map(|x| A::r_data(x.bytes())).collect() } else { data.clone() };
    let r = RefTree::<E>::from_items::<A>(&items, arity);
    let dir = cx.dir();
    let cfg = config(&dir, "t", d);
    let file = data_file(&dir, "t");
    let hashed = to_bytes(r.leaves());
    let build = |cfg: merkletree::store::StoreConfig| -> anyhow::Result<L<E, A, B>> {
        match c.how {
            How::Iter => L::try_from_iter_with_config(items.iter().map(|x| Ok(*x)), cfg),
            How::New => L::new_with_config(items.iter().copied(), cfg),
            How::Par => L::from_par_iter_with_config(items.par_iter().copied(), cfg),
            How::Bytes => L::from_byte_slice_with_config(&hashed, cfg),
            How::Data => L::from_data_with_config(data.iter().map(|x| x.bytes().to_vec()), cfg),
        }
    };
    let res = match guard(|| build(cfg.clone())) {
        Ok(x) => x,
        Err(p) => fail!("building with discard {} panics: {}", d, p),
    };
    if d >= levels {
        cx.label("invalid discard count");
        req!(res.is_err(), "a tree with {} rows above the base is built with a discard count of {}", levels, d);
        req!(read_file(&file).is_none(), "a refused build (discard {}) leaves a store file behind", d);
        return Ok(());
    }
    cx.label(format!("{:?}", c.how));
    if levels >= 2 && c.leaves.mode != 1 && c.leaves.mode != 3 {
        cx.nontrivial();
    }
    let mut t = res.map_err(|e| format!("building with discard {}: {:?}", d, e))?;
    let want = to_bytes(&r.cached(d));
    let got = read_file(&file).ok_or("no store file")?;
    req!(got == want, "the store file (discard {}) is not the cached part of the tree ({} bytes, wanted {})", d, got.len(), want.len());
    same_header(&t, &r)?;
    let rep = dir.join("replica");
    write_file(&rep, &hashed);
    t.set_external_reader_path(&rep).map_err(|e| format!("set reader: {:?}", e))?;
    same_lc_tree(&t, &r, d, c.pick, 6).map_err(|e| format!("built compact (discard {}): {}", d, e))?;
    drop(t);
    req!(read_file(&file).as_ref() == Some(&want), "the store file changed after it was built");
    // the long way
    let mut full = MerkleTree::<E, A, DiskStore<E>, B>::new_with_config(items.iter().copied(), config(&dir, "full", d)).map_err(|e| format!("full build: {:?}", e))?;
    full.compact(config(&dir, "full", d), 2).map_err(|e| format!("compact: {:?}", e))?;
    req!(read_file(&data_file(&dir, "full")).as_ref() == Some(&want), "compacting a full tree (discard {}) gives another file than building compact", d);
    // from the bytes of the complete tree: as the older format
    let t = L::<E, A, B>::from_tree_slice_with_config(&r.flat_bytes(), n, config(&dir, "v1", d)).map_err(|e| format!("from complete bytes (discard {}): {:?}", d, e))?;
    same_lc_tree(&t, &r, d, c.pick, 3).map_err(|e| format!("from complete bytes (discard {}): {}", d, e))?;
    drop(t);
    let mut v1 = hashed.clone();
    v1.extend(&want);
    let got = read_file(&data_file(&dir, "v1")).ok_or("no store file")?;
    req!(got == v1, "the store file of a tree from complete bytes (discard {}) is not leaves and cached rows ({} bytes, wanted {})", d, got.len(), v1.len());
    let mut full = MerkleTree::<E, A, DiskStore<E>, B>::new_with_config(items.iter().copied(), config(&dir, "full1", d)).map_err(|e| format!("full build: {:?}", e))?;
    full.compact(config(&dir, "full1", d), 1).map_err(|e| format!("compact: {:?}", e))?;
    req!(read_file(&data_file(&dir, "full1")).as_ref() == Some(&v1), "compacting a full tree (discard {}, older format) gives another file than complete bytes", d);
    let s = Lc::<E>::new_from_disk(r.len(), arity, &config(&dir, "v1", d)).map_err(|e| format!("reopen (older format): {:?}", e))?;
    let t = L::<E, A, B>::from_data_store(s, n).map_err(|e| format!("reopen as tree (older format): {:?}", e))?;
    same_lc_tree(&t, &r, d, c.pick, 3).map_err(|e| format!("reopened (older format, discard {}): {}", d, e))?;
    // reopen
    let s = LevelCacheStore::new_from_disk_with_reader(r.len(), arity, &cfg, file_reader(&rep)).map_err(|e| format!("reopen: {:?}", e))?;
    let t = L::<E, A, B>::from_data_store(s, n).map_err(|e| format!("reopen as tree: {:?}", e))?;
    same_lc_tree(&t, &r, d, c.pick, 3).map_err(|e| format!("reopened (discard {}): {}", d, e))?;
    // building again over it: refused, or the same tree; never another file
    if let Ok(Ok(t)) = guard(|| build(cfg.clone())) {
        req!(t.root() == r.root(), "building again over the file gives another root");
    }
    req!(read_file(&file).as_ref() == Some(&want), "building again changed the file");
    Ok(())
}

fn main() {
    mtverif::main::<P>()
}
