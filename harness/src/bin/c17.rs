//! C17: the bytes that are hashed for a value are the canonical encoding of the value.
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::MerkleTree;
use merkletree::store::VecStore;
use mtverif::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::Hasher;
use typenum::U2;

/// Records the stream of bytes.
#[derive(Clone, Debug, Default, PartialEq)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
impl Algorithm<Vec<u8>> for Rec {
    fn hash(&mut self) -> Vec<u8> {
        self.0.clone()
    }
}

macro_rules! val {
    ($($v:ident $t:ty),*) => {
        #[derive(Clone, Debug, Serialize, Deserialize)]
        enum Val {
            Unit,
            $($v($t),)*
            Bool(bool),
            Char(char),
            Str(String),
            Owned(String),
            Bytes(Vec<u8>),
            Array(Vec<u8>),
            Tuple(Vec<Val>),
            Ref(Box<Val>, bool),
            Slice(Vec<Val>),
            Ints(Ints),
            Arrays(u8, Vec<u8>),
            Bools(Vec<bool>),
            Chars(Vec<char>),
            Strings(Vec<String>),
            Blobs(Vec<Vec<u8>>),
            Pairs(Vec<(u16, bool)>),
            Thin(u64, bool),
            Fat(u64, u32, bool),
        }
        #[derive(Clone, Debug, Serialize, Deserialize)]
        enum Ints { $($v(Vec<$t>),)* }
        impl Ints {
            fn feed<H: Hasher>(&self, s: &mut H) {
                match self { $(Ints::$v(v) => Hashable::hash(&v[..], s),)* }
            }
            fn feed_slice<H: Hasher>(&self, s: &mut H) {
                match self { $(Ints::$v(v) => <$t as Hashable<H>>::hash_slice(v, s),)* }
            }
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $(Ints::$v(v) => v.iter().for_each(|x| o.extend_from_slice(&x.to_ne_bytes())),)* }
            }
        }
        impl Val {
            fn int<H: Hasher>(&self, s: &mut H) {
                match self { $(Val::$v(x) => Hashable::hash(x, s),)* _ => unreachable!() }
            }
            fn int_enc(&self, o: &mut Vec<u8>) {
                match self { $(Val::$v(x) => o.extend_from_slice(&x.to_ne_bytes()),)* _ => unreachable!() }
            }
        }
        fn int_val() -> BoxedStrategy<Val> {
            proptest::strategy::Union::new([$(any::<$t>().prop_map(Val::$v).boxed()),*]).boxed()
        }
        fn ints() -> BoxedStrategy<Ints> {
            proptest::strategy::Union::new([$(proptest::collection::vec(any::<$t>(), 0..6).prop_map(Ints::$v).boxed()),*]).boxed()
        }
    };
}
val!(U8 u8, U16 u16, U32 u32, U64 u64, Usize usize, I8 i8, I16 i16, I32 i32, I64 i64, Isize isize, U128 u128, I128 i128);

macro_rules! arrays {
    ($n:expr, $b:expr, $f:expr, $($k:literal)*) => {
        match $n {
            $($k => { let a: [u8; $k] = $b.try_into().unwrap(); $f(&a) })*
            o => infra(format!("array of {}", o)),
        }
    };
}
const SIZES: &[usize] = &[0, 1, 2, 3, 4, 7, 8, 15, 16, 20, 31, 32, 33, 48, 64];
fn array<H: Hasher>(b: &[u8], s: &mut H) {
    arrays!(b.len(), b, |a| Hashable::hash(a, s), 0 1 2 3 4 7 8 15 16 20 31 32 33 48 64)
}
fn arrays_of<H: Hasher>(n: usize, b: &[u8], s: &mut H) {
    macro_rules! go {
        ($($k:literal)*) => { match n {
            0 => <[[u8; 0]] as Hashable<H>>::hash(&[[], []][..], s),
            $($k => { let v: Vec<[u8; $k]> = b.chunks_exact($k).map(|c| c.try_into().unwrap()).collect(); Hashable::hash(&v[..], s) })*
            o => infra(format!("array of {}", o)),
        } };
    }
    go!(1 2 3 4 7 8 15 16 20 31 32 33 48 64)
}

impl<H: Hasher> Hashable<H> for Val {
    fn hash(&self, s: &mut H) {
        match self {
            Val::Unit => Hashable::hash(&(), s),
            Val::Bool(x) => Hashable::hash(x, s),
            Val::Char(x) => Hashable::hash(x, s),
            Val::Str(x) => Hashable::hash(x.as_str(), s),
            Val::Owned(x) => Hashable::hash(x, s),
            Val::Bytes(x) => Hashable::hash(x, s),
            Val::Array(x) => array(x, s),
            Val::Tuple(v) => {
                macro_rules! t {
                    ($($n:literal: $($i:literal)*;)*) => { match v.len() {
                        0 => Hashable::hash(&(), s),
                        $($n => Hashable::hash(&($(&v[$i],)*), s),)*
                        o => infra(format!("tuple of {}", o)),
                    } };
                }
                t!(1: 0; 2: 0 1; 3: 0 1 2; 4: 0 1 2 3; 5: 0 1 2 3 4; 6: 0 1 2 3 4 5; 7: 0 1 2 3 4 5 6; 8: 0 1 2 3 4 5 6 7; 9: 0 1 2 3 4 5 6 7 8;
                   10: 0 1 2 3 4 5 6 7 8 9; 11: 0 1 2 3 4 5 6 7 8 9 10; 12: 0 1 2 3 4 5 6 7 8 9 10 11;)
            }
            Val::Ref(x, false) => Hashable::hash(&&**x, s),
            Val::Ref(x, true) => {
                let mut y = (**x).clone();
                Hashable::hash(&&mut y, s)
            }
            Val::Slice(v) => Hashable::hash(&v[..], s),
            Val::Ints(v) => v.feed(s),
            Val::Arrays(n, b) => arrays_of(*n as usize, b, s),
            Val::Bools(v) => Hashable::hash(&v[..], s),
            Val::Chars(v) => Hashable::hash(&v[..], s),
            Val::Strings(v) => Hashable::hash(&v[..], s),
            Val::Blobs(v) => Hashable::hash(&v[..], s),
            Val::Pairs(v) => Hashable::hash(&v[..], s),
            Val::Thin(a, m) => {
                let p = *a as usize as *const u32;
                if *m {
                    Hashable::hash(&(p as *mut u32), s)
                } else {
                    Hashable::hash(&p, s)
                }
            }
            Val::Fat(a, n, m) => {
                let p = std::ptr::slice_from_raw_parts(*a as usize as *const u8, *n as usize);
                if *m {
                    Hashable::hash(&(p as *mut [u8]), s)
                } else {
                    Hashable::hash(&p, s)
                }
            }
            _ => self.int(s),
        }
    }
}
/// The encoding, written down independently.
fn enc(v: &Val, o: &mut Vec<u8>) {
    match v {
        Val::Unit => {}
        Val::Bool(x) => o.push(u8::from(*x)),
        Val::Char(x) => o.extend_from_slice(&(*x as u32).to_ne_bytes()),
        Val::Str(x) | Val::Owned(x) => o.extend_from_slice(x.as_bytes()),
        Val::Bytes(x) | Val::Array(x) => o.extend_from_slice(x),
        Val::Tuple(v) | Val::Slice(v) => v.iter().for_each(|x| enc(x, o)),
        Val::Ref(x, _) => enc(x, o),
        Val::Ints(v) => v.enc(o),
        Val::Arrays(_, b) => o.extend_from_slice(b),
        Val::Bools(v) => v.iter().for_each(|x| o.push(u8::from(*x))),
        Val::Chars(v) => v.iter().for_each(|x| o.extend_from_slice(&(*x as u32).to_ne_bytes())),
        Val::Strings(v) => v.iter().for_each(|x| o.extend_from_slice(x.as_bytes())),
        Val::Blobs(v) => v.iter().for_each(|x| o.extend_from_slice(x)),
        Val::Pairs(v) => v.iter().for_each(|(a, b)| {
            o.extend_from_slice(&a.to_ne_bytes());
            o.push(u8::from(*b))
        }),
        Val::Thin(a, _) => o.extend_from_slice(&(*a as usize).to_ne_bytes()),
        Val::Fat(a, n, _) => {
            o.extend_from_slice(&(*a as usize).to_ne_bytes());
            o.extend_from_slice(&(*n as usize).to_ne_bytes())
        }
        _ => v.int_enc(o),
    }
}
fn kind(v: &Val) -> String {
    let s = format!("{:?}", v);
    let k: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
    match v {
        Val::Tuple(v) => format!("{}{}", k, v.len()),
        _ => k,
    }
}
fn bytes(n: usize) -> impl Strategy<Value = Vec<u8>> {
    proptest::collection::vec(any::<u8>(), 0..n)
}
fn text() -> impl Strategy<Value = String> {
    prop_oneof!["[a-c]{0,4}", "\\PC{0,6}", Just(String::new()), Just("\u{ff}\0".to_string())]
}
fn val() -> BoxedStrategy<Val> {
    let leaf = prop_oneof![
        6 => int_val(),
        1 => Just(Val::Unit),
        1 => any::<bool>().prop_map(Val::Bool),
        1 => any::<char>().prop_map(Val::Char),
        1 => text().prop_map(Val::Str),
        1 => text().prop_map(Val::Owned),
        1 => bytes(40).prop_map(Val::Bytes),
        2 => (proptest::sample::select(SIZES), any::<u64>()).prop_map(|(n, s)| Val::Array(blob(n, s))),
        3 => ints().prop_map(Val::Ints),
        2 => (proptest::sample::select(SIZES), 0usize..4, any::<u64>()).prop_map(|(n, k, s)| Val::Arrays(n as u8, blob(n * k, s))),
        1 => proptest::collection::vec(any::<bool>(), 0..6).prop_map(Val::Bools),
        1 => proptest::collection::vec(any::<char>(), 0..6).prop_map(Val::Chars),
        1 => proptest::collection::vec(text(), 0..4).prop_map(Val::Strings),
        1 => proptest::collection::vec(bytes(6), 0..4).prop_map(Val::Blobs),
        1 => proptest::collection::vec(any::<(u16, bool)>(), 0..4).prop_map(Val::Pairs),
        1 => (any::<u64>(), any::<bool>()).prop_map(|(a, m)| Val::Thin(a, m)),
        1 => (any::<u64>(), any::<u32>(), any::<bool>()).prop_map(|(a, n, m)| Val::Fat(a, n, m)),
    ];
    leaf.prop_recursive(3, 40, 12, |inner| {
        prop_oneof![
            5 => proptest::collection::vec(inner.clone(), 0..13).prop_map(Val::Tuple),
            2 => (inner.clone(), any::<bool>()).prop_map(|(v, m)| Val::Ref(Box::new(v), m)),
            2 => proptest::collection::vec(inner, 0..5).prop_map(Val::Slice),
        ]
    })
    .boxed()
}
fn blob(n: usize, s: u64) -> Vec<u8> {
    (0..n as u64).map(|i| fin(s ^ i) as u8).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    val: Val,
    before: Vec<u8>,
    nodes: Vec<Vec<u8>>,
    height: u16,
    more: Vec<Val>,
}
struct P;
impl Prop for P {
    const ID: &'static str = "C17";
    const RULE: &'static str = "case = (a value: integers, text, bytes, arrays, tuples of up to 12, references, slices, pointers, nested; bytes hashed before it; hashes of children; further \
        values for a tree over them); the stream of bytes reaching the hasher is compared with an encoding written down independently; non-trivial: that stream is not empty";
    type Case = Case;
    fn strategy(_t: Tier) -> BoxedStrategy<Case> {
        (
            val(),
            bytes(5),
            proptest::collection::vec(bytes(20), 0..9),
            any::<u16>(),
            prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(val(), 3)],
        )
            .prop_map(|(val, before, nodes, height, more)| Case { val, before, nodes, height, more })
            .boxed()
    }
    fn cases(t: Tier) -> u32 {
        t.pick(1_000_000, 15_000_000)
    }
    fn check(c: &Case, cx: &mut Cx) -> Result<(), String> {
        cx.label(kind(&c.val));
        let mut want = c.before.clone();
        enc(&c.val, &mut want);
        if want.len() > c.before.len() {
            cx.nontrivial();
        }
        let mut s = Rec(c.before.clone());
        Hashable::hash(&c.val, &mut s);
        req!(s.0 == want, "hashing {:?} feeds {:02x?} instead of {:02x?}", c.val, s.0, want);
        // as a trait object
        let mut s = Rec(c.before.clone());
        let d: &dyn Hashable<Rec> = &c.val;
        d.hash(&mut s);
        req!(s.0 == want, "hashing {:?} as an object feeds {:02x?} instead of {:02x?}", c.val, s.0, want);
        if let Val::Ints(v) = &c.val {
            let mut s = Rec(c.before.clone());
            v.feed_slice(&mut s);
            req!(s.0 == want, "hashing the slice {:?} feeds {:02x?} instead of {:02x?}", v, s.0, want);
        }
        // a slice of any values is its members, one after another
        let mut s = Rec(c.before.clone());
        <Val as Hashable<Rec>>::hash_slice(std::slice::from_ref(&c.val), &mut s);
        req!(s.0 == want, "hashing a slice of one value feeds {:02x?} instead of {:02x?}", s.0, want);

        // the default rules of an algorithm
        let h = c.height as usize;
        let fed = |first: u8, parts: &[Vec<u8>]| -> Vec<u8> {
            let mut w = vec![first];
            parts.iter().for_each(|p| w.extend_from_slice(p));
            w
        };
        let mut a = Rec::default();
        req!(a.multi_node(&c.nodes, h) == fed(1, &c.nodes), "a node of {} children is not 01 and the children in order", c.nodes.len());
        a.reset();
        req!(a == Rec::default(), "reset does not bring back the initial state");
        if let Some(l) = c.nodes.first() {
            req!(a.leaf(l.clone()) == fed(0, &c.nodes[..1]), "a leaf is not 00 and the item");
            a.reset();
        }
        if let [l, r, ..] = &c.nodes[..] {
            req!(a.node(l.clone(), r.clone(), h) == fed(1, &c.nodes[..2]), "a node is not 01, left and right");
            let mut b = Rec::default();
            req!(a.0 == b.multi_node(&c.nodes[..2], h), "node and multi_node differ");
        }
        // leaves made from such values
        if !c.more.is_empty() {
            cx.label("tree over values");
            type E = El<20>;
            let vals: Vec<&Val> = std::iter::once(&c.val).chain(&c.more).collect();
            let hashed: Vec<E> = vals
                .iter()
                .map(|v| {
                    let mut o = vec![];
                    enc(v, &mut o);
                    <Mix as RefAlg<E>>::r_data(&o)
                })
                .collect();
            let r = RefTree::from_items::<Mix>(&hashed, 2);
            let t = MerkleTree::<E, Mix, VecStore<E>, U2>::from_data(vals.iter().copied()).map_err(|e| format!("from_data: {:?}", e))?;
            same_tree(&t, &r, 1, 4)?;
            for (i, v) in vals.iter().enumerate() {
                let p = t.gen_proof(i).map_err(|e| format!("gen_proof: {:?}", e))?;
                match p.validate_with_data::<Mix>(*v) {
                    Ok(true) => {}
                    o => fail!("the proof of {:?} is not accepted with it: {:?}", v, o),
                }
            }
        }
        Ok(())
    }
    fn assumptions() -> Vec<String> {
        vec!["integers and pointers are hashed in the byte order of the machine, as their documentation in the standard library says".into()]
    }
}

fn main() {
    mtverif::main::<P>()
}
