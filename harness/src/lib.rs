//! Property-based checks of filecoin-project/merkletree. See /verif/DESIGN.md.
pub mod gen;
pub mod model;
pub mod mutate;
pub mod runner;

pub use gen::*;
pub use model::*;
pub use mutate::*;
pub use runner::*;

/// Early return with a formatted failure.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! req {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

/// Binds element, algorithm and arity types: a fixed set of eight combinations,
/// picked by the arity and by `ea` (0 or 1).
#[macro_export]
macro_rules! with_eab {
    ($ar:expr, $ea:expr, $E:ident, $A:ident, $B:ident, $body:expr) => {
        match ($ar, $ea) {
            (2, 0) => $crate::bind!($E = [u8; 32], $A = $crate::Mix, $B = typenum::U2, $body),
            (2, _) => $crate::bind!($E = $crate::El<8>, $A = $crate::MixH, $B = typenum::U2, $body),
            (4, 0) => $crate::bind!($E = $crate::El<20>, $A = $crate::MixH, $B = typenum::U4, $body),
            (4, _) => $crate::bind!($E = $crate::El<48>, $A = $crate::Mix, $B = typenum::U4, $body),
            (8, 0) => $crate::bind!($E = [u8; 32], $A = $crate::Mix, $B = typenum::U8, $body),
            (8, _) => $crate::bind!($E = $crate::El<8>, $A = $crate::MixH, $B = typenum::U8, $body),
            (16, _) => $crate::bind!($E = $crate::El<20>, $A = $crate::MixH, $B = typenum::U16, $body),
            (64, _) => $crate::bind!($E = [u8; 32], $A = $crate::MixH, $B = typenum::U64, $body),
            (other, _) => $crate::infra(format!("arity {}", other)),
        }
    };
}
#[macro_export]
macro_rules! bind {
    ($E:ident = $e:ty, $A:ident = $a:ty, $B:ident = $b:ty, $body:expr) => {{
        type $E = $e;
        type $A = $a;
        type $B = $b;
        $body
    }};
}
#[macro_export]
macro_rules! with_store {
    ($k:expr, $E:ty, $S:ident, $body:expr) => {
        match $k {
            $crate::StoreKind::Vec => {
                type $S = merkletree::store::VecStore<$E>;
                $body
            }
            $crate::StoreKind::Disk => {
                type $S = merkletree::store::DiskStore<$E>;
                $body
            }
            $crate::StoreKind::Mmap => {
                type $S = merkletree::store::MmapStore<$E>;
                $body
            }
        }
    };
}
