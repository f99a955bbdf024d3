//! Deterministic simulator for pin-projected values.
//!
//! Every nondeterministic decision (workload, schedule, fault) is drawn from
//! `choose`, which is fed either by one seeded PRNG or by a recorded list of
//! decisions. The simulator knows nothing about pin-project: the generated zoo
//! and flow crates link it with code expanded by /repo's macros.
#![allow(clippy::all)]

pub mod fields;
pub mod flow;
pub mod json;
pub mod ops;
pub mod runner;
pub mod sched;
pub mod world;

pub use fields::*;
pub use ops::{Fam, Profile, SlotDyn, TypeEntry, Vis, Zoo};
pub use world::*;

/// Something a destructor body still holds when it ends.
pub struct Late(pub u32);
impl Late {
    pub fn fault(&self) {
        body_fault()
    }
    pub fn get(&self) -> u32 {
        7
    }
    pub fn some(&self) -> Option<&u32> {
        Some(&self.0)
    }
}
impl Drop for Late {
    fn drop(&mut self) {
        mark(self.0)
    }
}

/// Resolves, at a concrete type, to "give me `&mut T` out of the pin if safe code can".
/// Inherent methods (only there for `T: Unpin`) win over the trait fallback.
pub struct MoveGate<T: ?Sized>(pub core::marker::PhantomData<T>);
impl<T: ?Sized + Unpin> MoveGate<T> {
    pub fn open<'a>(&self, p: core::pin::Pin<&'a mut T>) -> Option<&'a mut T> {
        Some(core::pin::Pin::get_mut(p))
    }
}
pub trait MoveGateShut<T: ?Sized> {
    fn open<'a>(&self, p: core::pin::Pin<&'a mut T>) -> Option<&'a mut T>;
}
impl<T: ?Sized> MoveGateShut<T> for &MoveGate<T> {
    fn open<'a>(&self, _p: core::pin::Pin<&'a mut T>) -> Option<&'a mut T> {
        None
    }
}
#[macro_export]
macro_rules! try_unpin {
    ($t:ty, $p:expr) => {{
        #[allow(unused_imports)]
        use $crate::MoveGateShut as _;
        (&$crate::MoveGate::<$t>(::core::marker::PhantomData)).open($p)
    }};
}
