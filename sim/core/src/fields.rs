//! Leaf and field types the harness plugs into pin-projected definitions.
use core::marker::{PhantomData, PhantomPinned};
use core::num::NonZeroU32;
use core::pin::Pin;
use core::sync::atomic::{AtomicU32, Ordering::SeqCst};

use crate::world::*;

const MAGIC: u32 = 0x5EED_C0DE;
const BIG: usize = if cfg!(miri) { 3 } else { 33 };
const BIGN: usize = if cfg!(miri) { 2 } else { 29 };

/// A value that can be stored in a field of a simulated type.
pub trait Fld: Send + Sync {
    fn mk() -> Self
    where
        Self: Sized;
    /// What is inside, in declaration (= destruction) order.
    fn obs(&self, out: &mut Vec<Item>);
    /// Changes the contents in place through an exclusive borrow.
    fn poke(&mut self, by: u32);
    /// Changes the contents in place through a shared borrow.
    fn poke_ref(&self, by: u32);
}

/// Object-safe view, for unsized fields.
pub trait FldObj: Send + Sync {
    fn obs_o(&self, out: &mut Vec<Item>);
    fn poke_o(&mut self, by: u32);
    fn poke_ref_o(&self, by: u32);
}
impl<F: Fld> FldObj for F {
    fn obs_o(&self, out: &mut Vec<Item>) {
        self.obs(out)
    }
    fn poke_o(&mut self, by: u32) {
        self.poke(by)
    }
    fn poke_ref_o(&self, by: u32) {
        self.poke_ref(by)
    }
}

impl<A: Fld> FldObj for [A] {
    fn obs_o(&self, out: &mut Vec<Item>) {
        self.iter().for_each(|a| a.obs(out))
    }
    fn poke_o(&mut self, by: u32) {
        self.iter_mut().for_each(|a| a.poke(by))
    }
    fn poke_ref_o(&self, by: u32) {
        self.iter().for_each(|a| a.poke_ref(by))
    }
}
/// A last field that may be unsized.
pub struct Tail<A: ?Sized>(A);
impl<A: Fld> Fld for Tail<A> {
    fn mk() -> Self {
        Tail(A::mk())
    }
    fn obs(&self, out: &mut Vec<Item>) {
        self.0.obs(out)
    }
    fn poke(&mut self, by: u32) {
        self.0.poke(by)
    }
    fn poke_ref(&self, by: u32) {
        self.0.poke_ref(by)
    }
}
macro_rules! tails { ($([$($g:tt)*] $t:ty),*) => { $(impl<$($g)*> FldObj for Tail<$t> {
    fn obs_o(&self, out: &mut Vec<Item>) {
        self.0.obs_o(out)
    }
    fn poke_o(&mut self, by: u32) {
        self.0.poke_o(by)
    }
    fn poke_ref_o(&self, by: u32) {
        self.0.poke_ref_o(by)
    }
})* } }
tails!([] dyn FldObj, [A: Fld] [A]);

pub struct Core {
    tok: u32,
    /// Guards identity and value.
    chk: AtomicU32,
    val: AtomicU32,
}
impl Core {
    fn new(immovable: bool) -> Core {
        let tok = new_tok(immovable);
        let val = tok.wrapping_mul(7) | 0x6B6B_0000;
        Core { tok, chk: AtomicU32::new(tok ^ MAGIC ^ val), val: AtomicU32::new(val) }
    }
    fn intact(&self) -> bool {
        self.chk.load(SeqCst) == self.tok ^ MAGIC ^ self.val.load(SeqCst)
    }
    fn add(&self, by: u32) {
        // only one simulated thread runs at a time
        let v = self.val.load(SeqCst).wrapping_add(by);
        self.val.store(v, SeqCst);
        self.chk.store(self.tok ^ MAGIC ^ v, SeqCst);
    }
}

/// No byte of this is zero.
fn mixed(tok: u32) -> u32 {
    tok.wrapping_mul(0x9E37_79B1) | 0x8141_2111
}

macro_rules! leaf {
    ($(#[$m:meta])* $name:ident { $($f:ident : $t:ty = |$tk:ident| $e:expr),* } imm=$imm:expr, ok=|$s:ident| $ok:expr) => {
        $(#[$m])*
        pub struct $name { core: Core, $($f: $t),* }
        impl $name {
            pub fn ok(&self) -> bool { let $s = self; self.core.intact() && $ok }
        }
        impl Fld for $name {
            fn mk() -> Self {
                let core = Core::new($imm);
                #[allow(unused)]
                let t = core.tok;
                $(let $f: $t = { #[allow(unused)] let $tk = t; $e };)*
                $name { core, $($f),* }
            }
            fn obs(&self, out: &mut Vec<Item>) {
                let leaf = if self.ok() { Leaf::T(self.core.tok) } else { Leaf::T(u32::MAX) };
                out.push(Item::Leaf { leaf, val: self.core.val.load(SeqCst), addr: self as *const Self as usize });
            }
            fn poke(&mut self, by: u32) {
                let v = self.core.val.get_mut().wrapping_add(by);
                *self.core.val.get_mut() = v;
                *self.core.chk.get_mut() = self.core.tok ^ MAGIC ^ v;
            }
            fn poke_ref(&self, by: u32) { self.core.add(by); }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let ok = self.ok();
                on_drop(Leaf::T(self.core.tok), self as *const Self as usize, ok)
            }
        }
    };
}

leaf!(/// Plain, movable.
    Pu {} imm=false, ok=|_s| true);
leaf!(/// Plain, must not move once pinned.
    Pn { _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|_s| true);
leaf!(/// Large, movable.
    Pb { pat: [u32; BIG] = |tok| [mixed(tok); BIG] } imm=false, ok=|s| s.pat.iter().all(|p| *p == mixed(s.core.tok)));
leaf!(/// Large, immovable.
    PbN { pat: [u32; BIGN] = |tok| [mixed(tok); BIGN], _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| s.pat.iter().all(|p| *p == mixed(s.core.tok)));
leaf!(/// Over-aligned, movable.
    #[repr(align(64))] Pa {} imm=false, ok=|s| (s as *const _ as usize) % 64 == 0);
leaf!(/// Over-aligned, immovable.
    #[repr(align(128))] PaN { _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| (s as *const _ as usize) % 128 == 0);
leaf!(/// With a niche.
    Pni { nz: NonZeroU32 = |tok| NonZeroU32::new(tok).unwrap() } imm=false, ok=|s| s.nz.get() == s.core.tok);
leaf!(/// With a niche, immovable.
    PniN { nz: NonZeroU32 = |tok| NonZeroU32::new(tok).unwrap(), _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| s.nz.get() == s.core.tok);
leaf!(/// Owns heap memory.
    Ph { own: Box<u32> = |tok| Box::new(tok) } imm=false, ok=|s| *s.own == s.core.tok);
leaf!(/// Owns heap memory, immovable.
    PhN { own: Box<u32> = |tok| Box::new(tok), _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| *s.own == s.core.tok);

const HUGE: usize = if cfg!(miri) { 5 } else { 702 };
leaf!(/// Several kilobytes, movable.
    Pg { pat: [u32; HUGE] = |tok| [mixed(tok); HUGE] } imm=false, ok=|s| s.pat[0] == mixed(s.core.tok) && s.pat[HUGE - 1] == mixed(s.core.tok) && s.pat[HUGE / 2] == mixed(s.core.tok));
leaf!(/// Several kilobytes, immovable.
    PgN { pat: [u32; HUGE] = |tok| [mixed(tok); HUGE], _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| s.pat[0] == mixed(s.core.tok) && s.pat[HUGE - 1] == mixed(s.core.tok) && s.pat[HUGE / 3] == mixed(s.core.tok));

const VAST: usize = if cfg!(miri) { 6 } else { 16_400 };
leaf!(/// More than 64 KiB, movable.
    Pq { pat: [u32; VAST] = |tok| [mixed(tok); VAST] } imm=false, ok=|s| s.pat.iter().step_by(997).all(|p| *p == mixed(s.core.tok)) && s.pat[VAST - 1] == mixed(s.core.tok));
leaf!(/// More than 64 KiB, immovable.
    PqN { pat: [u32; VAST] = |tok| [mixed(tok); VAST], _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| s.pat.iter().step_by(991).all(|p| *p == mixed(s.core.tok)) && s.pat[VAST - 1] == mixed(s.core.tok));
leaf!(/// Page-aligned, movable.
    #[repr(align(4096))] Pw {} imm=false, ok=|s| (s as *const _ as usize) % 4096 == 0);
leaf!(/// Page-aligned, immovable.
    #[repr(align(4096))] PwN { _p: PhantomPinned = |tok| PhantomPinned } imm=true, ok=|s| (s as *const _ as usize) % 4096 == 0);

/// Bytes only: size 13, alignment 1.
pub struct Py([u8; 13]);
/// Bytes only, immovable: size 11, alignment 1.
pub struct PyN([u8; 11], PhantomPinned);
macro_rules! bleaf {
    ($name:ident, $n:expr, $imm:expr, |$b:ident| $mk:expr) => {
        impl $name {
            fn tok(&self) -> u32 {
                u32::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3]])
            }
            fn ok(&self) -> bool {
                self.0[4] == self.sum() && self.0[5..$n - 4].iter().all(|b| *b == self.0[0] ^ 0xA5)
            }
            /// Over identity and value.
            fn sum(&self) -> u8 {
                self.0[..4].iter().chain(&self.0[$n - 4..]).fold(0x3C, |a, b| a.rotate_left(1) ^ *b)
            }
            fn get(&self) -> u32 {
                u32::from_le_bytes([self.0[$n - 4], self.0[$n - 3], self.0[$n - 2], self.0[$n - 1]])
            }
        }
        impl Fld for $name {
            fn mk() -> Self {
                let t = new_tok($imm).to_le_bytes();
                let mut b = [t[0] ^ 0xA5; $n];
                b[..4].copy_from_slice(&t);
                b[$n - 4..].copy_from_slice(&(u32::from_le_bytes(t) | 0x5A5A_0000).to_le_bytes());
                let $b = b;
                let mut s = $mk;
                s.0[4] = s.sum();
                s
            }
            fn obs(&self, out: &mut Vec<Item>) {
                let leaf = if self.ok() { Leaf::T(self.tok()) } else { Leaf::T(u32::MAX) };
                out.push(Item::Leaf { leaf, val: self.get(), addr: self as *const Self as usize });
            }
            fn poke(&mut self, by: u32) {
                let v = self.get().wrapping_add(by);
                self.0[$n - 4..].copy_from_slice(&v.to_le_bytes());
                self.0[4] = self.sum();
            }
            fn poke_ref(&self, _by: u32) {}
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let ok = self.ok();
                on_drop(Leaf::T(self.tok()), self as *const Self as usize, ok)
            }
        }
    };
}
bleaf!(Py, 13, false, |b| Py(b));
bleaf!(PyN, 11, true, |b| PyN(b, PhantomPinned));

/// No larger than a word; nothing but an identity.
macro_rules! tiny {
    ($name:ident, $t:ty, $imm:expr, |$v:ident| $mk:expr, $($f:tt)*) => {
        pub struct $name $($f)*
        impl Fld for $name {
            fn mk() -> Self {
                let $v = new_tok($imm) as $t;
                $mk
            }
            fn obs(&self, out: &mut Vec<Item>) {
                out.push(Item::Leaf { leaf: Leaf::T(self.0 as u32), val: 0, addr: self as *const Self as usize });
            }
            fn poke(&mut self, _by: u32) {}
            fn poke_ref(&self, _by: u32) {}
        }
        impl Drop for $name {
            fn drop(&mut self) {
                on_drop(Leaf::T(self.0 as u32), self as *const Self as usize, true)
            }
        }
    };
}
tiny!(Pt, u32, false, |v| Pt(v), (u32););
tiny!(PtN, u32, true, |v| PtN(v, PhantomPinned), (u32, PhantomPinned););
tiny!(Pd, u64, false, |v| Pd(v), (u64););
tiny!(PdN, u64, true, |v| PdN(v, PhantomPinned), (u64, PhantomPinned););

impl Fld for Box<dyn FldObj> {
    fn mk() -> Self {
        match choose(3) {
            0 => Box::new(Pu::mk()),
            1 => Box::new(Pn::mk()),
            _ => Box::new(Pni::mk()),
        }
    }
    fn obs(&self, out: &mut Vec<Item>) {
        (**self).obs_o(out)
    }
    fn poke(&mut self, by: u32) {
        (**self).poke_o(by)
    }
    fn poke_ref(&self, by: u32) {
        (**self).poke_ref_o(by)
    }
}
/// Wraps a value and mentions a lifetime.
pub struct Lt<'s, A>(A, PhantomData<&'s ()>);
impl<'s, A: Fld> Fld for Lt<'s, A> {
    fn mk() -> Self {
        Lt(A::mk(), PhantomData)
    }
    fn obs(&self, out: &mut Vec<Item>) {
        self.0.obs(out)
    }
    fn poke(&mut self, by: u32) {
        self.0.poke(by)
    }
    fn poke_ref(&self, by: u32) {
        self.0.poke_ref(by)
    }
}
impl<A: Fld, B: Fld, C: Fld> Fld for (A, B, C) {
    fn mk() -> Self {
        let a = A::mk();
        let b = B::mk();
        (a, b, C::mk())
    }
    fn obs(&self, out: &mut Vec<Item>) {
        self.0.obs(out);
        self.1.obs(out);
        self.2.obs(out)
    }
    fn poke(&mut self, by: u32) {
        self.0.poke(by);
        self.1.poke(by + 1);
        self.2.poke(by + 2)
    }
    fn poke_ref(&self, by: u32) {
        self.0.poke_ref(by);
        self.1.poke_ref(by + 1);
        self.2.poke_ref(by + 2)
    }
}

/// Zero-sized with a destructor.
pub struct Pz<const K: u32>(());
/// Zero-sized, immovable, with a destructor.
pub struct PzN<const K: u32>((), PhantomPinned);
macro_rules! zleaf {
    ($name:ident, $e:expr, $off:expr) => {
        impl<const K: u32> Fld for $name<K> {
            fn mk() -> Self {
                if !lite() {
                    with(|w| *w.zlive.entry(K + $off).or_insert(0) += 1);
                }
                $e
            }
            fn obs(&self, out: &mut Vec<Item>) {
                out.push(Item::Leaf { leaf: Leaf::Z(K + $off), val: 0, addr: self as *const Self as usize });
            }
            fn poke(&mut self, _by: u32) {}
            fn poke_ref(&self, _by: u32) {}
        }
        impl<const K: u32> Drop for $name<K> {
            fn drop(&mut self) {
                on_drop(Leaf::Z(K + $off), self as *const Self as usize, true)
            }
        }
    };
}
zleaf!(Pz, Pz(()), 0);
zleaf!(PzN, PzN((), PhantomPinned), 1_000_000);

/// Plain data without destructor.
#[derive(Clone, Copy, Debug)]
pub struct Pv(u32, u32);
impl Fld for Pv {
    fn mk() -> Self {
        let t = new_tok(false);
        if !lite() {
            with(|w| w.ledger[t as usize - 1].dropped = true);
        }
        Pv(t, t ^ MAGIC)
    }
    fn obs(&self, out: &mut Vec<Item>) {
        let ok = self.1 & 0x7FFF_FFFF == (self.0 ^ MAGIC) & 0x7FFF_FFFF;
        let leaf = Leaf::V(if ok { self.0 } else { u32::MAX });
        out.push(Item::Leaf { leaf, val: self.1 >> 31, addr: self as *const Self as usize });
    }
    fn poke(&mut self, by: u32) {
        self.1 ^= (by & 1) << 31;
    }
    fn poke_ref(&self, _by: u32) {}
}

// ----- compounds ---------------------------------------------------------------------------

impl Fld for () {
    fn mk() -> Self {}
    fn obs(&self, _: &mut Vec<Item>) {}
    fn poke(&mut self, _: u32) {}
    fn poke_ref(&self, _: u32) {}
}
impl Fld for PhantomPinned {
    fn mk() -> Self {
        PhantomPinned
    }
    fn obs(&self, _: &mut Vec<Item>) {}
    fn poke(&mut self, _: u32) {}
    fn poke_ref(&self, _: u32) {}
}
impl<T: ?Sized + Send + Sync> Fld for PhantomData<T> {
    fn mk() -> Self {
        PhantomData
    }
    fn obs(&self, _: &mut Vec<Item>) {}
    fn poke(&mut self, _: u32) {}
    fn poke_ref(&self, _: u32) {}
}
impl<A: Fld> Fld for Option<A> {
    fn mk() -> Self {
        if choose(4) == 0 {
            None
        } else {
            Some(A::mk())
        }
    }
    fn obs(&self, out: &mut Vec<Item>) {
        if let Some(a) = self {
            a.obs(out)
        }
    }
    fn poke(&mut self, by: u32) {
        if let Some(a) = self {
            a.poke(by)
        }
    }
    fn poke_ref(&self, by: u32) {
        if let Some(a) = self {
            a.poke_ref(by)
        }
    }
}
impl<A: Fld, B: Fld> Fld for (A, B) {
    fn mk() -> Self {
        let a = A::mk();
        (a, B::mk())
    }
    fn obs(&self, out: &mut Vec<Item>) {
        self.0.obs(out);
        self.1.obs(out)
    }
    fn poke(&mut self, by: u32) {
        self.0.poke(by);
        self.1.poke(by + 1)
    }
    fn poke_ref(&self, by: u32) {
        self.0.poke_ref(by);
        self.1.poke_ref(by + 1)
    }
}
impl<A: Fld, const N: usize> Fld for [A; N] {
    fn mk() -> Self {
        core::array::from_fn(|_| A::mk())
    }
    fn obs(&self, out: &mut Vec<Item>) {
        self.iter().for_each(|a| a.obs(out))
    }
    fn poke(&mut self, by: u32) {
        self.iter_mut().for_each(|a| a.poke(by))
    }
    fn poke_ref(&self, by: u32) {
        self.iter().for_each(|a| a.poke_ref(by))
    }
}
impl<A: Fld> Fld for Box<A> {
    fn mk() -> Self {
        Box::new(A::mk())
    }
    fn obs(&self, out: &mut Vec<Item>) {
        (**self).obs(out)
    }
    fn poke(&mut self, by: u32) {
        (**self).poke(by)
    }
    fn poke_ref(&self, by: u32) {
        (**self).poke_ref(by)
    }
}
impl<A: Fld> Fld for Pin<Box<A>> {
    fn mk() -> Self {
        Box::pin(A::mk())
    }
    fn obs(&self, out: &mut Vec<Item>) {
        (**self).obs(out)
    }
    fn poke(&mut self, by: u32) {
        // SAFETY: poking changes a counter in place and moves nothing.
        unsafe { self.as_mut().get_unchecked_mut() }.poke(by)
    }
    fn poke_ref(&self, by: u32) {
        (**self).poke_ref(by)
    }
}
impl<A: Fld> Fld for Vec<A> {
    fn mk() -> Self {
        let n = choose(3);
        (0..n).map(|_| A::mk()).collect()
    }
    fn obs(&self, out: &mut Vec<Item>) {
        self.iter().for_each(|a| a.obs(out))
    }
    fn poke(&mut self, by: u32) {
        self.iter_mut().for_each(|a| a.poke(by))
    }
    fn poke_ref(&self, by: u32) {
        self.iter().for_each(|a| a.poke_ref(by))
    }
}

/// Things that fields borrow from.
pub struct Stat(pub u32);
pub static STATS: [Stat; 8] = [Stat(901), Stat(902), Stat(903), Stat(904), Stat(905), Stat(906), Stat(907), Stat(908)];
impl<'s> Fld for &'s Stat {
    fn mk() -> Self {
        &STATS[choose(8) as usize]
    }
    fn obs(&self, out: &mut Vec<Item>) {
        out.push(Item::Leaf { leaf: Leaf::V(1 << 20 | self.0), val: 0, addr: self as *const Self as usize });
    }
    fn poke(&mut self, by: u32) {
        *self = &STATS[(self.0 as usize - 901 + by as usize) % 8];
    }
    fn poke_ref(&self, _: u32) {}
}
pub fn fp0() -> u32 {
    0x0F0
}
pub fn fp1() -> u32 {
    0x0F1
}
impl Fld for fn() -> u32 {
    fn mk() -> Self {
        if choose(2) == 0 {
            fp0
        } else {
            fp1
        }
    }
    fn obs(&self, out: &mut Vec<Item>) {
        out.push(Item::Leaf { leaf: Leaf::V(1 << 21 | self()), val: 0, addr: self as *const Self as usize });
    }
    fn poke(&mut self, _: u32) {}
    fn poke_ref(&self, _: u32) {}
}

/// `<T as Assoc>::Out`, to have associated types in fields.
pub trait Assoc {
    type Out: Fld;
}
macro_rules! assoc { ($($a:ty => $b:ty),* $(,)?) => { $(impl Assoc for $a { type Out = $b; })* } }
assoc!(Pu => Pni, Pn => Pb, Pb => Pu, PbN => Pn, Pa => Pn, PaN => Pu, Pni => PniN, PniN => Pni, Ph => PhN, PhN => Ph, Pv => Pu, Py => PyN, PyN => Py, Pg => Pu, PgN => Pn, Pt => PtN, PtN => Pt, Pd => Pn, PdN => Pu);

/// Identity macro for types, to put macro invocations into definitions.
#[macro_export]
macro_rules! ident_ty { ($t:ty) => { $t }; }
