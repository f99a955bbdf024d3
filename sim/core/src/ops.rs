//! Operations on pin-projected values, their reference model and their oracles.
use core::pin::{pin, Pin};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use crate::fields::*;
use crate::sched;
use crate::world::*;

// ----- static description of a simulated type ----------------------------------------------

pub struct FSpec {
    pub name: &'static str,
    pub pinned: bool,
}
pub struct VSpec {
    pub name: &'static str,
    pub fields: &'static [FSpec],
}
pub struct TySpec {
    pub id: u32,
    pub name: &'static str,
    pub variants: &'static [VSpec],
    /// May safe code move a pinned value of this type?
    pub movable: bool,
    pub has_project: bool,
    pub has_ref: bool,
    pub has_replace: bool,
    pub has_body: bool,
}

#[derive(Clone, Debug, Default)]
pub struct FieldObs {
    pub idx: u32,
    pub pinned: bool,
    pub addr: usize,
    pub size: usize,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, Default)]
pub struct ValObs {
    pub variant: u32,
    pub fields: Vec<FieldObs>,
}
impl ValObs {
    pub fn new(variant: u32) -> Self {
        ValObs { variant, fields: Vec::new() }
    }
    pub fn add<F: Fld>(&mut self, idx: u32, pinned: bool, f: &F) {
        if lite() {
            return;
        }
        let mut items = Vec::new();
        f.obs(&mut items);
        self.fields.push(FieldObs { idx, pinned, addr: f as *const F as usize, size: core::mem::size_of::<F>(), items });
    }
    pub fn add_dst<F: FldObj + ?Sized>(&mut self, idx: u32, pinned: bool, f: &F) {
        if lite() {
            return;
        }
        let mut items = Vec::new();
        f.obs_o(&mut items);
        self.fields.push(FieldObs { idx, pinned, addr: f as *const F as *const u8 as usize, size: core::mem::size_of_val(f), items });
    }
    pub fn flat(&self) -> Vec<Item> {
        self.fields.iter().flat_map(|f| f.items.iter().copied()).collect()
    }
    pub fn pinned_items(&self) -> Vec<Item> {
        self.fields.iter().filter(|f| f.pinned).flat_map(|f| f.items.iter().copied()).collect()
    }
}

pub trait Hold: Send {}
impl<T: Send> Hold for T {}

/// A simulated pin-projected type (implemented by generated code).
pub trait Zoo: Fld + Sized + 'static {
    fn spec() -> &'static TySpec;
    fn make(variant: u32) -> Self;
    /// Direct field access, without any projection.
    fn truth(&self) -> ValObs;
    fn visit_mut(self: Pin<&mut Self>, v: &mut Vis);
    fn visit_ref(self: Pin<&Self>, v: &mut Vis);
    fn replace(self: Pin<&mut Self>, new: Self, v: &mut Vis);
    fn open(p: Pin<&mut Self>) -> Option<&mut Self>;
    /// For types with an unsized form: (can it be taken out of its pin, should it be possible).
    fn open_dyn(_: Pin<&mut Self>) -> Option<(bool, bool)> {
        None
    }
    unsafe fn drop_raw(p: *mut Self) {
        core::ptr::drop_in_place(p)
    }
    fn drop_box(b: Pin<Box<Self>>) {
        drop(b)
    }
    fn drop_arc(b: Pin<Arc<Self>>) {
        drop(b)
    }
}

// ----- visitor given to the generated code --------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum VMode {
    Look,
    Mutate,
}
pub struct Vis {
    pub mode: VMode,
    pub got: ValObs,
    pub seen_variant: bool,
    /// field index -> contents after an edit
    pub edits: Vec<(u32, Vec<Item>)>,
    pub own: Vec<(u32, bool, Vec<Item>)>,
    pub holds: Vec<(Box<dyn Hold>, Vec<Item>)>,
    pub in_body: bool,
    pub split_own: bool,
    /// per-leaf increments applied through shared projections
    pub deltas: Vec<(u32, u32)>,
    /// light runs: reused by every look
    scratch: Vec<Item>,
}
fn items_of<F: Fld + ?Sized>(f: &F) -> Vec<Item> {
    let mut v = Vec::new();
    f.obs(&mut v);
    v
}
impl Vis {
    pub fn new(mode: VMode) -> Self {
        Vis {
            mode,
            got: ValObs::default(),
            seen_variant: false,
            edits: Vec::new(),
            own: Vec::new(),
            holds: Vec::new(),
            in_body: false,
            split_own: false,
            deltas: Vec::new(),
            scratch: Vec::new(),
        }
    }
    /// Light runs: reads everything inside.
    fn touch<F: Fld + ?Sized>(&mut self, f: &F) {
        self.scratch.clear();
        f.obs(&mut self.scratch);
    }
    fn touch_dst<F: FldObj + ?Sized>(&mut self, f: &F) {
        self.scratch.clear();
        f.obs_o(&mut self.scratch);
    }
    fn lite_choice(&self) -> u32 {
        if self.mode == VMode::Mutate {
            choose(5)
        } else {
            0
        }
    }
    pub fn look() -> Self {
        let mut v = Vis::new(VMode::Look);
        v.in_body = true;
        v
    }
    pub fn variant(&mut self, v: u32) {
        self.got.variant = v;
        self.seen_variant = true;
    }
    fn see(&mut self, idx: u32, pinned: bool, addr: usize, size: usize, items: Vec<Item>) {
        if pinned {
            saw_pinned(&items);
        }
        self.got.fields.push(FieldObs { idx, pinned, addr, size, items });
        if !self.in_body {
            sched::yield_point();
        }
    }
    fn maybe_caller_panic(&mut self) {
        if self.mode == VMode::Mutate && !self.in_body {
            let (r, ok) = with(|w| {
                let r = w.faults.caller_panic;
                let f = w.frame();
                (r, f.faults_ok && !f.panicked)
            });
            if ok && chance(r) {
                sim_panic("caller-panic-while-projected");
            }
        }
    }
    pub fn pinned<F: Fld + 'static>(&mut self, idx: u32, mut f: Pin<&mut F>) {
        if lite() {
            self.touch(&*f);
            match self.lite_choice() {
                // SAFETY: poking changes a counter in place and moves nothing.
                2 => unsafe { f.as_mut().get_unchecked_mut() }.poke(1 + idx),
                3 => f.set(F::mk()),
                4 => {
                    self.touch(f.as_ref().get_ref());
                    f.as_ref().get_ref().poke_ref(1)
                }
                _ => {}
            }
            return;
        }
        let r: &F = &f;
        self.see(idx, true, r as *const F as usize, core::mem::size_of::<F>(), items_of(r));
        if self.mode == VMode::Mutate {
            match choose(4) {
                2 => {
                    // SAFETY: poking changes a counter in place and moves nothing.
                    unsafe { f.as_mut().get_unchecked_mut() }.poke(1 + idx);
                    self.edits.push((idx, items_of(&*f)));
                    with(|w| w.note(0x61 + idx as u64, || format!("write through pinned field {idx}")));
                }
                3 => {
                    let old = items_of(&*f);
                    let new = F::mk();
                    let want = items_of(&new);
                    self.edits.push((idx, want));
                    with(|w| w.note(0x62 + idx as u64, || format!("set pinned field {idx}")));
                    let (r, fr) = guarded(FrameKind::Field, || f.set(new));
                    check_events(&fr, &script(&old, true), &["C03"], &["C05"], &["C02"], "in-place assignment of a field");
                    let after = items_of(&*f);
                    saw_pinned(&after);
                    let k = self.edits.len() - 1;
                    self.edits[k].1 = after;
                    finish_panic(r, &fr, &["C03"]);
                }
                _ => {}
            }
            self.maybe_caller_panic();
        }
    }
    pub fn plain<F: Fld + 'static>(&mut self, idx: u32, f: &mut F) {
        if lite() {
            self.touch(f);
            match self.lite_choice() {
                2 => f.poke(1 + idx),
                3 => *f = F::mk(),
                4 => {
                    let old = core::mem::replace(f, F::mk());
                    self.holds.push((Box::new(old), Vec::new()));
                }
                _ => {}
            }
            return;
        }
        self.see(idx, false, f as *const F as usize, core::mem::size_of::<F>(), items_of(f));
        if self.mode == VMode::Mutate {
            match choose(4) {
                2 => {
                    f.poke(1 + idx);
                    self.edits.push((idx, items_of(f)));
                    with(|w| w.note(0x63 + idx as u64, || format!("write through field {idx}")));
                }
                3 => {
                    let old = core::mem::replace(f, F::mk());
                    self.edits.push((idx, items_of(f)));
                    let its = items_of(&old);
                    forget_pins(&its);
                    with(|w| w.note(0x64 + idx as u64, || format!("swap out field {idx}")));
                    self.holds.push((Box::new(old), its));
                }
                _ => {}
            }
            self.maybe_caller_panic();
        }
    }
    pub fn pinned_ref<F: Fld>(&mut self, idx: u32, f: Pin<&F>) {
        if lite() {
            self.touch(f.get_ref());
            if self.lite_choice() == 2 {
                f.get_ref().poke_ref(1)
            }
            return;
        }
        let r = f.get_ref();
        self.see(idx, true, r as *const F as usize, core::mem::size_of::<F>(), items_of(r));
        self.poke_shared(idx, r);
    }
    pub fn plain_ref<F: Fld>(&mut self, idx: u32, f: &F) {
        if lite() {
            self.touch(f);
            if self.lite_choice() == 2 {
                f.poke_ref(1)
            }
            return;
        }
        self.see(idx, false, f as *const F as usize, core::mem::size_of::<F>(), items_of(f));
        self.poke_shared(idx, f);
    }
    fn poke_shared<F: Fld>(&mut self, idx: u32, f: &F) {
        if self.mode == VMode::Mutate && choose(2) == 1 {
            let a = items_of(f);
            f.poke_ref(1 + idx);
            let b = items_of(f);
            for (x, y) in a.iter().zip(&b) {
                if let (Item::Leaf { leaf: Leaf::T(t), val: v, .. }, Item::Leaf { val: w, .. }) = (x, y) {
                    self.deltas.push((*t, w.wrapping_sub(*v)));
                }
            }
            self.edits.push((idx, b));
            with(|w| w.note(0x65 + idx as u64, || format!("write through shared field {idx}")));
        }
    }
    /// Another look at a field while all projected references are alive.
    pub fn again<F: Fld>(&mut self, idx: u32, f: &F) {
        if lite() {
            self.touch(f);
            return;
        }
        let now = items_of(f);
        let want = match self.edits.iter().rev().find(|e| e.0 == idx) {
            Some(e) => &e.1,
            None => match self.got.fields.iter().find(|g| g.idx == idx) {
                Some(g) => &g.items,
                None => return,
            },
        };
        if want.len() != now.len() || !want.iter().zip(&now).all(|(a, b)| a.same(b)) {
            let m = format!("field {idx}: {:?} expected, {:?} found while projected", short(want), short(&now));
            violation(&["C03"], "projected-references-interfere", m);
        }
    }
    // inside destructor bodies: nothing but looking
    pub fn look_pinned<F: Fld>(&mut self, idx: u32, f: Pin<&mut F>) {
        if lite() {
            self.touch(&*f);
            return;
        }
        let r: &F = &f;
        self.see(idx, true, r as *const F as usize, core::mem::size_of::<F>(), items_of(r));
    }
    pub fn look_plain<F: Fld>(&mut self, idx: u32, f: &mut F) {
        if lite() {
            self.touch(f);
            f.poke(1);
            return;
        }
        self.see(idx, false, f as *const F as usize, core::mem::size_of::<F>(), items_of(f));
    }
    pub fn look_pinned_ref<F: Fld>(&mut self, idx: u32, f: Pin<&F>) {
        self.pinned_ref(idx, f)
    }
    pub fn look_plain_ref<F: Fld>(&mut self, idx: u32, f: &F) {
        self.plain_ref(idx, f)
    }
    pub fn look_pinned_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: Pin<&mut F>) {
        self.pinned_dst(idx, f)
    }
    pub fn look_plain_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: &mut F) {
        self.plain_dst(idx, f)
    }
    pub fn look_pinned_ref_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: Pin<&F>) {
        self.pinned_ref_dst(idx, f)
    }
    pub fn look_plain_ref_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: &F) {
        self.plain_ref_dst(idx, f)
    }
    // unsized fields
    pub fn pinned_dst<F: FldObj + ?Sized>(&mut self, idx: u32, mut f: Pin<&mut F>) {
        if lite() {
            self.touch_dst(&*f);
            if self.lite_choice() == 2 {
                // SAFETY: as above.
                unsafe { f.as_mut().get_unchecked_mut() }.poke_o(1 + idx);
            }
            return;
        }
        let mut its = Vec::new();
        f.obs_o(&mut its);
        self.see(idx, true, &*f as *const F as *const u8 as usize, core::mem::size_of_val(&*f), its);
        if self.mode == VMode::Mutate && choose(2) == 1 {
            // SAFETY: as above.
            unsafe { f.as_mut().get_unchecked_mut() }.poke_o(1 + idx);
            let mut its = Vec::new();
            f.obs_o(&mut its);
            self.edits.push((idx, its));
        }
    }
    pub fn plain_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: &mut F) {
        if lite() {
            self.touch_dst(f);
            if self.lite_choice() == 2 {
                f.poke_o(1 + idx);
            }
            return;
        }
        let mut its = Vec::new();
        f.obs_o(&mut its);
        self.see(idx, false, f as *const F as *const u8 as usize, core::mem::size_of_val(f), its);
        if self.mode == VMode::Mutate && choose(2) == 1 {
            f.poke_o(1 + idx);
            let mut its = Vec::new();
            f.obs_o(&mut its);
            self.edits.push((idx, its));
        }
    }
    pub fn pinned_ref_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: Pin<&F>) {
        if lite() {
            self.touch_dst(f.get_ref());
            return;
        }
        let mut its = Vec::new();
        f.obs_o(&mut its);
        let r = f.get_ref();
        self.see(idx, true, r as *const F as *const u8 as usize, core::mem::size_of_val(r), its);
    }
    pub fn plain_ref_dst<F: FldObj + ?Sized>(&mut self, idx: u32, f: &F) {
        if lite() {
            self.touch_dst(f);
            return;
        }
        let mut its = Vec::new();
        f.obs_o(&mut its);
        self.see(idx, false, f as *const F as *const u8 as usize, core::mem::size_of_val(f), its);
    }
    // owned projection
    pub fn own<F: Fld>(&mut self, idx: u32, f: &F) {
        if lite() {
            self.touch(f);
            return;
        }
        self.own.push((idx, false, items_of(f)));
    }
    pub fn own_phantom<F: ?Sized>(&mut self, idx: u32, _f: &core::marker::PhantomData<F>) {
        if lite() {

            return;
        }
        self.own.push((idx, true, Vec::new()));
    }
    pub fn keep<O: Send + 'static>(&mut self, o: O) {
        let its = self.own.iter().flat_map(|(_, _, i)| i.iter().copied()).collect();
        self.holds.push((Box::new(o), its));
    }
    pub fn keep_field<F: Fld + 'static>(&mut self, f: F) {
        if lite() {
            self.holds.push((Box::new(f), Vec::new()));
            return;
        }
        let its = items_of(&f);
        self.holds.push((Box::new(f), its));
    }
}

/// Inside a custom destructor body: what the projection shows must be what is there.
pub fn body_check(truth: &ValObs, v: &Vis) {
        if lite() {

            return;
        }
    if let Some(d) = diff_obs(truth, &v.got, true) {
        violation(&["C03", "C04"], "projection-in-destructor-body", d);
    }
}

// ----- oracles ------------------------------------------------------------------------------

/// Compares two observations of one value; `full` also compares addresses, sizes and pinning.
pub fn diff_obs(want: &ValObs, got: &ValObs, full: bool) -> Option<String> {
    if want.variant != got.variant {
        return Some(format!("variant {} expected, {} found", want.variant, got.variant));
    }
    if want.fields.len() != got.fields.len() {
        return Some(format!("{} fields expected, {} found", want.fields.len(), got.fields.len()));
    }
    for (w, g) in want.fields.iter().zip(&got.fields) {
        if full && w.idx != g.idx {
            return Some(format!("field {} expected, {} found", w.idx, g.idx));
        }
        if full && w.pinned != g.pinned {
            return Some(format!("field {}: pinned={} expected, {} found", w.idx, w.pinned, g.pinned));
        }
        if full && w.addr != g.addr {
            return Some(format!("field {}: refers to another place ({:+} bytes)", w.idx, g.addr as i64 - w.addr as i64));
        }
        if full && w.size != g.size {
            return Some(format!("field {}: size {} expected, {} found", w.idx, w.size, g.size));
        }
        if w.items.len() != g.items.len() || !w.items.iter().zip(&g.items).all(|(a, b)| a.same(b)) {
            return Some(format!("field {}: contents {:?} expected, {:?} found", w.idx, short(&w.items), short(&g.items)));
        }
    }
    None
}
fn short(i: &[Item]) -> Vec<String> {
    i.iter()
        .map(|x| match x {
            Item::Leaf { leaf, val, .. } => format!("{leaf:?}={val}"),
            Item::Body { ty, .. } => format!("Body({ty})"),
            Item::Mark(m) => format!("Mark({m})"),
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum EvId {
    Drop(Leaf),
    Body(u32),
    Mark(u32),
}
pub type Script = Vec<(EvId, Option<usize>)>;
pub fn script(items: &[Item], addrs: bool) -> Script {
    items
        .iter()
        .filter_map(|i| match *i {
            Item::Leaf { leaf: Leaf::V(_), .. } => None,
            Item::Leaf { leaf, addr, .. } => Some((EvId::Drop(leaf), addrs.then_some(addr))),
            Item::Body { ty, addr } => Some((EvId::Body(ty), addrs.then_some(addr))),
            Item::Mark(m) => Some((EvId::Mark(m), None)),
        })
        .collect()
}
fn ev_id(e: &Ev) -> (EvId, usize) {
    match *e {
        Ev::Drop { leaf, addr } => (EvId::Drop(leaf), addr),
        Ev::Body { ty, addr } => (EvId::Body(ty), addr),
        Ev::Mark(m) => (EvId::Mark(m), 0),
    }
}
fn with_more(p: &[&'static str], q: &[&'static str]) -> Vec<&'static str> {
    let mut v = p.to_vec();
    for x in q {
        if !v.contains(x) {
            v.push(x);
        }
    }
    v
}

pub fn check_events(fr: &Frame, want: &Script, count: &[&'static str], order: &[&'static str], moved: &[&'static str], what: &str) {
    if want.len() > 1 {
        with(|w| w.bump("multi-field-destructions"));
    }
    check_ids(&fr.evs.iter().map(ev_id).collect::<Vec<_>>(), want, count, order, moved, what);
}
fn check_ids(got: &[(EvId, usize)], want: &Script, count: &[&'static str], order: &[&'static str], moved: &[&'static str], what: &str) {
    if got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.0 == w.0 && w.1.map_or(true, |a| a == g.1)) {
        return;
    }
    let mut tally: BTreeMap<EvId, i64> = BTreeMap::new();
    for (i, _) in want {
        *tally.entry(*i).or_insert(0) += 1;
    }
    for (i, _) in got {
        *tally.entry(*i).or_insert(0) -= 1;
    }
    let mut ok = true;
    for (i, n) in tally {
        if n == 0 {
            continue;
        }
        ok = false;
        let (props, class): (Vec<&'static str>, &str) = match i {
            EvId::Drop(l) => {
                let was_pinned = match l {
                    Leaf::T(t) => with(|w| w.ledger.get((t as usize).wrapping_sub(1)).map_or(false, |i| i.pinned.is_some())),
                    _ => false,
                };
                let p = if was_pinned { with_more(count, &["C02"]) } else { count.to_vec() };
                (p, if n > 0 { "not-destroyed" } else { "destroyed-unexpectedly" })
            }
            EvId::Body(_) => (vec!["C04"], if n > 0 { "destructor-body-not-run" } else { "destructor-body-extra-run" }),
            EvId::Mark(_) => (vec!["C04"], "destructor-body-behaviour"),
        };
        violation(&props, class, format!("{i:?} x{} in {what}", n.abs()));
    }
    if !ok {
        return;
    }
    let gi: Vec<EvId> = got.iter().map(|x| x.0).collect();
    let wi: Vec<EvId> = want.iter().map(|x| x.0).collect();
    if gi != wi {
        let body_late = wi.iter().any(|e| matches!(e, EvId::Body(_)))
            && gi.iter().position(|e| matches!(e, EvId::Body(_))) != wi.iter().position(|e| matches!(e, EvId::Body(_)));
        let marks = |v: &[EvId]| v.iter().copied().filter(|e| matches!(e, EvId::Mark(_))).collect::<Vec<_>>();
        if marks(&gi) != marks(&wi) {
            violation(&["C04"], "destructor-body-behaviour", format!("marks out of order in {what}"));
        }
        let props = if body_late { with_more(order, &["C04"]) } else { order.to_vec() };
        violation(&props, "destruction-order", format!("expected {wi:?}, got {gi:?} in {what}"));
        return;
    }
    for ((i, ga), (_, wa)) in got.iter().zip(want) {
        if let Some(wa) = wa {
            if ga != wa {
                let mut props = if matches!(i, EvId::Body(_)) { with_more(moved, &["C04"]) } else { moved.to_vec() };
                if let (EvId::Drop(Leaf::T(t)), true) = (i, props.len() > 1) {
                    if !with(|w| w.ledger.get((*t as usize).wrapping_sub(1)).map_or(false, |i| i.pinned.is_some())) {
                        props.retain(|p| *p != "C02");
                    }
                }
                violation(&props, "destroyed-elsewhere", format!("{i:?} destroyed {} in {what}", crate::world::away(*wa, *ga)));
                return;
            }
        }
    }
}

pub enum Caught {
    Sim(u64),
    Other(String),
}
/// Runs `f` in a frame of its own and stops any panic at the frame's boundary.
pub fn guarded<R>(kind: FrameKind, f: impl FnOnce() -> R) -> (Result<R, Caught>, Frame) {
    push_frame(kind, true);
    let r = catch_unwind(AssertUnwindSafe(f));
    let fr = pop_frame();
    let r = match r {
        Ok(r) => Ok(r),
        Err(p) => Err(match p.downcast_ref::<SimPanic>() {
            Some(s) => Caught::Sim(s.0),
            None => Caught::Other(
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            ),
        }),
    };
    (r, fr)
}
/// Panic bookkeeping of a finished frame: an injected panic must have come out, and nothing else.
/// Returns true if the operation completed normally.
pub fn finish_panic<R>(r: Result<R, Caught>, fr: &Frame, props: &[&'static str]) -> Option<R> {
    match r {
        Ok(v) => {
            if fr.panicked {
                violation(props, "panic-swallowed", format!("in {:?}", fr.kind));
            }
            Some(v)
        }
        Err(Caught::Sim(id)) => {
            if !fr.panicked || id != fr.panic_id {
                violation(props, "wrong-panic", format!("in {:?}", fr.kind));
            }
            None
        }
        Err(Caught::Other(m)) => {
            violation(props, "unexpected-panic", format!("in {:?}: {m}", fr.kind));
            None
        }
    }
}

fn destroy_kind<T: Zoo>() -> FrameKind {
    if T::spec().has_body {
        FrameKind::DestroyPd
    } else {
        FrameKind::Destroy
    }
}
fn destroy_props<T: Zoo>() -> &'static [&'static str] {
    if T::spec().has_body {
        &["C04", "C05"]
    } else {
        &["C05"]
    }
}

/// Drops things the caller took out of values, checking their destruction.
fn drop_holds(h: Vec<(Box<dyn Hold>, Vec<Item>)>, props: &[&'static str]) {
    for (b, its) in h {
        let (r, fr) = guarded(FrameKind::OwnedDrop, move || drop(b));
        check_events(&fr, &script(&its, false), props, &["C05"], &["C02"], "destruction of moved-out fields");
        finish_panic(r, &fr, props);
    }
}

/// Stash of things to be destroyed later, possibly by another caller.
static STASH: Mutex<Vec<(Box<dyn Hold>, Vec<Item>)>> = Mutex::new(Vec::new());
fn stash(h: Vec<(Box<dyn Hold>, Vec<Item>)>, props: &[&'static str]) {
    for x in h {
        if choose(2) == 1 {
            STASH.lock().unwrap_or_else(|e| e.into_inner()).push(x);
        } else {
            drop_holds(vec![x], props);
        }
    }
}
pub fn flush_stash() {
    let v = std::mem::take(&mut *STASH.lock().unwrap_or_else(|e| e.into_inner()));
    drop_holds(v, &["C01"]);
}

// ----- operations on one exclusively held pinned value --------------------------------------

fn note_op<T: Zoo>(code: u64, what: &str) {
    let s = T::spec();
    with(|w| {
        w.cur.clear();
        w.cur.push_str(s.name);
        w.note(0x7000 + code * 4096 + s.id as u64, || format!("{what} on {} (type {})", s.name, s.id));
    });
}

/// The value still holds what the model says, where the model says.
fn check_state<T: Zoo>(p: &T, model: &ValObs, props: &[&'static str], what: &str) {
    if cfg!(miri) {
        return; // every access is judged by the interpreter there
    }
    let t = p.truth();
    if let Some(d) = diff_obs(model, &t, false) {
        violation(props, "state-diverged", format!("after {what}: {d}"));
        return;
    }
    let pin_its = t.pinned_items();
    let mut bad = None;
    with(|w| {
        for it in &pin_its {
            if let Item::Leaf { leaf: Leaf::T(t), addr, .. } = *it {
                if let Some(i) = w.ledger.get((t as usize).wrapping_sub(1)) {
                    if let Some(p) = i.pinned {
                        if p != addr {
                            bad = Some(t);
                        }
                    }
                }
            }
        }
    });
    if let Some(t) = bad {
        violation(&["C02"], "pinned-field-moved", format!("T({t}) is elsewhere after {what}"));
    }
}
fn pin_all(m: &ValObs) {
    // from now on the value is pinned in place, whether or not anybody has projected it yet
    saw_pinned(&m.pinned_items());
}

fn op_project<T: Zoo>(mut p: Pin<&mut T>, model: &mut ValObs) {
    if !T::spec().has_project {
        return;
    }
    let mutate = choose(4) != 0;
    note_op::<T>(1 + mutate as u64, "project");
    with(|w| w.bump("op-project"));
    let before = p.truth();
    let mut v = Vis::new(if mutate { VMode::Mutate } else { VMode::Look });
    let (r, fr) = guarded(FrameKind::Project, || p.as_mut().visit_mut(&mut v));
    let full = r.is_ok();
    finish_panic(r, &fr, &["C03"]);
    check_events(&fr, &Vec::new(), &["C03"], &["C05"], &["C02"], "projection");
    if full {
        if let Some(d) = diff_obs(&before, &v.got, true) {
            violation(&["C03"], "projection-mismatch", d);
        }
    } else {
        // unwound half-way: what was seen must be a prefix
        for (i, g) in v.got.fields.iter().enumerate() {
            let mut one = ValObs::new(before.variant);
            one.fields.extend(before.fields.get(i).cloned());
            let mut two = ValObs::new(v.got.variant);
            two.fields.push(g.clone());
            if let Some(d) = diff_obs(&one, &two, true) {
                violation(&["C03"], "projection-mismatch", d);
            }
        }
    }
    for (i, its) in &v.edits {
        if let Some(f) = model.fields.iter_mut().find(|f| f.idx == *i) {
            f.items = its.clone();
        }
    }
    check_state::<T>(&p, model, &["C03"], "project");
    stash(std::mem::take(&mut v.holds), &["C03", "C05"]);
}

fn op_ref<T: Zoo>(p: Pin<&mut T>, model: &mut ValObs) {
    if !T::spec().has_ref {
        return;
    }
    let mutate = choose(3) != 0;
    note_op::<T>(3 + mutate as u64, "project_ref");
    with(|w| w.bump("op-project-ref"));
    let before = p.truth();
    let mut v = Vis::new(if mutate { VMode::Mutate } else { VMode::Look });
    let (r, fr) = guarded(FrameKind::Ref, || p.as_ref().visit_ref(&mut v));
    finish_panic(r, &fr, &["C03"]);
    check_events(&fr, &Vec::new(), &["C03"], &["C05"], &["C02"], "shared projection");
    if let Some(d) = diff_obs(&before, &v.got, true) {
        violation(&["C03"], "projection-mismatch", format!("shared: {d}"));
    }
    for (i, its) in &v.edits {
        if let Some(f) = model.fields.iter_mut().find(|f| f.idx == *i) {
            f.items = its.clone();
        }
    }
    check_state::<T>(&p, model, &["C03"], "project_ref");
}

fn make_new<T: Zoo>() -> T {
    T::make(choose(T::spec().variants.len() as u32))
}

fn op_replace<T: Zoo>(mut p: Pin<&mut T>, model: &mut ValObs) {
    if !T::spec().has_replace {
        return;
    }
    let new: T = make_new::<T>();
    let want_new = new.truth();
    note_op::<T>(5, "project_replace");
    with(|w| w.bump("op-replace"));
    let before = p.truth();
    let mut v = Vis::new(VMode::Look);
    v.split_own = choose(2) == 1;
    let (r, fr) = guarded(FrameKind::Replace, || p.as_mut().replace(new, &mut v));
    let panicked = r.is_err();
    finish_panic(r, &fr, &["C01"]);
    let pinned = script(&before.pinned_items(), true);
    let unp: Vec<Item> = before.fields.iter().filter(|f| !f.pinned).flat_map(|f| f.items.iter().copied()).collect();
    let moved: &[&'static str] = &["C02", "C01"];
    if !panicked {
        check_events(&fr, &pinned, &["C01", "C05"], &["C05"], moved, "project_replace");
        if !v.seen_variant || v.got.variant != before.variant {
            violation(&["C01"], "wrong-variant-returned", format!("{} expected, {} found", before.variant, v.got.variant));
        }
        let want: Vec<(u32, bool)> = before.fields.iter().map(|f| (f.idx, f.pinned)).collect();
        let got: Vec<(u32, bool)> = v.own.iter().map(|o| (o.0, o.1)).collect();
        if want != got {
            violation(&["C01"], "returned-fields", format!("{want:?} expected, {got:?} found"));
        } else {
            for (f, o) in before.fields.iter().zip(&v.own) {
                if !f.pinned && (f.items.len() != o.2.len() || !f.items.iter().zip(&o.2).all(|(a, b)| a.same(b))) {
                    violation(&["C01", "C03"], "returned-field-contents", format!("field {}: {:?} expected, {:?} found", f.idx, short(&f.items), short(&o.2)));
                }
            }
        }
    } else {
        with(|w| w.bump("replace-unwound"));
        let us = script(&unp, false);
        let mut keys: Vec<EvId> = us.iter().map(|x| x.0).collect();
        keys.sort();
        let all: Vec<(EvId, usize)> = fr.evs.iter().map(ev_id).collect();
        if pinned.iter().any(|x| keys.binary_search(&x.0).is_ok()) {
            // a kind of event that both groups contain: only the tally can be told
            let mut g: Vec<_> = all.iter().map(|x| (x.0, 0)).collect();
            let mut e: Script = pinned.iter().chain(&us).map(|x| (x.0, None)).collect();
            g.sort();
            e.sort();
            check_ids(&g, &e, &["C01", "C05"], &["C01"], moved, "project_replace (unwinding)");
        } else {
        let (gu, gp): (Vec<_>, Vec<_>) = all.into_iter().partition(|x| keys.binary_search(&x.0).is_ok());
        check_ids(&gp, &pinned, &["C01", "C05"], &["C05"], moved, "project_replace (pinned fields, unwinding)");
        check_ids(&gu, &us, &["C01", "C05"], &["C05"], moved, "project_replace (unpinned fields, unwinding)");
        }
    }
    *model = want_new;
    // addresses of the model are those of the slot now
    let now = p.truth();
    if let Some(d) = diff_obs(model, &now, false) {
        violation(&["C01"], "slot-not-the-replacement", format!("{}{d}", if panicked { "after unwinding: " } else { "" }));
    }
    *model = now;
    forget_pins(&model.flat());
    pin_all(model);
    forget_pins(&unp);
    stash(std::mem::take(&mut v.holds), &["C01"]);
}

fn op_set<T: Zoo>(mut p: Pin<&mut T>, model: &mut ValObs) {
    let new: T = make_new::<T>();
    let want_new = new.truth();
    note_op::<T>(6, "set");
    with(|w| w.bump("op-set"));
    let old = items_of(&*p);
    let (r, fr) = guarded(destroy_kind::<T>(), || p.set(new));
    finish_panic(r, &fr, destroy_props::<T>());
    check_events(&fr, &script(&old, true), destroy_props::<T>(), &["C05"], &["C02"], "in-place assignment");
    let now = p.truth();
    if let Some(d) = diff_obs(&want_new, &now, false) {
        violation(&["C03"], "state-diverged", format!("after set: {d}"));
    }
    *model = now;
    forget_pins(&model.flat());
    pin_all(model);
}

/// A safe caller tries to move the pinned value.
fn op_move<T: Zoo>(mut p: Pin<&mut T>, model: &mut ValObs) {
    note_op::<T>(7, "attempt to move");
    let legit = T::spec().movable;
    let before = p.truth();
    if let Some((can, may)) = T::open_dyn(p.as_mut()) {
        with(|w| w.bump("unsized-move-attempts"));
        if can != may {
            violation(&["C06"], if may { "move-refused" } else { "move-permitted" }, "the unsized form of the value".into());
        }
    }
    match T::open(p.as_mut()) {
        None => {
            with(|w| w.bump("move-refused"));
            if legit {
                violation(&["C06"], "move-refused", "every pinned field is Unpin but safe code cannot move the value".into());
            }
        }
        Some(r) => {
            with(|w| w.bump("move-performed"));
            if !legit {
                violation(&["C06"], "move-permitted", "safe code can move a value whose pinned fields must not move".into());
            }
            let old = core::mem::replace(r, make_new::<T>());
            if legit {
                forget_pins(&before.flat());
                let now = old.truth();
                if let Some(d) = diff_obs(&before, &now, false) {
                    violation(&["C03"], "state-diverged", format!("after move: {d}"));
                }
            } else {
                // the dynamic consequence: leaves seen pinned are now elsewhere
                check_state::<T>(&old, &before, &["C03"], "a move by safe code");
                forget_pins(&before.flat());
            }
            *model = p.truth();
            forget_pins(&model.flat());
            pin_all(model);
            // sometimes the moved-out value is moved back, otherwise destroyed where it is now
            let its = items_of(&old);
            let (r, fr) = guarded(destroy_kind::<T>(), move || {
                let boxed = Box::new(old);
                drop(boxed);
            });
            finish_panic(r, &fr, destroy_props::<T>());
            check_events(&fr, &script(&its, false), destroy_props::<T>(), &["C05"], &["C02"], "destruction of a moved value");
        }
    }
}

fn one_op<T: Zoo>(p: Pin<&mut T>, model: &mut ValObs, w: &[u32; 8]) {
    match pick(&w[..5]) {
        0 => op_project(p, model),
        1 => op_ref(p, model),
        2 => op_replace(p, model),
        3 => op_set(p, model),
        _ => op_move(p, model),
    }
}

/// Weighted decision; index 0 is the simplest.
pub fn pick(w: &[u32]) -> usize {
    let tot: u32 = w.iter().sum();
    if tot == 0 {
        return 0;
    }
    let mut x = choose(tot);
    for (i, k) in w.iter().enumerate() {
        if x < *k {
            return i;
        }
        x -= k;
    }
    0
}

/// A value pinned on the caller's stack, used and then destroyed by scope exit or by unwinding.
fn op_stack<T: Zoo>(w: &[u32; 8]) {
    note_op::<T>(8, "stack session");
    with(|w| w.bump("op-stack-session"));
    let n = 1 + choose(3);
    let boom = chance(with(|w| w.faults.caller_panic * 2));
    let mut want: Vec<Item> = Vec::new();
    let (r, fr) = guarded(destroy_kind::<T>(), || {
        let mut v = pin!(make_new::<T>());
        let mut model = v.truth();
        pin_all(&model);
        for _ in 0..n {
            push_frame(FrameKind::Idle, false);
            one_op::<T>(v.as_mut(), &mut model, w);
            pop_frame();
        }
        want = items_of(&*v);
        if boom {
            sim_panic("caller-panic-unwinds-pinned-value");
        }
    });
    finish_panic(r, &fr, destroy_props::<T>());
    check_events(&fr, &script(&want, true), destroy_props::<T>(), &["C05"], &["C02"], "destruction of a stack-pinned value");
}

// ----- slots --------------------------------------------------------------------------------

enum Place<T> {
    Empty,
    Raw(*mut T),
    Boxed(Pin<Box<T>>),
}
pub struct Slot<T: Zoo> {
    place: Place<T>,
    model: ValObs,
}
// SAFETY: `T` is Send (supertrait of Fld); the raw pointer is owned by the slot.
unsafe impl<T: Zoo> Send for Slot<T> {}

pub trait SlotDyn: Send {
    fn step(&mut self, w: &[u32; 8]);
    fn destroy(&mut self);
}

impl<T: Zoo> Slot<T> {
    pub fn fresh() -> Box<dyn SlotDyn> {
        let mut s = Slot::<T> { place: Place::Empty, model: ValObs::default() };
        s.fill();
        Box::new(s)
    }
    fn fill(&mut self) {
        let v = make_new::<T>();
        note_op::<T>(9, "create");
        self.place = if choose(2) == 0 {
            Place::Boxed(Box::pin(v))
        } else {
            let l = core::alloc::Layout::new::<T>();
            // SAFETY: sized layout (padded to at least one byte).
            unsafe {
                let l = core::alloc::Layout::from_size_align(l.size().max(1), l.align()).unwrap();
                let p = std::alloc::alloc(l) as *mut T;
                p.write(v);
                Place::Raw(p)
            }
        };
        self.model = self.pin().truth();
        pin_all(&self.model);
    }
    fn pin(&mut self) -> Pin<&mut T> {
        match &mut self.place {
            Place::Boxed(b) => b.as_mut(),
            // SAFETY: the slot's memory is never moved and is freed only after drop_raw.
            Place::Raw(p) => unsafe { Pin::new_unchecked(&mut **p) },
            Place::Empty => unreachable!(),
        }
    }
    fn empty(&mut self) -> bool {
        matches!(self.place, Place::Empty)
    }
    fn kill(&mut self) {
        if self.empty() {
            return;
        }
        note_op::<T>(10, "destroy");
        with(|w| w.bump("op-destroy"));
        let its = items_of(&*self.pin());
        let place = core::mem::replace(&mut self.place, Place::Empty);
        let (r, fr) = guarded(destroy_kind::<T>(), || match place {
            Place::Boxed(b) => T::drop_box(b),
            // SAFETY: dropped once; the memory is poisoned and freed afterwards.
            Place::Raw(p) => unsafe {
                struct Free<T>(*mut T);
                impl<T> Drop for Free<T> {
                    fn drop(&mut self) {
                        let l = core::alloc::Layout::new::<T>();
                        unsafe {
                            let l = core::alloc::Layout::from_size_align(l.size().max(1), l.align()).unwrap();
                            core::ptr::write_bytes(self.0 as *mut u8, 0xDD, l.size());
                            std::alloc::dealloc(self.0 as *mut u8, l);
                        }
                    }
                }
                let _f = Free(p);
                T::drop_raw(p)
            },
            Place::Empty => {}
        });
        finish_panic(r, &fr, destroy_props::<T>());
        check_events(&fr, &script(&its, true), destroy_props::<T>(), &["C05"], &["C02"], "destruction");
    }
}
impl<T: Zoo> SlotDyn for Slot<T> {
    fn step(&mut self, w: &[u32; 8]) {
        if self.empty() {
            self.fill();
        }
        if !cfg!(miri) {
            let model = self.model.clone();
            let p = self.pin();
            check_state::<T>(&p, &model, &["C03"], "being left alone");
        }
        match pick(&[w[0] + w[1] + w[2] + w[3] + w[4], w[5], w[6], w[7]]) {
            0 => {
                let mut m = std::mem::take(&mut self.model);
                one_op::<T>(self.pin(), &mut m, w);
                self.model = m;
            }
            1 => self.kill(),
            2 => op_stack::<T>(w),
            _ => {
                // move the owning handle about; the value stays
                let place = core::mem::replace(&mut self.place, Place::Empty);
                let moved = vec![place];
                self.place = moved.into_iter().next().unwrap();
                flush_stash();
            }
        }
    }
    fn destroy(&mut self) {
        self.kill()
    }
}

// ----- shared values ------------------------------------------------------------------------

pub struct Shared<T: Zoo> {
    val: Pin<Arc<T>>,
    base: ValObs,
}
/// Expected value increments per leaf, accumulated over all callers.
static DELTAS: Mutex<BTreeMap<u32, u32>> = Mutex::new(BTreeMap::new());

pub trait SharedDyn: Send {
    fn look(&self);
    fn dup(&self) -> Box<dyn SharedDyn>;
    fn release(self: Box<Self>);
}
impl<T: Zoo> Shared<T> {
    pub fn fresh() -> Box<dyn SharedDyn> {
        let v = Arc::pin(make_new::<T>());
        let base = v.truth();
        pin_all(&base);
        Box::new(Shared { val: v, base })
    }
    fn same_ids(&self, got: &ValObs) -> Option<String> {
        // values move under concurrent writers: compare identities and places only
        let strip = |o: &ValObs| {
            let mut o = o.clone();
            for f in &mut o.fields {
                for i in &mut f.items {
                    if let Item::Leaf { val, .. } = i {
                        *val = 0;
                    }
                }
            }
            o
        };
        diff_obs(&strip(&self.base), &strip(got), true)
    }
}
impl<T: Zoo> SharedDyn for Shared<T> {
    fn look(&self) {
        if !T::spec().has_ref {
            return;
        }
        note_op::<T>(11, "shared project_ref");
        with(|w| w.bump("op-shared-ref"));
        let mut v = Vis::new(VMode::Mutate);
        let (r, fr) = guarded(FrameKind::Ref, || self.val.as_ref().visit_ref(&mut v));
        finish_panic(r, &fr, &["C03"]);
        check_events(&fr, &Vec::new(), &["C03"], &["C05"], &["C02"], "shared projection");
        if let Some(d) = self.same_ids(&v.got) {
            violation(&["C03"], "projection-mismatch", format!("shared between threads: {d}"));
        }
        let mut m = DELTAS.lock().unwrap_or_else(|e| e.into_inner());
        for (t, d) in v.deltas {
            let e = m.entry(t).or_insert(0);
            *e = e.wrapping_add(d);
        }
    }
    fn dup(&self) -> Box<dyn SharedDyn> {
        Box::new(Shared { val: self.val.clone(), base: self.base.clone() })
    }
    fn release(self: Box<Self>) {
        note_op::<T>(12, "release shared");
        let Shared { val, base } = *self;
        // SAFETY: only to count owners; nothing is moved.
        let last = unsafe {
            let a = Pin::into_inner_unchecked(val);
            let n = Arc::strong_count(&a);
            let v = Pin::new_unchecked(a);
            (v, n == 1)
        };
        let (val, last) = last;
        let mut its = Vec::new();
        if last {
            its = items_of(&*val);
            let m = DELTAS.lock().unwrap_or_else(|e| e.into_inner());
            for (b, n) in base.flat().iter().zip(val.truth().flat().iter()) {
                if let (Item::Leaf { leaf: Leaf::T(t), val: v0, .. }, Item::Leaf { val: v1, .. }) = (b, n) {
                    let d = m.get(t).copied().unwrap_or(0);
                    if *v1 != v0.wrapping_add(d) {
                        drop(m);
                        violation(&["C03", "C08"], "lost-update", format!("T({t})"));
                        break;
                    }
                }
            }
        }
        let (r, fr) = guarded(destroy_kind::<T>(), || T::drop_arc(val));
        finish_panic(r, &fr, destroy_props::<T>());
        check_events(&fr, &script(&its, true), destroy_props::<T>(), &["C05"], &["C02"], "release of a shared value");
    }
}

// ----- whole runs ---------------------------------------------------------------------------

pub struct TypeEntry {
    pub name: &'static str,
    pub spec: fn() -> &'static TySpec,
    pub slot: fn() -> Box<dyn SlotDyn>,
    pub shared: fn() -> Box<dyn SharedDyn>,
    pub lite: fn(),
}
#[macro_export]
macro_rules! entry {
    ($t:ty) => {
        $crate::TypeEntry {
            name: ::core::stringify!($t),
            spec: <$t as $crate::Zoo>::spec,
            slot: $crate::ops::Slot::<$t>::fresh,
            shared: $crate::ops::Shared::<$t>::fresh,
            lite: $crate::ops::lite_value::<$t>,
        }
    };
}

/// Operation weights: project, ref, replace, set, move | destroy, stack session, handle move.
#[derive(Clone, Copy)]
pub struct Profile {
    pub name: &'static str,
    pub w: [u32; 8],
    pub actors: u32,
}
pub const PROFILES: &[Profile] = &[
    Profile { name: "C01", w: [3, 1, 10, 1, 1, 1, 2, 1], actors: 1 },
    Profile { name: "C02", w: [5, 3, 5, 3, 4, 2, 3, 2], actors: 1 },
    Profile { name: "C03", w: [8, 6, 3, 2, 1, 1, 2, 1], actors: 1 },
    Profile { name: "C04", w: [2, 1, 1, 5, 2, 6, 4, 1], actors: 1 },
    Profile { name: "C05", w: [2, 1, 6, 5, 1, 5, 3, 2], actors: 1 },
    Profile { name: "C06", w: [3, 2, 2, 2, 8, 1, 2, 1], actors: 1 },
    Profile { name: "C07", w: [5, 3, 5, 3, 4, 2, 3, 2], actors: 1 },
    Profile { name: "C08", w: [5, 3, 6, 3, 2, 3, 2, 1], actors: 3 },
    Profile { name: "C09", w: [4, 3, 6, 3, 2, 3, 3, 1], actors: 1 },
    Profile { name: "C09T", w: [4, 3, 6, 3, 2, 3, 3, 1], actors: 2 },
];

pub type Fam = &'static [TypeEntry];

static TABLE: Mutex<Vec<Option<Box<dyn SlotDyn>>>> = Mutex::new(Vec::new());
static SHARED: Mutex<Vec<Vec<Box<dyn SharedDyn>>>> = Mutex::new(Vec::new());
static WEIGHTS: Mutex<([u32; 8], u32)> = Mutex::new(([0; 8], 0));

fn table() -> std::sync::MutexGuard<'static, Vec<Option<Box<dyn SlotDyn>>>> {
    TABLE.lock().unwrap_or_else(|e| e.into_inner())
}
fn weights() -> ([u32; 8], u32) {
    *WEIGHTS.lock().unwrap_or_else(|e| e.into_inner())
}

fn take_slot() -> Option<(usize, Box<dyn SlotDyn>)> {
    let free: Vec<usize> = {
        let t = table();
        (0..t.len()).filter(|&i| t[i].is_some()).collect()
    };
    if free.is_empty() {
        return None;
    }
    let i = free[choose(free.len() as u32) as usize];
    let s = table()[i].take().unwrap();
    Some((i, s))
}
fn step_any() {
    if let Some((i, mut s)) = take_slot() {
        let (w, _) = weights();
        // now and then the step is taken by a short-lived thread, or as that thread dies
        let place = if cfg!(miri) { 0 } else { choose(192) };
        if place >= 190 {
            with(|wd| wd.bump(if place == 190 { "steps-on-a-short-lived-thread" } else { "steps-in-a-thread-local-destructor" }));
            s = elsewhere(s, w, place == 191);
        } else {
            s.step(&w);
        }
        table()[i] = Some(s);
    }
}

/// What a thread still does while its thread-local state is being torn down.
struct LastWords(core::cell::Cell<Option<Box<dyn FnOnce()>>>);
impl Drop for LastWords {
    fn drop(&mut self) {
        if let Some(f) = self.0.take() {
            f()
        }
    }
}
thread_local! { static LAST_WORDS: LastWords = const { LastWords(core::cell::Cell::new(None)) }; }

/// Takes one step on a thread of its own; the caller waits, so the schedule stays the simulator's.
fn elsewhere(mut s: Box<dyn SlotDyn>, w: [u32; 8], dying: bool) -> Box<dyn SlotDyn> {
    let me = actor();
    let back = Arc::new(Mutex::new(None));
    let out = back.clone();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            set_actor(me);
            if dying {
                // registered before anything the steps below leave in this thread
                LAST_WORDS.with(|_| ());
                for _ in 0..choose(4) {
                    s.step(&w);
                }
            }
            let step = move || {
                s.step(&w);
                *out.lock().unwrap_or_else(|e| e.into_inner()) = Some(s);
            };
            if dying {
                LAST_WORDS.with(|l| l.0.set(Some(Box::new(step))));
            } else {
                step()
            }
        })
        .expect("spawn");
    let _ = h.join();
    let got = back.lock().unwrap_or_else(|e| e.into_inner()).take();
    match got {
        Some(s) => s,
        None => {
            eprintln!("harness error: a step on another thread was lost");
            std::process::exit(3);
        }
    }
}
/// An operation on some other value, issued by a destructor.
pub fn nested_op() {
    push_frame(FrameKind::Idle, false);
    step_any();
    pop_frame();
}

fn actor_main(a: usize) {
    let (_, n) = weights();
    for _ in 0..n {
        let mine = SHARED.lock().unwrap_or_else(|e| e.into_inner()).get(a).map_or(0, |v| v.len()) as u32;
        let k = if mine > 0 { choose(4) } else { 0 };
        match k {
            2 => {
                let h = { SHARED.lock().unwrap_or_else(|e| e.into_inner())[a].pop() };
                if let Some(h) = h {
                    h.look();
                    SHARED.lock().unwrap_or_else(|e| e.into_inner())[a].push(h);
                }
            }
            3 => {
                let h = { SHARED.lock().unwrap_or_else(|e| e.into_inner())[a].pop() };
                if let Some(h) = h {
                    if choose(3) == 2 {
                        h.release();
                    } else {
                        let d = h.dup();
                        let mut s = SHARED.lock().unwrap_or_else(|e| e.into_inner());
                        s[a].push(h);
                        s[a].push(d);
                    }
                }
            }
            _ => step_any(),
        }
        sched::yield_point();
        if violated() {
            return;
        }
    }
    // let go of everything shared
    loop {
        let h = { SHARED.lock().unwrap_or_else(|e| e.into_inner()).get_mut(a).and_then(|v| v.pop()) };
        match h {
            Some(h) => h.release(),
            None => break,
        }
        sched::yield_point();
        if violated() {
            return;
        }
    }
}

const RATES: [u32; 5] = [0, 20, 48, 96, 160];

/// One simulated run over the zoo. All decisions come from `choose`.
pub fn run_zoo(types: Fam, prof: &Profile) {
    let n_slots = 1 + choose(3);
    let faulty = choose(4) != 0;
    let mut f = Faults::default();
    if faulty {
        f.panic = RATES[choose(5) as usize];
        f.body_panic = RATES[choose(5) as usize];
        f.caller_panic = RATES[choose(3) as usize];
        f.nest = RATES[choose(4) as usize];
    }
    let multi = prof.actors > 1;
    let n_act = if multi { 2 + choose(prof.actors - 1) } else { 1 };
    if multi {
        f.switch = [40, 90, 150, 20][choose(4) as usize];
        if prof.actors > 1 && f.nest == 0 {
            f.nest = RATES[choose(4) as usize];
        }
    }
    let long = choose(96) == 95;
    let n_ops = (if long { 300 } else { 1 + choose(if multi { 10 } else { 16 }) }).min(max_ops());
    // swarm: leave out some operations
    let mut w = prof.w;
    for i in 0..5 {
        if choose(6) == 5 && w[i] < 5 {
            w[i] = 0;
        }
    }
    *WEIGHTS.lock().unwrap_or_else(|e| e.into_inner()) = (w, n_ops);
    DELTAS.lock().unwrap_or_else(|e| e.into_inner()).clear();
    with(|wd| {
        wd.faults = f;
        wd.multi = multi;
        wd.nest_budget = if cfg!(miri) { 4 } else { 24 };
        if long {
            wd.bump("long-runs");
        }
        if !faulty {
            wd.bump("fault-free-runs");
        }
    });
    abandon();
    for _ in 0..n_slots {
        let t = &types[choose(types.len() as u32) as usize];
        let s = (t.slot)();
        table().push(Some(s));
    }
    if multi {
        let mut v: Vec<Vec<Box<dyn SharedDyn>>> = (0..=n_act).map(|_| Vec::new()).collect();
        let t = &types[choose(types.len() as u32) as usize];
        let s = (t.shared)();
        for a in 1..=n_act {
            v[a as usize].push(s.dup());
        }
        *SHARED.lock().unwrap_or_else(|e| e.into_inner()) = v;
        s.release();
        sched::run_actors(n_act as usize, actor_main);
    } else {
        for _ in 0..n_ops {
            step_any();
            if violated() {
                return;
            }
        }
    }
    if violated() {
        return;
    }
    // teardown
    loop {
        let s = table().pop();
        match s {
            Some(Some(mut s)) => s.destroy(),
            Some(None) => {}
            None => break,
        }
        if violated() {
            return;
        }
    }
    flush_stash();
    if violated() {
        return;
    }
    let leaked = with(|w| {
        w.ledger.iter().position(|i| !i.dropped).map(|p| format!("T({})", p + 1)).or_else(|| w.zlive.iter().find(|x| *x.1 != 0).map(|x| format!("Z({})x{}", x.0, x.1)))
    });
    if let Some(l) = leaked {
        violation(&["C01", "C04", "C05"], "leaked", l);
    }
}

static MAX_OPS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(u32::MAX);
pub fn set_max_ops(n: u32) {
    MAX_OPS.store(n, core::sync::atomic::Ordering::Relaxed);
}
fn max_ops() -> u32 {
    MAX_OPS.load(core::sync::atomic::Ordering::Relaxed)
}

/// Forgets everything a run left behind after it found a violation.
pub fn abandon() {
    core::mem::forget(std::mem::take(&mut *table()));
    core::mem::forget(std::mem::take(&mut *SHARED.lock().unwrap_or_else(|e| e.into_inner())));
    core::mem::forget(std::mem::take(&mut *STASH.lock().unwrap_or_else(|e| e.into_inner())));
}

// ----- light runs: no model, one value at a time, for the interpreter -----------------------

thread_local! { static LITE_FAM: core::cell::Cell<Fam> = const { core::cell::Cell::new(&[]) }; }

pub fn run_lite(types: Fam) -> (u64, u64) {
    LITE_FAM.with(|f| f.set(types));
    LIGHT.start();
    // a few values of one definition, so that a definition is judged more than once
    let t = &types[choose(types.len() as u32) as usize];
    for _ in 0..1 + choose(3) {
        lite_begin(t);
    }
    LIGHT.end()
}
fn lite_begin(t: &TypeEntry) {
    LIGHT.note(0x7000, || format!("a value of {}", t.name));
    (t.lite)();
}
/// From inside a destructor.
pub fn lite_nested() {
    let fuse = LIGHT.fuse.replace(0);
    let types = LITE_FAM.with(|f| f.get());
    let t = &types[choose(types.len() as u32) as usize];
    lite_begin(t);
    LIGHT.fuse.set(fuse);
}
/// One guarded call with or without a panic on its way.
fn lite_call(what: usize, code: u64, f: impl FnOnce()) {
    lite_arm(what, code);
    let _ = catch_unwind(AssertUnwindSafe(f));
    LIGHT.fuse.set(0);
}
fn lite_arm(what: usize, code: u64) {
    let fuse = [0, 0, 1, 2, 3, 4, 6, 9][choose(8) as usize];
    LIGHT.note(code, || format!("operation {what}/{code} (panic at event {fuse})"));
    LIGHT.count(what);
    LIGHT.fuse.set(fuse);
}
fn lite_ops<T: Zoo>(mut p: Pin<&mut T>) {
    let s = T::spec();
    for _ in 0..choose(5) {
        let mut v = Vis::new(if choose(3) != 0 { VMode::Mutate } else { VMode::Look });
        match choose(8) {
            0 | 1 if s.has_project => lite_call(0, 1, || p.as_mut().visit_mut(&mut v)),
            2 if s.has_ref => lite_call(1, 2, || p.as_ref().visit_ref(&mut v)),
            3 | 4 | 5 if s.has_replace => {
                v.split_own = choose(2) == 1;
                let new = make_new::<T>();
                lite_call(2, 3, || p.as_mut().replace(new, &mut v))
            }
            6 => {
                let new = make_new::<T>();
                lite_call(3, 4, || p.set(new))
            }
            7 => lite_call(4, 5, || {
                let new = make_new::<T>();
                if let Some(r) = T::open(p.as_mut()) {
                    drop(core::mem::replace(r, new));
                }
            }),
            _ => continue,
        }
        if !v.holds.is_empty() {
            let h = core::mem::take(&mut v.holds);
            lite_call(5, 6, || drop(h));
        }
    }
}
pub fn lite_value<T: Zoo>() {
    let s = T::spec();
    match choose(5) {
        0 | 1 => {
            let mut b = Box::pin(make_new::<T>());
            lite_ops(b.as_mut());
            lite_call(6, 7, || T::drop_box(b));
        }
        2 => {
            let mut m = core::mem::MaybeUninit::new(make_new::<T>());
            let raw = m.as_mut_ptr();
            // SAFETY: the value stays in `m` until it is destroyed there.
            lite_ops(unsafe { Pin::new_unchecked(&mut *raw) });
            lite_call(6, 8, || unsafe { T::drop_raw(raw) });
        }
        3 => {
            let _ = catch_unwind(|| {
                let mut v = pin!(make_new::<T>());
                lite_ops(v.as_mut());
                lite_arm(6, 9);
            });
            LIGHT.fuse.set(0);
        }
        _ => {
            let a = Arc::pin(make_new::<T>());
            let b = a.clone();
            if s.has_ref {
                let mut v = Vis::new(VMode::Mutate);
                lite_call(1, 2, || a.as_ref().visit_ref(&mut v));
                lite_call(1, 2, || b.as_ref().visit_ref(&mut v));
            }
            drop(b);
            lite_call(6, 10, || T::drop_arc(a));
        }
    }
}
