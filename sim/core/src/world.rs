//! The simulated world: decision source, ledger of leaves, per-caller frames, event log.
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;

use crate::sched;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Leaf {
    /// A tracked value with an identity of its own.
    T(u32),
    /// A zero-sized value with a destructor; identified by its kind only.
    Z(u32),
    /// A plain `Copy` value without destructor.
    V(u32),
}

/// What can be seen inside a field, in declaration order.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Item {
    Leaf { leaf: Leaf, val: u32, addr: usize },
    /// A value with a custom pinned destructor starts here (its body runs before what follows).
    Body { ty: u32, addr: usize },
    /// Something that body must report when it runs.
    Mark(u32),
}
impl Item {
    pub fn addr(&self) -> usize {
        match *self {
            Item::Leaf { addr, .. } | Item::Body { addr, .. } => addr,
            Item::Mark(_) => 0,
        }
    }
    /// Equality of contents, ignoring where they are.
    pub fn same(&self, o: &Item) -> bool {
        match (self, o) {
            (Item::Leaf { leaf: a, val: v, .. }, Item::Leaf { leaf: b, val: w, .. }) => a == b && v == w,
            (Item::Body { ty: a, .. }, Item::Body { ty: b, .. }) => a == b,
            (Item::Mark(a), Item::Mark(b)) => a == b,
            _ => false,
        }
    }
}

/// Destructor events.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    Drop { leaf: Leaf, addr: usize },
    Body { ty: u32, addr: usize },
    Mark(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FrameKind {
    Idle,
    Project,
    Ref,
    Replace,
    Destroy,
    DestroyPd,
    OwnedDrop,
    Field,
    Move,
    Flow,
}

pub struct Frame {
    pub kind: FrameKind,
    pub evs: Vec<Ev>,
    /// A simulated panic was raised in this frame and is (or was) unwinding towards its boundary.
    pub panicked: bool,
    pub panic_id: u64,
    pub faults_ok: bool,
}

pub struct TokInfo {
    pub dropped: bool,
    /// Address at which the leaf was seen through a pinned reference.
    pub pinned: Option<usize>,
    /// The leaf belongs to a type that must not move once pinned.
    pub immovable: bool,
}

pub struct ActorSt {
    pub frames: Vec<Frame>,
}

#[derive(Clone)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub class: String,
    pub msg: String,
}

/// Counters, looked up by the address of their (static) name.
#[derive(Clone)]
pub struct Stats(pub Vec<(&'static str, u64)>);
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        for e in self.0.iter_mut() {
            if core::ptr::eq(e.0, k) {
                e.1 += n;
                return;
            }
        }
        self.0.push((k, n));
    }
    pub fn sum(&self, keys: &[&str]) -> u64 {
        self.0.iter().filter(|e| keys.contains(&e.0)).map(|e| e.1).sum()
    }
    pub fn total(&self) -> BTreeMap<&'static str, u64> {
        let mut m = BTreeMap::new();
        for e in &self.0 {
            *m.entry(e.0).or_insert(0) += e.1;
        }
        m
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub enum Src {
    Seed(Rng),
    Script(Vec<u32>, usize),
}

#[derive(Clone, Copy, Default)]
pub struct Faults {
    /// In a destructor, probability `panic/256` of panicking.
    pub panic: u32,
    /// In a custom destructor body.
    pub body_panic: u32,
    /// Nested operation from inside a destructor.
    pub nest: u32,
    /// Pre-emption at a schedule point.
    pub switch: u32,
    /// Panic of the caller's own code while it holds a projection or a pinned value.
    pub caller_panic: u32,
}

pub struct World {
    pub src: Src,
    pub trace: Vec<u32>,
    pub trace_file: Option<File>,
    pub max_choices: usize,
    pub ledger: Vec<TokInfo>,
    pub zlive: BTreeMap<u32, i64>,
    pub actors: Vec<ActorSt>,
    pub faults: Faults,
    pub violations: Vec<Violation>,
    pub hash: u64,
    pub steps: u64,
    pub log: Option<Vec<String>>,
    pub stats: Stats,
    pub multi: bool,
    pub nest_budget: u32,
    /// Name of the type whose value is operated on (for reports).
    pub cur: String,
    pub now: u64,
    /// Full event history, kept when two runs are to be compared.
    pub hist: Option<Vec<u64>>,
}

impl World {
    const fn new() -> Self {
        World {
            src: Src::Script(Vec::new(), 0),
            trace: Vec::new(),
            trace_file: None,
            max_choices: 60_000,
            ledger: Vec::new(),
            zlive: BTreeMap::new(),
            actors: Vec::new(),
            faults: Faults { panic: 0, body_panic: 0, nest: 0, switch: 0, caller_panic: 0 },
            violations: Vec::new(),
            hash: 0xcbf29ce484222325,
            steps: 0,
            log: None,
            stats: Stats(Vec::new()),
            multi: false,
            nest_budget: 0,
            cur: String::new(),
            now: 0,
            hist: None,
        }
    }
    pub fn reset(&mut self, src: Src) {
        self.src = src;
        self.trace.clear();
        self.ledger.clear();
        self.zlive.clear();
        self.actors.clear();
        self.faults = Faults::default();
        self.violations.clear();
        self.hash = 0xcbf29ce484222325;
        self.steps = 0;
        if let Some(l) = &mut self.log {
            l.clear();
        }
        self.multi = false;
        self.nest_budget = 0;
        self.cur.clear();
        self.now = 0;
    }
    pub fn frame(&mut self) -> &mut Frame {
        let a = actor();
        while self.actors.len() <= a {
            self.actors.push(ActorSt { frames: Vec::new() });
        }
        let fr = &mut self.actors[a].frames;
        if fr.is_empty() {
            fr.push(Frame { kind: FrameKind::Idle, evs: Vec::new(), panicked: false, panic_id: 0, faults_ok: false });
        }
        fr.last_mut().unwrap()
    }
    pub fn mix(&mut self, x: u64) {
        if cfg!(miri) {
            self.hash = (self.hash.rotate_left(7) ^ x).wrapping_mul(0x100000001b3);
            return;
        }
        for b in x.to_le_bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn note(&mut self, k: u64, s: impl FnOnce() -> String) {
        self.mix(k);
        self.steps += 1;
        if let Some(h) = &mut self.hist {
            h.push(k);
        }
        if let Some(l) = &mut self.log {
            let a = actor();
            l.push(format!("[a{a}] {}", s()));
        }
    }
    pub fn bump(&mut self, k: &'static str) {
        self.stats.add(k, 1);
    }
}

struct Cellw(UnsafeCell<World>, UnsafeCell<bool>);
// SAFETY: exactly one simulated caller runs at a time; hand-over goes through a mutex.
unsafe impl Sync for Cellw {}
static WORLD: Cellw = Cellw(UnsafeCell::new(World::new()), UnsafeCell::new(false));

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    struct Un;
    impl Drop for Un {
        fn drop(&mut self) {
            unsafe { *WORLD.1.get() = false }
        }
    }
    unsafe {
        if *WORLD.1.get() {
            eprintln!("harness error: world re-entered");
            std::process::exit(3);
        }
        *WORLD.1.get() = true;
        let _u = Un;
        f(&mut *WORLD.0.get())
    }
}

/// State of light runs. They keep no model: the interpreter is the oracle, so the harness
/// does as little as it can and stays out of the big world structure.
pub struct Light {
    on: Cell<bool>,
    /// decisions come straight from the generator and are not written down
    fast: Cell<bool>,
    rng: Cell<u64>,
    pub fuse: Cell<u32>,
    toks: Cell<u32>,
    pub nest: Cell<u32>,
    steps: Cell<u64>,
    hash: Cell<u64>,
    counts: [Cell<u64>; LIGHT_NAMES.len()],
}
// SAFETY: light runs have one thread.
unsafe impl Sync for Light {}
const LIGHT_NAMES: [&str; 12] = [
    "op-project", "op-project-ref", "op-replace", "op-set", "op-move", "op-drop-taken", "op-destroy", "destructors", "destructor-bodies",
    "nested-op-in-destructor", "panic-in-field-destructor", "panic-in-destructor-body",
];
pub static LIGHT: Light = Light {
    on: Cell::new(false),
    fast: Cell::new(false),
    rng: Cell::new(0),
    fuse: Cell::new(0),
    toks: Cell::new(0),
    nest: Cell::new(0),
    steps: Cell::new(0),
    hash: Cell::new(0),
    counts: [const { Cell::new(0) }; LIGHT_NAMES.len()],
};
pub fn set_lite(fast: bool) {
    LIGHT.on.set(true);
    LIGHT.fast.set(fast);
}
pub fn lite() -> bool {
    LIGHT.on.get()
}
impl Light {
    pub fn start(&self) {
        self.fuse.set(0);
        self.toks.set(0);
        self.nest.set(2);
        self.steps.set(0);
        self.hash.set(0xcbf29ce484222325);
        if self.fast.get() {
            let r = with(|w| if let Src::Seed(r) = &w.src { r.0 } else { 0 });
            self.rng.set(r);
        }
    }
    pub fn end(&self) -> (u64, u64) {
        (self.steps.get(), self.hash.get())
    }
    pub fn finish(&self) {
        with(|w| {
            for (i, c) in self.counts.iter().enumerate() {
                let n = c.replace(0);
                if n > 0 {
                    w.stats.add(LIGHT_NAMES[i], n);
                }
            }
        })
    }
    pub fn count(&self, i: usize) {
        self.counts[i].set(self.counts[i].get() + 1);
    }
    pub fn note(&self, k: u64, s: impl FnOnce() -> String) {
        self.steps.set(self.steps.get() + 1);
        self.hash.set((self.hash.get().rotate_left(7) ^ k).wrapping_mul(0x100000001b3));
        if !self.fast.get() {
            with(|w| {
                if let Some(l) = &mut w.log {
                    l.push(s())
                }
            })
        }
    }
    fn event(&self, k: u64, body: bool) {
        self.note(k, || if body { format!("destructor body {k:x}") } else { "drop".to_string() });
        self.count(7 + body as usize);
        let f = self.fuse.get();
        self.fuse.set(f.saturating_sub(1));
        if self.nest.get() > 0 && self.steps.get() & 3 == 0 && choose(6) == 5 {
            self.nest.set(self.nest.get() - 1);
            self.count(9);
            crate::ops::lite_nested();
        }
        if f == 1 && !std::thread::panicking() {
            self.count(10 + body as usize);
            self.note(0xFA, || "PANIC injected".to_string());
            std::panic::resume_unwind(Box::new(SimPanic(0)))
        }
    }
}

thread_local! { static ACTOR: Cell<usize> = const { Cell::new(0) }; }
pub fn actor() -> usize {
    ACTOR.with(|a| a.get())
}
pub fn set_actor(a: usize) {
    ACTOR.with(|c| c.set(a))
}

/// The one source of decisions. 0 is always the simplest outcome.
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    if LIGHT.fast.get() {
        let mut r = Rng(LIGHT.rng.get());
        let v = (r.next() % n as u64) as u32;
        LIGHT.rng.set(r.0);
        return v;
    }
    with(|w| {
        let v = if w.trace.len() >= w.max_choices {
            0
        } else {
            match &mut w.src {
                Src::Seed(r) => (r.next() % n as u64) as u32,
                Src::Script(v, p) => {
                    let x = v.get(*p).copied().unwrap_or(0);
                    *p += 1;
                    x % n
                }
            }
        };
        w.trace.push(v);
        if let Some(f) = &mut w.trace_file {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v
    })
}
/// True with probability p/256; decided `false` by the zero decision.
pub fn chance(p: u32) -> bool {
    if p == 0 {
        return false;
    }
    choose(256) >= 256 - p.min(255)
}

pub struct SimPanic(pub u64);

/// Raises a simulated panic out of the current frame (quietly: no hook).
pub fn sim_panic(kind: &'static str) -> ! {
    let id = with(|w| {
        w.bump(kind);
        let id = w.steps;
        let f = w.frame();
        f.panicked = true;
        f.panic_id = id;
        w.note(0xFA, || format!("PANIC injected: {kind} (#{id})"));
        id
    });
    std::panic::resume_unwind(Box::new(SimPanic(id)))
}

pub fn violation(props: &[&'static str], class: &str, msg: String) {
    with(|w| {
        let mut p: Vec<&'static str> = props.to_vec();
        if w.multi && !p.contains(&"C08") {
            p.push("C08");
        }
        let cur = w.cur.clone();
        if w.violations.len() < 40 {
            eprintln!("violation-note: {:?} {} [{}] {}", p, class, cur, msg);
            w.note(0xE0, || format!("VIOLATION {class}: {msg}"));
            w.violations.push(Violation { props: p, class: class.to_string(), msg: format!("{cur}: {msg}") });
        }
    });
}

pub fn violated() -> bool {
    with(|w| !w.violations.is_empty())
}

pub fn push_frame(kind: FrameKind, faults_ok: bool) {
    with(|w| {
        w.frame();
        let a = actor();
        w.actors[a].frames.push(Frame { kind, evs: Vec::new(), panicked: false, panic_id: 0, faults_ok });
    })
}
pub fn pop_frame() -> Frame {
    with(|w| {
        let a = actor();
        w.actors[a].frames.pop().expect("frame")
    })
}
pub fn depth() -> usize {
    with(|w| {
        w.frame();
        w.actors[actor()].frames.len()
    })
}

pub fn new_tok(immovable: bool) -> u32 {
    if lite() {
        LIGHT.toks.set(LIGHT.toks.get() + 1);
        return LIGHT.toks.get();
    }
    with(|w| {
        w.ledger.push(TokInfo { dropped: false, pinned: None, immovable });
        w.ledger.len() as u32 // tokens start at 1
    })
}

fn drop_props(k: FrameKind) -> &'static [&'static str] {
    match k {
        FrameKind::Replace => &["C01", "C05"],
        FrameKind::OwnedDrop => &["C01"],
        FrameKind::DestroyPd => &["C04", "C05"],
        FrameKind::Destroy => &["C05"],
        FrameKind::Flow => &["C07"],
        FrameKind::Move => &["C06"],
        _ => &["C03"],
    }
}

/// Every tracked destructor ends up here.
pub fn on_drop(leaf: Leaf, addr: usize, intact: bool) {
    if lite() {
        return LIGHT.event(0x100, false);
    }
    let (bad, moved, held) = with(|w| {
        let kind = w.frame().kind;
        let mut bad: Option<&'static str> = None;
        // does this concern a leaf that was pinned and must not move?
        let mut held = false;
        let mut moved = None;
        match leaf {
            Leaf::T(t) => match w.ledger.get_mut((t as usize).wrapping_sub(1)) {
                None => {
                    bad = Some("destructor-on-garbage");
                    held = w.ledger.iter().any(|i| i.pinned == Some(addr) && !i.dropped);
                }
                Some(i) => {
                    if !intact {
                        bad = Some("destructor-on-corrupted");
                        held = i.pinned.is_some() && !i.dropped;
                    } else if i.dropped {
                        bad = Some("destroyed-twice");
                    }
                    i.dropped = true;
                    if let Some(p) = i.pinned {
                        if p != addr {
                            moved = Some(p);
                        }
                    }
                }
            },
            Leaf::Z(k) => {
                let c = w.zlive.entry(k).or_insert(0);
                *c -= 1;
                if *c < 0 {
                    bad = Some("destroyed-twice");
                }
            }
            Leaf::V(_) => {}
        }
        let n = match leaf {
            Leaf::T(t) => t as u64,
            Leaf::Z(k) => 1 << 32 | k as u64,
            Leaf::V(_) => 0,
        };
        w.note(0x100 + n, || format!("drop {leaf:?}"));
        w.bump("destructors");
        w.frame().evs.push(Ev::Drop { leaf, addr });
        (bad.map(|b| (b, kind)), moved.map(|p| (p, kind)), held)
    });
    if let Some((b, kind)) = bad {
        let mut props = drop_props(kind).to_vec();
        if held {
            props.push("C02");
        }
        violation(&props, b, format!("{leaf:?} in {kind:?}"));
    }
    if let Some((p, kind)) = moved {
        let props: &[&'static str] = if kind == FrameKind::Replace { &["C02", "C01"] } else { &["C02"] };
        violation(props, "destroyed-away-from-pin", format!("{leaf:?} pinned {}, in {kind:?}", away(addr, p)));
    }
    leave_generated_code("panic-in-field-destructor", |f| f.panic);
}

/// Called at each point where control leaves generated code through a destructor:
/// a schedule point, a nesting point and a fault point.
pub fn leave_generated_code(kind: &'static str, rate: impl Fn(&Faults) -> u32) {
    sched::yield_point();
    let (nest, faults_ok, prate, unw, fk) = with(|w| {
        let nest = if w.nest_budget > 0 { w.faults.nest } else { 0 };
        let r = rate(&w.faults);
        let d = w.actors[actor()].frames.len();
        let f = w.frame();
        (if d > 5 { 0 } else { nest }, f.faults_ok && !f.panicked, r, f.panicked, f.kind)
    });
    if chance(nest) {
        with(|w| {
            w.nest_budget -= 1;
            w.bump("nested-op-in-destructor");
            if unw {
                w.bump("nested-op-during-unwinding");
            }
            if fk == FrameKind::Replace {
                w.bump("nested-op-inside-replace");
            }
        });
        crate::ops::nested_op();
    }
    if faults_ok && chance(prate) {
        let k: &'static str = match (kind, fk) {
            ("panic-in-field-destructor", FrameKind::Replace) => "panic-in-field-destructor-inside-replace",
            ("panic-in-field-destructor", FrameKind::DestroyPd) => "panic-in-field-destructor-after-body",
            _ => kind,
        };
        sim_panic(k);
    }
}

/// Called at the start of every custom destructor body.
pub fn body_enter(ty: u32, addr: usize) {
    if lite() {
        return LIGHT.event(0x200 + ty as u64, true);
    }
    with(|w| {
        w.note(0x200 + ty as u64, || format!("destructor body of type {ty}"));
        w.bump("destructor-bodies");
        w.frame().evs.push(Ev::Body { ty, addr });
    });
    sched::yield_point();
}
/// Called near the end of a custom destructor body.
pub fn body_fault() {
    if lite() {
        return LIGHT.event(0x201, true);
    }
    leave_generated_code("panic-in-destructor-body", |f| f.body_panic);
}
pub fn mark(m: u32) {
    if lite() {
        return;
    }
    with(|w| {
        w.note(0x300 + m as u64, || format!("mark {m}"));
        w.frame().evs.push(Ev::Mark(m));
    })
}

/// Records that `items` were seen through a pinned reference.
pub fn saw_pinned(items: &[Item]) {
    if lite() {
        return;
    }
    let mut bad = Vec::new();
    with(|w| {
        w.stats.add("pinned-leaf-sightings", items.len() as u64);
        for it in items {
            if let Item::Leaf { leaf: Leaf::T(t), addr, .. } = *it {
                if let Some(i) = w.ledger.get_mut((t as usize).wrapping_sub(1)) {
                    match i.pinned {
                        None => i.pinned = Some(addr),
                        Some(p) if p != addr => bad.push((t, p, addr)),
                        _ => {}
                    }
                }
            }
        }
    });
    for (t, p, a) in bad {
        violation(&["C02"], "pinned-field-moved", format!("T({t}) moved by {:+} bytes since it was pinned", a as i64 - p as i64));
    }
}
/// A legitimate move of a whole value: its leaves may be elsewhere from now on.
pub fn forget_pins(items: &[Item]) {
    if lite() {
        return;
    }
    with(|w| {
        for it in items {
            if let Item::Leaf { leaf: Leaf::T(t), .. } = *it {
                if let Some(i) = w.ledger.get_mut((t as usize).wrapping_sub(1)) {
                    i.pinned = None;
                }
            }
        }
    });
}

/// How far two addresses are apart, in a form that does not depend on where the process was loaded.
pub fn away(from: usize, to: usize) -> String {
    let d = to as i64 - from as i64;
    if d.abs() <= 4096 { format!("{d:+} bytes away") } else { "in other storage".to_string() }
}
