//! Free-running threads over pin-projected values, meant to be executed by Miri's interpreter: its seeded scheduler
//! may preempt a thread at any basic block, also in the middle of generated code and of the `__private` helpers, and
//! its memory model sees every unsynchronised access. The threads share nothing except what a scenario asks for, so
//! the harness itself adds no ordering between them.
#![allow(dead_code)]

use std::cell::{Cell, RefCell};
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

use pin_project::{pin_project, pinned_drop, UnsafeUnpin};

fn fail(class: &str, msg: String) -> ! {
    eprintln!("RACE-VIOLATION {class}: {msg}");
    std::process::abort()
}

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u32) -> u32 {
        (self.next() % n as u64) as u32
    }
    fn pct(&mut self, p: u32) -> bool {
        self.below(100) < p
    }
}

// ------------------------------------------------------------------------------------------ tracked leaves

struct Rec {
    drops: AtomicU32,
}

thread_local! {
    static LOG: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static RNG: RefCell<Rng> = const { RefCell::new(Rng(1)) };
    static RECS: RefCell<Vec<(u32, Arc<Rec>)>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static CFG: Cell<Cfg> = const { Cell::new(Cfg { panics: 0, yields: 0, nested: 0 }) };
    static EXTRA: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy)]
struct Cfg {
    panics: u32,
    yields: u32,
    nested: u32,
}

fn below(n: u32) -> u32 {
    RNG.with(|r| r.borrow_mut().below(n))
}
fn pct(p: u32) -> bool {
    p > 0 && RNG.with(|r| r.borrow_mut().pct(p))
}

struct Bomb;

/// A leaf that knows how often and where it was destroyed.
struct Trk {
    id: u32,
    chk: u32,
    val: u32,
    bomb: bool,
    nest: Option<Pin<Box<S1>>>,
    rec: Arc<Rec>,
    at: Cell<usize>,
}
impl Trk {
    fn new() -> Trk {
        let id = NEXT.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        let rec = Arc::new(Rec { drops: AtomicU32::new(0) });
        RECS.with(|r| r.borrow_mut().push((id, rec.clone())));
        Trk { id, chk: !id, val: id, bomb: false, nest: None, rec, at: Cell::new(0) }
    }
    fn armed(mut self, bomb: bool) -> Trk {
        self.bomb = bomb;
        self
    }
    fn here(&self) -> u32 {
        if self.chk != !self.id {
            fail("corrupted", format!("leaf {}", self.id));
        }
        self.id
    }
    /// Seen through a pin: from now on it may not move.
    fn pinned(&self) -> u32 {
        let a = self as *const Trk as usize;
        if self.at.get() == 0 {
            self.at.set(a);
        } else if self.at.get() != a {
            fail("pinned-field-moved", format!("leaf {}", self.id));
        }
        self.here()
    }
}
// SAFETY: the cell is only used by whoever owns the value or by the owning thread; leaves of values that are shared
// between threads are never pinned through `pinned` concurrently (see `Shared`).
unsafe impl Sync for Trk {}

impl Drop for Trk {
    fn drop(&mut self) {
        if self.chk != !self.id {
            fail("destroyed-corrupted", format!("leaf {}", self.id));
        }
        if self.rec.drops.fetch_add(1, Relaxed) != 0 {
            fail("destroyed-twice", format!("leaf {}", self.id));
        }
        if self.at.get() != 0 && self.at.get() != self as *const Trk as usize {
            fail("destroyed-elsewhere", format!("leaf {}", self.id));
        }
        self.val = 0;
        let _ = LOG.try_with(|l| l.borrow_mut().push(self.id));
        if CFG.try_with(|c| pct(c.get().yields)).unwrap_or(false) {
            std::thread::yield_now();
        }
        if let Some(mut n) = self.nest.take() {
            // a whole operation inside a destructor
            DEPTH.with(|d| d.set(d.get() + 1));
            let before = n.as_ref().get_ref().truth();
            let fresh = S1::make();
            let want = fresh.truth();
            let mark = LOG.with(|l| l.borrow().len());
            let own = n.as_mut().repl(fresh);
            let got: Vec<u32> = LOG.with(|l| l.borrow()[mark..].to_vec());
            check_replace("nested replace", &before, &want, &n.as_ref().get_ref().truth(), own, got);
            LOG.with(|l| l.borrow_mut().truncate(mark));
            drop(n);
            LOG.with(|l| l.borrow_mut().truncate(mark));
            DEPTH.with(|d| d.set(d.get() - 1));
        }
        if self.bomb {
            std::panic::resume_unwind(Box::new(Bomb));
        }
    }
}

/// (pinned, id, address) of every field, in declaration order.
type Obs = Vec<(bool, u32, usize)>;
fn ob(pinned: bool, t: &Trk) -> (bool, u32, usize) {
    (pinned, t.here(), t as *const Trk as usize)
}

fn ids(o: &Obs, pinned: bool) -> Vec<u32> {
    o.iter().filter(|x| x.0 == pinned).map(|x| x.1).collect()
}

fn check_replace(what: &str, old: &Obs, new: &Obs, now: &Obs, own: Option<Vec<u32>>, dropped: Vec<u32>) {
    let want: Vec<u32> = ids(old, true);
    let mut extra = Vec::new();
    if own.is_none() {
        extra = ids(old, false);
    }
    let all: Vec<u32> = want.iter().copied().chain(extra).collect();
    if dropped != all {
        fail("replace-destroys", format!("{what}: expected {all:?}, got {dropped:?}"));
    }
    if let Some(own) = own {
        if own != ids(old, false) {
            fail("replace-returns", format!("{what}: expected {:?}, got {own:?}", ids(old, false)));
        }
    }
    let a: Vec<_> = new.iter().map(|x| (x.0, x.1)).collect();
    let b: Vec<_> = now.iter().map(|x| (x.0, x.1)).collect();
    if a != b {
        fail("slot-not-the-replacement", format!("{what}: expected {a:?}, got {b:?}"));
    }
}

// ------------------------------------------------------------------------------------------ types

trait Val: Send + 'static {
    const MOVES: bool = false;
    const BODY: bool = false;
    fn make() -> Self
    where
        Self: Sized;
    fn truth(&self) -> Obs;
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs;
    fn pref(self: Pin<&Self>) -> Obs;
    /// Ids of the returned unpinned fields; they are dropped by the callee afterwards without being logged.
    fn repl(self: Pin<&mut Self>, _new: Self) -> Option<Vec<u32>>
    where
        Self: Sized,
    {
        unreachable!()
    }
    const REPL: bool = false;
    fn arm(&mut self, _k: u32) {}
}

fn quiet_drop<T>(t: T) {
    let n = LOG.with(|l| l.borrow().len());
    drop(t);
    LOG.with(|l| l.borrow_mut().truncate(n));
}

fn leaf() -> Trk {
    let mut t = Trk::new();
    let (nested, deep) = (CFG.with(|c| c.get().nested), DEPTH.with(|d| d.get()));
    if deep < 2 && pct(nested) {
        DEPTH.with(|d| d.set(deep + 1));
        let s = Box::pin(S1::make());
        DEPTH.with(|d| d.set(deep));
        t.nest = Some(s);
    }
    t
}

#[pin_project(project_replace)]
struct S1 {
    #[pin]
    a: Trk,
    b: Trk,
    #[pin]
    c: Trk,
    d: Trk,
}
impl Val for S1 {
    const REPL: bool = true;
    fn make() -> Self {
        S1 { a: leaf(), b: Trk::new(), c: leaf(), d: Trk::new() }
    }
    fn truth(&self) -> Obs {
        vec![ob(true, &self.a), ob(false, &self.b), ob(true, &self.c), ob(false, &self.d)]
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        let mut p = self.project();
        p.b.val += poke;
        p.d.val += poke;
        // SAFETY: moves nothing
        unsafe { p.a.as_mut().get_unchecked_mut() }.val += poke;
        unsafe { p.c.as_mut().get_unchecked_mut() }.val += poke;
        p.a.pinned();
        p.c.pinned();
        vec![ob(true, &p.a), ob(false, p.b), ob(true, &p.c), ob(false, p.d)]
    }
    fn pref(self: Pin<&Self>) -> Obs {
        let p = self.project_ref();
        let q = self.project_ref();
        vec![ob(true, p.a.get_ref()), ob(false, q.b), ob(true, q.c.get_ref()), ob(false, p.d)]
    }
    fn repl(self: Pin<&mut Self>, new: Self) -> Option<Vec<u32>> {
        let o = self.project_replace(new);
        let r = vec![o.b.here(), o.d.here()];
        quiet_drop(o);
        Some(r)
    }
    fn arm(&mut self, k: u32) {
        [&mut self.a, &mut self.b, &mut self.c, &mut self.d][k as usize % 4].bomb = true;
    }
}

#[pin_project(project_replace = T1Own, project = T1Proj, project_ref = T1Ref)]
struct T1(Trk, #[pin] Trk, #[pin] Trk, #[pin] Trk);
impl Val for T1 {
    const REPL: bool = true;
    fn make() -> Self {
        T1(Trk::new(), leaf(), leaf(), leaf())
    }
    fn truth(&self) -> Obs {
        vec![ob(false, &self.0), ob(true, &self.1), ob(true, &self.2), ob(true, &self.3)]
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        let T1Proj(a, b, c, d) = self.project();
        a.val += poke;
        b.pinned();
        c.pinned();
        d.pinned();
        vec![ob(false, a), ob(true, &b), ob(true, &c), ob(true, &d)]
    }
    fn pref(self: Pin<&Self>) -> Obs {
        let T1Ref(a, b, c, d) = self.project_ref();
        vec![ob(false, a), ob(true, b.get_ref()), ob(true, c.get_ref()), ob(true, d.get_ref())]
    }
    fn repl(self: Pin<&mut Self>, new: Self) -> Option<Vec<u32>> {
        let T1Own(a, ..) = self.project_replace(new);
        let r = vec![a.here()];
        quiet_drop(a);
        Some(r)
    }
    fn arm(&mut self, k: u32) {
        [&mut self.0, &mut self.1, &mut self.2, &mut self.3][k as usize % 4].bomb = true;
    }
}

#[pin_project(project = E1Proj, project_ref = E1Ref, project_replace = E1Own)]
enum E1 {
    One {
        #[pin]
        x: Trk,
        y: Trk,
    },
    Two(#[pin] Trk, Trk, #[pin] Trk),
    Zero,
    Three {
        u: Trk,
        v: Trk,
    },
}
impl Val for E1 {
    const REPL: bool = true;
    fn make() -> Self {
        match below(4) {
            0 => E1::One { x: leaf(), y: Trk::new() },
            1 => E1::Two(leaf(), Trk::new(), leaf()),
            2 => E1::Zero,
            _ => E1::Three { u: Trk::new(), v: Trk::new() },
        }
    }
    fn truth(&self) -> Obs {
        match self {
            E1::One { x, y } => vec![ob(true, x), ob(false, y)],
            E1::Two(a, b, c) => vec![ob(true, a), ob(false, b), ob(true, c)],
            E1::Zero => vec![],
            E1::Three { u, v } => vec![ob(false, u), ob(false, v)],
        }
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        match self.project() {
            E1Proj::One { x, y } => {
                y.val += poke;
                x.pinned();
                vec![ob(true, &x), ob(false, y)]
            }
            E1Proj::Two(a, b, c) => {
                b.val += poke;
                a.pinned();
                c.pinned();
                vec![ob(true, &a), ob(false, b), ob(true, &c)]
            }
            E1Proj::Zero => vec![],
            E1Proj::Three { u, v } => {
                std::mem::swap(&mut u.val, &mut v.val);
                vec![ob(false, u), ob(false, v)]
            }
        }
    }
    fn pref(self: Pin<&Self>) -> Obs {
        let q = self.project_ref();
        match (self.project_ref(), q) {
            (E1Ref::One { x, .. }, E1Ref::One { y, .. }) => vec![ob(true, x.get_ref()), ob(false, y)],
            (E1Ref::Two(a, _, c), E1Ref::Two(_, b, _)) => vec![ob(true, a.get_ref()), ob(false, b), ob(true, c.get_ref())],
            (E1Ref::Zero, E1Ref::Zero) => vec![],
            (E1Ref::Three { u, .. }, E1Ref::Three { v, .. }) => vec![ob(false, u), ob(false, v)],
            _ => fail("projection-mismatch", "two shared projections name different variants".into()),
        }
    }
    fn repl(self: Pin<&mut Self>, new: Self) -> Option<Vec<u32>> {
        let o = self.project_replace(new);
        let r = match &o {
            E1Own::One { y, .. } => vec![y.here()],
            E1Own::Two(_, b, _) => vec![b.here()],
            E1Own::Zero => vec![],
            E1Own::Three { u, v } => vec![u.here(), v.here()],
        };
        quiet_drop(o);
        Some(r)
    }
    fn arm(&mut self, k: u32) {
        match self {
            E1::One { x, y } => [x, y][k as usize % 2].bomb = true,
            E1::Two(a, b, c) => [a, b, c][k as usize % 3].bomb = true,
            E1::Zero => {}
            E1::Three { u, v } => [u, v][k as usize % 2].bomb = true,
        }
    }
}

const BODY: u32 = 1 << 30;

#[pin_project(PinnedDrop)]
struct D1 {
    #[pin]
    a: Trk,
    b: Trk,
    home: Cell<usize>,
}
#[pinned_drop]
impl PinnedDrop for D1 {
    fn drop(self: Pin<&mut Self>) {
        let at = &*self as *const Self as usize;
        let this = self.project();
        if this.home.get() != 0 && this.home.get() != at {
            fail("body-elsewhere", "D1".into());
        }
        this.b.val = 7;
        this.a.here();
        LOG.with(|l| l.borrow_mut().push(BODY));
    }
}
impl Val for D1 {
    const BODY: bool = true;
    fn make() -> Self {
        D1 { a: leaf(), b: Trk::new(), home: Cell::new(0) }
    }
    fn truth(&self) -> Obs {
        vec![ob(true, &self.a), ob(false, &self.b)]
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        let at = &*self as *const Self as usize;
        let p = self.project();
        p.home.set(at);
        p.b.val += poke;
        p.a.pinned();
        vec![ob(true, &p.a), ob(false, p.b)]
    }
    fn pref(self: Pin<&Self>) -> Obs {
        let p = self.project_ref();
        vec![ob(true, p.a.get_ref()), ob(false, p.b)]
    }
    fn arm(&mut self, k: u32) {
        [&mut self.a, &mut self.b][k as usize % 2].bomb = true;
    }
}

#[pin_project(PinnedDrop, project = D2Proj, project_ref = D2Ref)]
enum D2 {
    A(#[pin] Trk),
    B { m: Trk, n: Trk },
}
#[pinned_drop]
impl PinnedDrop for D2 {
    fn drop(mut self: Pin<&mut Self>) {
        match self.as_mut().project() {
            D2Proj::A(t) => drop(t.here()),
            D2Proj::B { m, n } => std::mem::swap(&mut m.val, &mut n.val),
        }
        LOG.with(|l| l.borrow_mut().push(BODY));
        if matches!(*self, D2::A(..)) {
            return;
        }
        let _ = self;
    }
}
impl Val for D2 {
    const BODY: bool = true;
    fn make() -> Self {
        match below(2) {
            0 => D2::A(leaf()),
            _ => D2::B { m: Trk::new(), n: Trk::new() },
        }
    }
    fn truth(&self) -> Obs {
        match self {
            D2::A(t) => vec![ob(true, t)],
            D2::B { m, n } => vec![ob(false, m), ob(false, n)],
        }
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        match self.project() {
            D2Proj::A(t) => {
                t.pinned();
                vec![ob(true, &t)]
            }
            D2Proj::B { m, n } => {
                m.val += poke;
                vec![ob(false, m), ob(false, n)]
            }
        }
    }
    fn pref(self: Pin<&Self>) -> Obs {
        match self.project_ref() {
            D2Ref::A(t) => vec![ob(true, t.get_ref())],
            D2Ref::B { m, n } => vec![ob(false, m), ob(false, n)],
        }
    }
}

#[pin_project(project_replace)]
struct G<T, U: ?Sized>
where
    T: Send,
    U: Sized,
{
    #[pin]
    t: T,
    u: U,
}
impl Val for G<Trk, Trk> {
    const REPL: bool = true;
    const MOVES: bool = false;
    fn make() -> Self {
        G { t: leaf(), u: Trk::new() }
    }
    fn truth(&self) -> Obs {
        vec![ob(true, &self.t), ob(false, &self.u)]
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        let p = self.project();
        p.u.val += poke;
        p.t.pinned();
        vec![ob(true, &p.t), ob(false, p.u)]
    }
    fn pref(self: Pin<&Self>) -> Obs {
        let p = self.project_ref();
        vec![ob(true, p.t.get_ref()), ob(false, p.u)]
    }
    fn repl(self: Pin<&mut Self>, new: Self) -> Option<Vec<u32>> {
        let o = self.project_replace(new);
        let r = vec![o.u.here()];
        quiet_drop(o);
        Some(r)
    }
    fn arm(&mut self, k: u32) {
        [&mut self.t, &mut self.u][k as usize % 2].bomb = true;
    }
}

#[pin_project(UnsafeUnpin)]
struct Um<T> {
    #[pin]
    t: Option<Box<T>>,
    u: Trk,
}
unsafe impl<T> UnsafeUnpin for Um<T> {}
impl Val for Um<Trk> {
    const MOVES: bool = true;
    fn make() -> Self {
        Um { t: Some(Box::new(leaf())), u: Trk::new() }
    }
    fn truth(&self) -> Obs {
        vec![ob(true, self.t.as_ref().unwrap()), ob(false, &self.u)]
    }
    fn proj(self: Pin<&mut Self>, poke: u32) -> Obs {
        let mut p = self.project();
        p.u.val += poke;
        p.t.as_mut().get_mut().as_mut().unwrap().val += poke;
        vec![ob(true, p.t.as_ref().get_ref().as_ref().unwrap()), ob(false, p.u)]
    }
    fn pref(self: Pin<&Self>) -> Obs {
        let p = self.project_ref();
        vec![ob(true, p.t.get_ref().as_ref().unwrap()), ob(false, p.u)]
    }
}

/// Shared by reference between threads.
#[pin_project(project = ShProj, project_ref = ShRef)]
enum Shared {
    Idle,
    Live {
        #[pin]
        n: AtomicU32,
        m: AtomicU32,
        #[pin]
        k: Mutex<u32>,
        t: Trk,
    },
}
#[pin_project(PinnedDrop)]
struct SharedS<T: ?Sized> {
    gone: Arc<AtomicU32>,
    n: AtomicU32,
    #[pin]
    t: T,
}
#[pinned_drop]
impl<T: ?Sized> PinnedDrop for SharedS<T> {
    fn drop(self: Pin<&mut Self>) {
        self.project().gone.fetch_add(1, Relaxed);
    }
}
trait Bump: Send + Sync {
    fn bump(self: Pin<&Self>);
    fn total(&self) -> u32;
}
impl Bump for AtomicU32 {
    fn bump(self: Pin<&Self>) {
        self.get_ref().fetch_add(1, Relaxed);
    }
    fn total(&self) -> u32 {
        self.load(Relaxed)
    }
}

// ------------------------------------------------------------------------------------------ operations

fn obs_eq(what: &str, a: &Obs, b: &Obs) {
    if a != b {
        fail("projection-mismatch", format!("{what}: {a:?} / {b:?}"));
    }
}

fn logged<R>(f: impl FnOnce() -> R) -> (R, Vec<u32>) {
    let n = LOG.with(|l| l.borrow().len());
    let r = f();
    let v = LOG.with(|l| l.borrow_mut().split_off(n));
    (r, v)
}

fn expect_destroyed(what: &str, body: bool, o: &Obs, got: &[u32]) {
    let mut want: Vec<u32> = o.iter().map(|x| x.1).collect();
    if body {
        want.insert(0, BODY);
    }
    if got != want {
        fail("destruction-order", format!("{what}: expected {want:?}, got {got:?}"));
    }
}

fn swallow<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if p.is::<Bomb>() => None,
        Err(_) => fail("unexpected-panic", String::new()),
    }
}

fn one_type<V: Val>(ops: u32, panics: u32) {
    let mut v: Pin<Box<V>> = Box::pin(V::make());
    for _ in 0..ops {
        match below(if V::REPL { 9 } else { 6 }) {
            0 => {
                let t = v.as_ref().get_ref().truth();
                let p = v.as_mut().proj(below(5));
                obs_eq("project", &t, &p);
            }
            1 => {
                let t = v.as_ref().get_ref().truth();
                obs_eq("project_ref", &t, &v.as_ref().pref());
            }
            2 => {
                let t = v.as_ref().get_ref().truth();
                let n = V::make();
                let w = n.truth();
                let ((), d) = logged(|| v.as_mut().set(n));
                expect_destroyed("assignment", V::BODY, &t, &d);
                let now = v.as_ref().get_ref().truth();
                if now.iter().map(|x| x.1).ne(w.iter().map(|x| x.1)) {
                    fail("slot-not-the-replacement", "assignment".into());
                }
            }
            3 => {
                let t = v.as_ref().get_ref().truth();
                let n = Box::pin(V::make());
                let old = std::mem::replace(&mut v, n);
                let ((), d) = logged(|| drop(old));
                expect_destroyed("destruction", V::BODY, &t, &d);
            }
            4 if panics > 0 && pct(panics) => {
                let mut n = V::make();
                n.arm(below(4));
                let old = std::mem::replace(&mut v, Box::pin(n));
                let _ = old.as_ref().get_ref().truth();
                drop(old);
                let t = v.as_ref().get_ref().truth();
                let n = Box::pin(V::make());
                let old = std::mem::replace(&mut v, n);
                let (_, d) = logged(|| swallow(|| drop(old)));
                expect_destroyed("panicking destruction", V::BODY, &t, &d);
            }
            4 | 5 => std::thread::yield_now(),
            _ => {
                let armed = panics > 0 && pct(panics);
                if armed {
                    let mut n = V::make();
                    n.arm(below(4));
                    v = Box::pin(n);
                }
                let t = v.as_ref().get_ref().truth();
                let n = V::make();
                let w = n.truth();
                let (own, d) = logged(|| if armed { swallow(|| v.as_mut().repl(n)).flatten() } else { v.as_mut().repl(n) });
                let now = v.as_ref().get_ref().truth();
                if own.is_none() && !armed {
                    fail("unexpected-panic", "replace".into());
                }
                if own.is_none() && d == ids(&t, true) {
                    // the armed leaf was an unpinned one, dropped quietly with the rest
                    continue;
                }
                check_replace("replace", &t, &w, &now, own, d);
            }
        }
    }
    let t = v.as_ref().get_ref().truth();
    let (_, d) = logged(|| swallow(|| drop(v)));
    expect_destroyed("final destruction", V::BODY, &t, &d);
}

fn moves(ops: u32) {
    let mut v = Box::pin(Um::<Trk>::make());
    for _ in 0..ops {
        let t: Vec<u32> = v.as_ref().get_ref().truth().iter().map(|x| x.1).collect();
        let _ = v.as_mut().proj(1);
        let inner = *Pin::into_inner(v);
        v = Box::pin(inner);
        let u: Vec<u32> = v.as_ref().get_ref().truth().iter().map(|x| x.1).collect();
        if t != u {
            fail("move-changed-contents", String::new());
        }
    }
}

struct Plan {
    threads: u32,
    ops: u32,
    shared: bool,
    handover: bool,
    cfg: Cfg,
}

type Slot = Arc<Mutex<Vec<Pin<Box<S1>>>>>;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).and_then(|s| s.parse::<u64>().ok());
    // Under Miri this is a function of its seed, so that one number fixes scenario and schedule.
    let seed = num("--scenario").unwrap_or_else(|| std::collections::hash_map::RandomState::new().build_hasher().finish());
    let mut r = Rng(seed);
    for _ in 0..num("--rounds").unwrap_or(1) {
        let plan = Plan {
            threads: (2 + r.below(2)).min(num("--threads").unwrap_or(9) as u32),
            ops: (2 + r.below(4)).min(num("--ops").unwrap_or(99) as u32),
            shared: r.pct(50),
            handover: r.pct(25),
            cfg: Cfg { panics: if r.pct(30) { 40 } else { 0 }, yields: [0, 0, 30, 80][r.below(4) as usize], nested: if r.pct(30) { 25 } else { 0 } },
        };
        let c = plan.cfg;
        let line = format!(
            "ok {seed:016x} threads={} shared={} handover={} panics={} yields={} nested={}\n",
            plan.threads, plan.shared as u32, plan.handover as u32, (c.panics > 0) as u32, (c.yields > 0) as u32, (c.nested > 0) as u32
        );
        scenario(plan, &mut r);
        use std::io::Write;
        let _ = std::io::stdout().write_all(line.as_bytes());
    }
}

fn scenario(plan: Plan, r: &mut Rng) {
    let Plan { threads, ops, shared, handover, cfg } = plan;
    let sh: Pin<Arc<Shared>> = Arc::pin(if r.pct(80) {
        Shared::Live { n: AtomicU32::new(0), m: AtomicU32::new(0), k: Mutex::new(0), t: Trk::new() }
    } else {
        Shared::Idle
    });
    let gone = Arc::new(AtomicU32::new(0));
    let dy: Pin<Arc<SharedS<dyn Bump>>> = Arc::pin(SharedS { gone: gone.clone(), n: AtomicU32::new(0), t: AtomicU32::new(0) });
    let slot: Slot = Arc::default();
    let hs: Vec<_> = (0..threads)
        .map(|a| {
            let seed = r.next();
            let (sh, dy) = if shared { (Some(sh.clone()), Some(dy.clone())) } else { (None, None) };
            let slot = if handover { Some(slot.clone()) } else { None };
            std::thread::spawn(move || {
                RNG.with(|r| *r.borrow_mut() = Rng(seed));
                CFG.with(|c| c.set(cfg));
                NEXT.with(|n| n.set((a + 1) * 100_000));
                let mut bumps = 0;
                for _ in 0..1 + below(3) {
                    match below(10) {
                        0 | 1 => one_type::<S1>(ops, cfg.panics),
                        2 => one_type::<T1>(ops, cfg.panics),
                        3 | 4 => one_type::<E1>(ops, cfg.panics),
                        5 => one_type::<D1>(ops, cfg.panics),
                        6 => one_type::<D2>(ops, 0),
                        7 => one_type::<G<Trk, Trk>>(ops, cfg.panics),
                        8 => moves(ops),
                        _ => one_type::<Um<Trk>>(ops, 0),
                    }
                    if let (Some(sh), Some(dy)) = (&sh, &dy) {
                        for _ in 0..ops {
                            if let ShRef::Live { n, m, k, t } = sh.as_ref().project_ref() {
                                n.fetch_add(1, Relaxed);
                                let q = sh.as_ref().project_ref();
                                *k.lock().unwrap() += 1;
                                if let ShRef::Live { m: m2, .. } = q {
                                    m2.fetch_add(1, Relaxed);
                                }
                                if t.chk != !t.id || !std::ptr::eq(m, match &**sh {
                                    Shared::Live { m, .. } => m,
                                    Shared::Idle => unreachable!(),
                                }) {
                                    fail("projection-mismatch", "shared value".into());
                                }
                            }
                            let p = dy.as_ref().project_ref();
                            p.t.bump();
                            p.n.fetch_add(1, Relaxed);
                            bumps += 1;
                        }
                    }
                    if let Some(slot) = &slot {
                        let got = slot.lock().unwrap().pop();
                        if let Some(mut b) = got {
                            b.as_mut().proj(1);
                            let t = b.as_ref().get_ref().truth();
                            let (_, d) = logged(|| drop(b));
                            expect_destroyed("handed over", false, &t, &d);
                        }
                        let mut b = Box::pin(S1::make());
                        b.as_mut().proj(2);
                        slot.lock().unwrap().push(b);
                    }
                }
                drop(sh);
                drop(dy);
                (bumps, RECS.with(|r| std::mem::take(&mut *r.borrow_mut())))
            })
        })
        .collect();
    // The main thread lets go of its shares at once: whoever is last destroys the values.
    let keep = if r.pct(50) {
        Some((sh, dy))
    } else {
        drop((sh, dy));
        None
    };
    let mut bumps = 0;
    let mut recs = Vec::new();
    for h in hs {
        match h.join() {
            Ok((b, rs)) => {
                bumps += b;
                recs.extend(rs);
            }
            Err(_) => fail("unexpected-panic", "a thread died".into()),
        }
    }
    if let Some((sh, dy)) = keep {
        if shared {
            if let ShRef::Live { n, m, k, .. } = sh.as_ref().project_ref() {
                let k = *k.lock().unwrap();
                if n.load(Relaxed) != bumps || m.load(Relaxed) != bumps || k != bumps {
                    fail("lost-update", format!("{} {} {} of {bumps}", n.load(Relaxed), m.load(Relaxed), k));
                }
            }
            if dy.as_ref().project_ref().t.total() != bumps {
                fail("lost-update", "unsized".into());
            }
        }
        if gone.load(Relaxed) != 0 {
            fail("destroyed-early", "shared value".into());
        }
        drop((sh, dy));
    }
    if gone.load(Relaxed) != 1 {
        fail("shared-destroyed", format!("{} times", gone.load(Relaxed)));
    }
    slot.lock().unwrap().clear();
    recs.extend(RECS.with(|r| std::mem::take(&mut *r.borrow_mut())));
    for (id, rec) in recs {
        let n = rec.drops.load(Relaxed);
        if n != 1 {
            fail("not-destroyed-once", format!("leaf {id}: {n} times"));
        }
    }
}
