//! A deterministic executor with a virtual clock, and the leaf futures and streams it drives.
//! Task trees come in two flavours, built from the same leaves: adapters made by pin-project and
//! reference adapters whose pinned children are boxed. Both are run under the same decisions.
use core::marker::PhantomPinned;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::Wake;

use crate::fields::{Fld, Pu};
use crate::ops::{finish_panic, guarded, pick};
use crate::world::*;

/// What a task yields. Carries an identity and possibly a permit of the simulated semaphore.
pub struct Val {
    pub x: u32,
    pub bad: bool,
    permit: bool,
    pub leaf: Pu,
}
impl Val {
    pub fn new(x: u32) -> Val {
        Val { x, bad: false, permit: false, leaf: <Pu as Fld>::mk() }
    }
    /// A caller-visible transformation of a value.
    pub fn map(mut self, k: u32) -> Val {
        self.x = self.x.wrapping_mul(31).wrapping_add(k);
        self
    }
    pub fn merge(self, o: Val) -> Val {
        let mut s = self;
        s.x = s.x.wrapping_mul(131).wrapping_add(o.x);
        drop(o);
        s
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        if self.permit {
            release_permit();
        }
    }
}

pub trait Fx: Send {
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Val>;
    /// A read-only look at a pinned task.
    fn peek(self: Pin<&Self>) -> u32;
}
pub trait Sx: Send {
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Val>>;
    fn peek(self: Pin<&Self>) -> u32;
}
pub trait Mk: Send + Sized {
    fn mk() -> Self;
}

pub struct FlowEntry {
    pub name: &'static str,
    pub pp: fn() -> Pin<Box<dyn Fx>>,
    pub rf: fn() -> Pin<Box<dyn Fx>>,
}

// ----- simulated environment -----------------------------------------------------------------

#[derive(Default)]
struct Env {
    now: u64,
    timers: Vec<(u64, u32, Waker)>,
    events: Vec<(u32, Waker, bool)>,
    permits: u32,
    queue: Vec<(u32, Waker, bool)>,
    woken: Vec<bool>,
    leaves: u32,
    rate_poll_panic: u32,
}
static ENV: Mutex<Env> = Mutex::new(Env {
    now: 0,
    timers: Vec::new(),
    events: Vec::new(),
    permits: 0,
    queue: Vec::new(),
    woken: Vec::new(),
    leaves: 0,
    rate_poll_panic: 0,
});
fn env() -> MutexGuard<'static, Env> {
    ENV.lock().unwrap_or_else(|e| e.into_inner())
}
struct Tw(usize);
impl Wake for Tw {
    fn wake(self: Arc<Self>) {
        let mut e = env();
        if let Some(w) = e.woken.get_mut(self.0) {
            *w = true;
        }
    }
}
fn release_permit() {
    let w = {
        let mut e = env();
        match e.queue.iter().position(|q| !q.2) {
            Some(i) => {
                e.queue[i].2 = true;
                Some((e.queue[i].0, e.queue[i].1.clone()))
            }
            None => {
                e.permits += 1;
                None
            }
        }
    };
    with(|wd| wd.note(0x8100 + w.as_ref().map_or(0, |x| x.0 as u64), || "permit released".to_string()));
    if let Some((_, w)) = w {
        w.wake();
    }
}

// ----- leaves --------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ticks,
    Timer,
    Event,
    Sem,
}
struct LeafCore {
    tok: u32,
    kind: Kind,
    left: u32,
    deadline: u64,
    started: bool,
    done: bool,
    addr: usize,
    bad: bool,
}
impl LeafCore {
    fn new() -> Self {
        let tok = new_tok(true);
        let kind = [Kind::Ticks, Kind::Timer, Kind::Event, Kind::Sem][choose(4) as usize];
        let left = choose(4);
        let bad = choose(5) == 4;
        env().leaves += 1;
        LeafCore { tok, kind, left, deadline: 0, started: false, done: false, addr: 0, bad }
    }
    fn here(&mut self, addr: usize, what: &str) {
        if self.addr == 0 {
            self.addr = addr;
        } else if self.addr != addr {
            violation(&["C02", "C07"], "pinned-child-moved", format!("leaf T({}) moved by {:+} bytes at {what}", self.tok, addr as i64 - self.addr as i64));
        }
    }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Val> {
        let tok = self.tok;
        with(|w| {
            w.bump("flow-polls");
            w.note(0x8200 + tok as u64, || format!("poll leaf T({tok})"))
        });
        if self.done {
            violation(&["C07"], "polled-after-completion", format!("leaf T({tok})"));
        }
        let rate = env().rate_poll_panic;
        let ok = with(|w| {
            let f = w.frame();
            f.faults_ok && !f.panicked
        });
        if ok && chance(rate) {
            sim_panic("panic-in-poll");
        }
        let ready = match self.kind {
            Kind::Ticks => {
                if self.left == 0 {
                    true
                } else {
                    self.left -= 1;
                    cx.waker().wake_by_ref();
                    false
                }
            }
            Kind::Timer => {
                let mut e = env();
                if !self.started {
                    self.deadline = e.now + 1 + 10 * self.left as u64;
                }
                e.timers.retain(|t| t.1 != tok);
                if e.now >= self.deadline {
                    true
                } else {
                    e.timers.push((self.deadline, tok, cx.waker().clone()));
                    false
                }
            }
            Kind::Event => {
                let mut e = env();
                match e.events.iter_mut().find(|t| t.0 == tok) {
                    Some(t) if t.2 => true,
                    Some(t) => {
                        t.1 = cx.waker().clone();
                        false
                    }
                    None => {
                        e.events.push((tok, cx.waker().clone(), false));
                        false
                    }
                }
            }
            Kind::Sem => {
                let mut e = env();
                if let Some(i) = e.queue.iter().position(|q| q.0 == tok) {
                    if e.queue[i].2 {
                        e.queue.remove(i);
                        true
                    } else {
                        e.queue[i].1 = cx.waker().clone();
                        false
                    }
                } else if e.permits > 0 {
                    e.permits -= 1;
                    true
                } else {
                    e.queue.push((tok, cx.waker().clone(), false));
                    false
                }
            }
        };
        self.started = true;
        if !ready {
            return Poll::Pending;
        }
        self.done = true;
        env().events.retain(|t| t.0 != tok);
        let mut v = Val::new(tok);
        v.permit = self.kind == Kind::Sem;
        v.bad = self.bad;
        with(|w| w.note(0x8300 + tok as u64, || format!("leaf T({tok}) ready")));
        Poll::Ready(v)
    }
    fn gone(&mut self) {
        let tok = self.tok;
        let granted = {
            let mut e = env();
            e.timers.retain(|t| t.1 != tok);
            e.events.retain(|t| t.0 != tok);
            match e.queue.iter().position(|q| q.0 == tok) {
                Some(i) => e.queue.remove(i).2,
                None => false,
            }
        };
        if granted {
            release_permit();
        }
    }
}

/// An address-sensitive leaf future of some size.
pub struct Lf<const SZ: usize> {
    pad: [u8; SZ],
    core: LeafCore,
    _p: PhantomPinned,
}
impl<const SZ: usize> Mk for Lf<SZ> {
    fn mk() -> Self {
        let core = LeafCore::new();
        Lf { pad: [core.tok as u8; SZ], core, _p: PhantomPinned }
    }
}
impl<const SZ: usize> Lf<SZ> {
    fn sane(&self, what: &str) {
        if self.pad.iter().any(|b| *b != self.core.tok as u8) {
            violation(&["C02", "C07"], "leaf-corrupted", format!("T({}) at {what}", self.core.tok));
        }
    }
}
impl<const SZ: usize> Fx for Lf<SZ> {
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Val> {
        // SAFETY: nothing is moved.
        let this = unsafe { self.get_unchecked_mut() };
        this.sane("poll");
        let a = this as *const Self as usize;
        this.core.here(a, "poll");
        this.core.poll(cx)
    }
    fn peek(self: Pin<&Self>) -> u32 {
        self.sane("peek");
        let a = &*self as *const Self as usize;
        if self.core.addr != 0 && self.core.addr != a {
            violation(&["C02", "C07"], "pinned-child-moved", format!("leaf T({}) at peek", self.core.tok));
        }
        self.core.tok.wrapping_mul(4) | (self.core.started as u32) | (self.core.done as u32) << 1
    }
}
impl<const SZ: usize> Drop for Lf<SZ> {
    fn drop(&mut self) {
        self.sane("drop");
        let a = self as *const Self as usize;
        self.core.here(a, "drop");
        self.core.gone();
        on_drop(Leaf::T(self.core.tok), a, true);
    }
}

/// An address-sensitive leaf stream.
pub struct Ls<const SZ: usize> {
    n: u32,
    ended: bool,
    cur: Option<LeafCore>,
    pad: [u16; SZ],
    tok: u32,
    addr: usize,
    _p: PhantomPinned,
}
impl<const SZ: usize> Mk for Ls<SZ> {
    fn mk() -> Self {
        let tok = new_tok(true);
        Ls { n: choose(4), ended: false, cur: None, pad: [tok as u16; SZ], tok, addr: 0, _p: PhantomPinned }
    }
}
impl<const SZ: usize> Ls<SZ> {
    fn check(&self, a: usize, what: &str) {
        if self.pad.iter().any(|b| *b != self.tok as u16) {
            violation(&["C02", "C07"], "leaf-corrupted", format!("stream T({}) at {what}", self.tok));
        }
        if self.addr != 0 && self.addr != a {
            violation(&["C02", "C07"], "pinned-child-moved", format!("stream T({}) at {what}", self.tok));
        }
    }
}
impl<const SZ: usize> Sx for Ls<SZ> {
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Val>> {
        // SAFETY: nothing is moved.
        let this = unsafe { self.get_unchecked_mut() };
        let a = this as *const Self as usize;
        this.check(a, "poll");
        this.addr = a;
        if this.ended {
            violation(&["C07"], "polled-after-completion", format!("stream T({})", this.tok));
        }
        if this.cur.is_none() {
            if this.n == 0 {
                this.ended = true;
                let t = this.tok;
                with(|w| w.note(0x8400 + t as u64, || format!("stream T({t}) ended")));
                return Poll::Ready(None);
            }
            this.n -= 1;
            let mut c = LeafCore::new();
            // its identity is only a name in the environment
            with(|w| w.ledger[c.tok as usize - 1].dropped = true);
            c.addr = a;
            this.cur = Some(c);
        }
        match this.cur.as_mut().unwrap().poll(cx) {
            Poll::Ready(v) => {
                this.cur = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => Poll::Pending,
        }
    }
    fn peek(self: Pin<&Self>) -> u32 {
        self.check(&*self as *const Self as usize, "peek");
        self.tok.wrapping_mul(8) | self.n
    }
}
impl<const SZ: usize> Drop for Ls<SZ> {
    fn drop(&mut self) {
        let a = self as *const Self as usize;
        self.check(a, "drop");
        if let Some(c) = &mut self.cur {
            c.gone();
        }
        on_drop(Leaf::T(self.tok), a, true);
    }
}

// ----- helpers for adapter bodies ------------------------------------------------------------

impl<T: Mk> Mk for Option<T> {
    fn mk() -> Self {
        Some(T::mk())
    }
}
impl Mk for Pu {
    fn mk() -> Self {
        <Pu as Fld>::mk()
    }
}
/// A tracked value that adapters carry along.
pub fn carry<F: Fld>() -> F {
    F::mk()
}
pub fn seen<F: Fld + ?Sized>(f: &F) -> u32 {
    let mut v = Vec::new();
    f.obs(&mut v);
    v.iter().fold(7u32, |a, i| match i {
        Item::Leaf { leaf, val, .. } => {
            let n = match leaf {
                Leaf::T(t) | Leaf::V(t) => *t,
                Leaf::Z(z) => *z,
            };
            a.wrapping_mul(31).wrapping_add(n).wrapping_mul(31).wrapping_add(*val)
        }
        _ => a,
    })
}
/// Something an adapter reports.
pub fn tell(k: u32, x: u32) {
    with(|w| w.note(0x9000_0000 + ((k as u64) << 33) + x as u64, || format!("adapter says {k}:{x}")));
}
/// Polls, stopping a panic of the child here (as a supervising task would).
pub fn catching(f: impl FnOnce() -> Poll<Val>) -> Result<Poll<Val>, ()> {
    let (r, fr) = guarded(FrameKind::Flow, f);
    let evs = fr.evs.clone();
    let out = finish_panic(r, &fr, &["C07"]).ok_or(());
    with(|w| {
        if out.is_err() {
            w.bump("panic-caught-by-adapter");
        }
        w.frame().evs.extend(evs)
    });
    out
}
/// A panic of the adapter's own code.
pub fn own_panic(p: u32) {
    let ok = with(|w| {
        let f = w.frame();
        f.faults_ok && !f.panicked
    });
    let rate = env().rate_poll_panic;
    if ok && rate > 0 && chance(p) {
        sim_panic("panic-in-adapter-code");
    }
}
pub fn adapter_dropped(k: u32, x: u32) {
    with(|w| {
        w.bump("flow-destructor-bodies");
        w.note(0xA000_0000 + ((k as u64) << 33) + x as u64, || format!("adapter destructor {k}:{x}"))
    });
    leave_generated_code("panic-in-destructor-body", |f| f.body_panic);
}

// ----- executor ------------------------------------------------------------------------------

const RATES: [u32; 5] = [0, 12, 28, 60, 110];

fn simulate(flows: &'static [FlowEntry], reference: bool) {
    *env() = Env::default();
    let n = 1 + choose(3) as usize;
    let mut f = Faults::default();
    let faulty = choose(4) != 0;
    let mut pp = 0;
    let mut cancel = 0;
    if faulty {
        f.panic = RATES[choose(4) as usize];
        f.body_panic = RATES[choose(4) as usize];
        pp = RATES[choose(4) as usize];
        cancel = choose(3);
    }
    let turb = choose(24);
    let mut permits = 1 + choose(2);
    env().permits = permits;
    env().rate_poll_panic = pp;
    env().woken = vec![true; n];
    with(|w| {
        w.faults = f;
        if !faulty && !reference {
            w.bump("fault-free-runs");
        }
    });
    let mut tasks: Vec<Option<Pin<Box<dyn Fx>>>> = Vec::new();
    for i in 0..n {
        let e = &flows[choose(flows.len() as u32) as usize];
        with(|w| {
            w.cur.clear();
            w.cur.push_str(e.name);
            w.note(0x8500 + i as u64, || format!("task {i} is {}", e.name))
        });
        tasks.push(Some(if reference { (e.rf)() } else { (e.pp)() }));
    }
    let wakers: Vec<Waker> = (0..n).map(|i| Waker::from(Arc::new(Tw(i)))).collect();
    let mut steps = 0u32;
    let mut calm = 0u32;
    loop {
        if violated() {
            core::mem::forget(tasks);
            return;
        }
        let live: Vec<usize> = (0..n).filter(|&i| tasks[i].is_some()).collect();
        if live.is_empty() {
            break;
        }
        let quiet = steps >= turb;
        if quiet {
            if calm == 0 {
                // faults stop here
                with(|w| w.faults = Faults::default());
                env().rate_poll_panic = 0;
            }
            calm += 1;
            let bound = 200 + 40 * env().leaves;
            if calm > bound {
                violation(&["C07"], "no-progress", format!("tasks {live:?} unfinished {bound} steps after the last fault"));
                continue;
            }
        }
        steps += 1;
        let ready: Vec<usize> = live.iter().copied().filter(|&i| env().woken[i]).collect();
        let (nt, ne) = {
            let e = env();
            (e.timers.len() as u32, e.events.iter().filter(|x| !x.2).count() as u32)
        };
        // poll woken | spurious poll | fire event | advance clock | cancel | peek | clock jump
        let w: [u32; 7] = if quiet {
            if !ready.is_empty() {
                [1, 0, 0, 0, 0, 0, 0]
            } else {
                [0, 0, ne, if nt > 0 { 1 } else { 0 }, 0, 0, 0]
            }
        } else {
            [if ready.is_empty() { 0 } else { 8 }, 1, if ne > 0 { 4 } else { 0 }, if nt > 0 { 4 } else { 0 }, cancel, 2, 1]
        };
        if w.iter().sum::<u32>() == 0 && env().queue.iter().any(|q| !q.2) {
            // tasks wait for permits that other waiting tasks hold: an operator adds one
            permits += 1;
            with(|w| w.bump("permit-added"));
            release_permit();
            continue;
        }
        if w.iter().sum::<u32>() == 0 {
            violation(&["C07"], "stuck", format!("tasks {live:?} wait for nothing"));
            continue;
        }
        match pick(&w) {
            k @ (0 | 1) => {
                let i = if k == 0 { ready[choose(ready.len() as u32) as usize] } else { live[choose(live.len() as u32) as usize] };
                if k == 1 && !env().woken[i] {
                    with(|w| w.bump("spurious-poll"));
                }
                env().woken[i] = false;
                with(|w| {
                    w.bump("task-polls");
                    w.note(0x8600 + i as u64, || format!("poll task {i}"))
                });
                let t = tasks[i].as_mut().unwrap().as_mut();
                let mut cx = Context::from_waker(&wakers[i]);
                let (r, fr) = guarded(FrameKind::Flow, || t.poll(&mut cx));
                match finish_panic(r, &fr, &["C07"]) {
                    Some(Poll::Pending) => {}
                    Some(Poll::Ready(v)) => {
                        with(|w| w.note(0x8700_0000 + ((i as u64) << 36) + v.x as u64, || format!("task {i} yields {}", v.x)));
                        let (r, fr) = guarded(FrameKind::Flow, || drop(v));
                        finish_panic(r, &fr, &["C07"]);
                        end(&mut tasks[i]);
                    }
                    None => {
                        with(|w| {
                            w.bump("task-panicked");
                            w.note(0x8800 + i as u64, || format!("task {i} panicked"))
                        });
                        end(&mut tasks[i]);
                    }
                }
            }
            2 => {
                let k = choose(ne) as usize;
                let (tok, wk) = {
                    let mut e = env();
                    let ev = e.events.iter_mut().filter(|x| !x.2).nth(k).unwrap();
                    ev.2 = true;
                    (ev.0, ev.1.clone())
                };
                with(|w| w.note(0x8900 + tok as u64, || format!("event for T({tok})")));
                wk.wake();
            }
            3 => {
                let t = env().timers.iter().map(|t| t.0).min().unwrap();
                advance(t);
            }
            4 => {
                let i = live[choose(live.len() as u32) as usize];
                with(|w| {
                    w.bump("task-cancelled");
                    w.note(0x8A00 + i as u64, || format!("cancel task {i}"))
                });
                end(&mut tasks[i]);
            }
            5 => {
                let i = live[choose(live.len() as u32) as usize];
                let x = tasks[i].as_ref().unwrap().as_ref().peek();
                with(|w| {
                    w.bump("task-peeks");
                    w.note(0x8B00_0000 + ((i as u64) << 36) + x as u64, || format!("peek task {i}: {x}"))
                });
            }
            _ => {
                with(|w| w.bump("clock-jump"));
                let t = env().now + [1, 7, 40, 1000][choose(4) as usize];
                advance(t);
            }
        }
    }
    let (p, t, e, q) = {
        let e = env();
        (e.permits, e.timers.len(), e.events.len(), e.queue.len())
    };
    if p != permits || t + e + q != 0 {
        violation(&["C07"], "resources-not-released", format!("{p}/{permits} permits, {t} timers, {e} events, {q} waiters left"));
    }
    let leaked = with(|w| {
        w.now = env().now;
        w.ledger.iter().position(|i| !i.dropped).map(|p| format!("T({})", p + 1)).or_else(|| w.zlive.iter().find(|x| *x.1 != 0).map(|x| format!("Z({})x{}", x.0, x.1)))
    });
    if let Some(l) = leaked {
        violation(&["C07"], "leaked", l);
    }
}
fn advance(t: u64) {
    let ws: Vec<Waker> = {
        let mut e = env();
        e.now = e.now.max(t);
        let now = e.now;
        // a timer fires once
        let (due, later): (Vec<_>, Vec<_>) = core::mem::take(&mut e.timers).into_iter().partition(|x| x.0 <= now);
        e.timers = later;
        due.into_iter().map(|x| x.2).collect()
    };
    with(|w| {
        w.bump("clock-advance");
        w.note(0x8C00_0000 + t, || format!("clock {t}"))
    });
    for w in ws {
        w.wake();
    }
}
fn end(t: &mut Option<Pin<Box<dyn Fx>>>) {
    let b = t.take().unwrap();
    let (r, fr) = guarded(FrameKind::Flow, move || drop(b));
    finish_panic(r, &fr, &["C07"]);
    if fr.panicked {
        with(|w| w.bump("panic-while-dropping-task"));
    }
}

/// One simulated run: the pin-project flavour, then the boxed reference under the same decisions.
pub fn run_flow(flows: &'static [FlowEntry], only_pp: bool) {
    with(|w| w.hist = Some(Vec::new()));
    simulate(flows, false);
    let (trace, h1, hash, steps, now, log) = with(|w| (w.trace.clone(), w.hist.take().unwrap(), w.hash, w.steps, w.now, w.log.take()));
    if violated() {
        with(|w| w.log = log);
        return;
    }
    if only_pp {
        with(|w| w.log = log);
        return;
    }
    let stats = with(|w| {
        let st = w.stats.clone();
        w.trace_file = None;
        w.reset(Src::Script(trace.clone(), 0));
        w.hist = Some(Vec::new());
        w.log = log.as_ref().map(|_| Vec::new());
        st
    });
    simulate(flows, true);
    let (h2, l2) = with(|w| {
        w.stats = stats;
        (w.hist.take().unwrap(), w.log.take())
    });
    let own = with(|w| {
        let v = core::mem::take(&mut w.violations);
        w.trace = trace;
        w.hash = hash;
        w.steps = steps;
        w.now = now;
        w.log = log;
        v
    });
    if h1 != h2 {
        let k = h1.iter().zip(&h2).position(|(a, b)| a != b).unwrap_or(h1.len().min(h2.len()));
        let refl = l2.as_ref().and_then(|l| l.get(k).cloned()).unwrap_or_else(|| format!("{:x?}", h2.get(k)));
        let ppl = with(|w| w.log.as_ref().and_then(|l| l.get(k).cloned())).unwrap_or_else(|| format!("{:x?}", h1.get(k)));
        violation(&["C07"], "history-diverged", format!("event {k}: projections: {ppl}; boxed reference: {refl}"));
        crate::ops::abandon();
    } else if let Some(v) = own.first() {
        eprintln!("harness error: the boxed reference itself fails: {} {}", v.class, v.msg);
        std::process::exit(3);
    }
}
