//! Real threads, exactly one of which runs at a time; the decision source picks which.
use std::sync::{Condvar, Mutex};

use crate::world::*;

struct St {
    cur: usize,
    /// runnable[a]: actor a exists and has not finished
    runnable: Vec<bool>,
}
static ST: Mutex<St> = Mutex::new(St { cur: 0, runnable: Vec::new() });
static CVS: [Condvar; 8] = [
    Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new(),
    Condvar::new(), Condvar::new(), Condvar::new(), Condvar::new(),
];

fn lock() -> std::sync::MutexGuard<'static, St> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}

fn others(me: usize) -> Vec<usize> {
    let s = lock();
    (0..s.runnable.len()).filter(|&a| a != me && s.runnable[a]).collect()
}

/// Hands the baton over with the simulator's consent.
pub fn yield_point() {
    let rate = with(|w| if w.multi { w.faults.switch } else { 0 });
    if rate == 0 {
        return;
    }
    if chance(rate) {
        let me = actor();
        let o = others(me);
        if o.is_empty() {
            return;
        }
        let to = o[choose(o.len() as u32) as usize];
        with(|w| {
            w.bump("thread-switches");
            let k = w.frame().kind;
            let pn = w.frame().panicked;
            if k == FrameKind::Replace {
                w.bump("thread-switch-inside-replace");
            }
            if k == FrameKind::Destroy || k == FrameKind::DestroyPd {
                w.bump("thread-switch-inside-destruction");
            }
            if pn {
                w.bump("thread-switch-during-unwinding");
            }
            w.note(0x51 + ((to as u64) << 8), || format!("switch to a{to}"));
        });
        let mut s = lock();
        s.cur = to;
        CVS[to].notify_one();
        while s.cur != me {
            s = CVS[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
}

/// Runs `n` actors to completion; `body(a)` is the program of actor `a`.
pub fn run_actors(n: usize, body: fn(usize)) {
    assert!(n <= 7);
    // actor 0 is the main thread, waiting in slot 0; the others are 1..=n.
    {
        let mut s = lock();
        s.runnable = vec![false; n + 1];
        for a in 1..=n {
            s.runnable[a] = true;
        }
        s.cur = 1;
    }
    let first = 1 + choose(n as u32) as usize;
    lock().cur = first;
    let hs: Vec<_> = (1..=n)
        .map(|a| {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    set_actor(a);
                    {
                        let mut s = lock();
                        while s.cur != a {
                            s = CVS[a].wait(s).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    let r = std::panic::catch_unwind(|| body(a));
                    if let Err(p) = r {
                        if p.downcast_ref::<SimPanic>().is_none() {
                            eprintln!("harness error: actor {a} panicked");
                            std::process::exit(3);
                        }
                        violation(&["C08"], "panic-escaped", format!("actor {a}"));
                    }
                    // finished: pick a successor
                    let o = others(a);
                    let to = if o.is_empty() { 0 } else { o[choose(o.len() as u32) as usize] };
                    let mut s = lock();
                    s.runnable[a] = false;
                    s.cur = to;
                    CVS[to].notify_one();
                })
                .expect("spawn")
        })
        .collect();
    for a in 1..=n {
        CVS[a].notify_one();
    }
    {
        let mut s = lock();
        while s.cur != 0 {
            s = CVS[0].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    for h in hs {
        let _ = h.join();
    }
}
