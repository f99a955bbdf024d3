"""Seeded generator of async adapters: each one twice, made by pin-project and as a boxed reference.

Both flavours share the text of their poll functions. They differ in how pinned children are stored and
reached: `#[pin]` and generated projections on one side, `Pin<Box<_>>` and hand-written safe projections
on the other.
"""
import random
import re


class Ad:
    def __init__(self, name, kind, params, variants, poll, peek, trait="Fx", replace=False, pdrop=None, where="", decor=True, starts=None):
        self.starts = starts
        self.name, self.kind, self.params, self.variants = name, kind, params, variants
        self.poll, self.peek, self.trait, self.replace, self.pdrop = poll, peek, trait, replace, pdrop
        self.decor = decor


def F(name, ty, init, pinned=False):
    return [name, ty, init, pinned]


def P(name, ty, init=None):
    return [name, ty, init or f"<{ty} as Mk>::mk()", True]


PEEK1 = "[[REF]] a.peek().wrapping_mul(3)"

ADAPTERS = [
    Ad("Map", "enum", ["A:Fx"], {"Run": [P("a", "A"), F("k", "u32", "choose(9)")], "Gone": []}, """
        let v = match self.as_mut().project() {
            [[PAT P Run]] => match a.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending },
            [[PAT P Gone]] => unreachable!("polled after completion"),
        };
        let k = match self.as_mut().project_replace([[NEW Gone]]) {
            [[PAT O Run]] => k,
            [[PAT O Gone]] => unreachable!(),
        };
        Poll::Ready(v.map(k))""", """match self.project_ref() { [[PAT R Run]] => a.peek() ^ *k, [[PAT R Gone]] => 5 }""", replace=True),
    Ad("Then", "enum", ["A:Fx", "B:Fx"], {"First": [P("a", "A"), F("m", "Pu", "carry()")], "Second": [P("b", "B"), F("k", "u32", "0")], "Empty": []}, """
        loop {
            let next = match self.as_mut().project() {
                [[PAT P First]] => {
                    let v = match a.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                    let k = seen(&*m).wrapping_add(v.x);
                    drop(v);
                    own_panic(20);
                    [[NEW Second k=k]]
                }
                [[PAT P Second]] => {
                    let v = match b.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                    let k = *k;
                    self.as_mut().set([[NEW Empty]]);
                    return Poll::Ready(v.map(k));
                }
                [[PAT P Empty]] => unreachable!("polled after completion"),
            };
            self.as_mut().set(next);
        }""", """match self.project_ref() { [[PAT R First]] => a.peek() ^ seen(m), [[PAT R Second]] => b.peek() ^ *k, [[PAT R Empty]] => 6 }"""),
    Ad("Maybe", "enum", ["A:Fx"], {"Fut": [P("a", "A")], "Done": [F("v", "Val", "unreachable!()")], "Gone": []}, """
        let v = match self.as_mut().project() {
            [[PAT P Fut]] => match a.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending },
            [[PAT P Done]] => return Poll::Ready(Val::new(0)),
            [[PAT P Gone]] => unreachable!("polled after completion"),
        };
        self.as_mut().set([[NEW Done v=v]]);
        Poll::Ready(Val::new(1))""", """match self.project_ref() { [[PAT R Fut]] => a.peek(), [[PAT R Done]] => v.x, [[PAT R Gone]] => 8 }""", replace=True, decor=False),
    Ad("Join", "struct", ["A:Fx", "B:Fx"], {"": [P("a", "[[T Maybe]]<A>"), P("b", "[[T Maybe]]<B>"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        let mut ready = true;
        if !a.is_done() { match a.as_mut().poll(cx) { Poll::Ready(v) => drop(v), Poll::Pending => ready = false } }
        if !b.is_done() { match b.as_mut().poll(cx) { Poll::Ready(v) => drop(v), Poll::Pending => ready = false } }
        if !ready { return Poll::Pending; }
        let x = a.take_done();
        let y = b.take_done();
        m.poke(1);
        Poll::Ready(x.merge(y).map(seen(&*m)))""", "[[REF]] a.peek().wrapping_mul(3) ^ b.peek() ^ seen(m)"),
    Ad("Select", "struct", ["A:Fx", "B:Fx"], {"": [P("a", "Option<A>"), P("b", "Option<B>"), F("flip", "bool", "choose(2) == 1"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        *flip = !*flip;
        for i in 0..2 {
            let r = if (i == 0) == *flip {
                match a.as_mut().as_pin_mut() { Some(f) => f.poll(cx), None => Poll::Pending }
            } else {
                match b.as_mut().as_pin_mut() { Some(f) => f.poll(cx), None => Poll::Pending }
            };
            if let Poll::Ready(v) = r {
                b.as_mut().set(None);
                a.as_mut().set(None);
                return Poll::Ready(v.map(i + seen(&*m)));
            }
        }
        Poll::Pending""", "[[REF]] a.as_pin_ref().map_or(1, |f| f.peek()) ^ b.as_pin_ref().map_or(2, |f| f.peek()) ^ seen(m) ^ *flip as u32"),
    Ad("Retry", "struct", ["A:Fx"], {"": [P("a", "A"), F("left", "u32", "choose(3)"), F("m", "Ph", "carry()")]}, """
        [[PROJ]]
        let v = match a.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
        if v.bad && *left > 0 {
            *left -= 1;
            drop(v);
            a.as_mut().set(<A as Mk>::mk());
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(v.map(*left ^ seen(&*m)))""", "[[REF]] a.peek() ^ *left ^ seen(m)"),
    Ad("Guarded", "struct", ["A:Fx"], {"": [P("a", "A"), F("fin", "bool", "false"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        let v = match a.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
        *fin = true;
        m.poke(2);
        own_panic(16);
        Poll::Ready(v.map(seen(&*m)))""", "[[REF]] a.peek() ^ seen(m) ^ *fin as u32", pdrop="""
        let p = self.as_ref().peek_self();
        [[PROJ]]
        if !*fin { m.poke(7); }
        tell(11, a.as_ref().peek());
        adapter_dropped(1, seen(&*m) ^ p);"""),
    Ad("Latch", "enum", ["A:Fx"], {"Armed": [P("a", "A"), F("m", "Pu", "carry()")], "Fired": [F("v", "Val", "unreachable!()")], "Spent": []}, """
        let v = match self.as_mut().project() {
            [[PAT P Armed]] => match a.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending },
            [[PAT P Fired]] => { let x = v.x; self.as_mut().set([[NEW Spent]]); return Poll::Ready(Val::new(x)); }
            [[PAT P Spent]] => unreachable!("polled after completion"),
        };
        self.as_mut().set([[NEW Fired v=v]]);
        cx.waker().wake_by_ref();
        Poll::Pending""", """match self.project_ref() { [[PAT R Armed]] => a.peek() ^ seen(m), [[PAT R Fired]] => v.x, [[PAT R Spent]] => 9 }""", pdrop="""
        let k = match &*self { Self::Armed [[ANY Armed]] => 1, Self::Fired [[ANY Fired]] => 2, Self::Spent => 3 };
        match self.as_mut().project() {
            [[PAT P Armed]] => { tell(12, a.as_ref().peek()); m.poke(3); }
            [[PAT P Fired]] => tell(13, v.x),
            [[PAT P Spent]] => tell(14, 0),
        }
        adapter_dropped(2, k);"""),
    Ad("Catch", "struct", ["A:Fx"], {"": [P("a", "Option<A>"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        let r = catching(|| match a.as_mut().as_pin_mut() { Some(f) => f.poll(cx), None => unreachable!("polled after completion") });
        match r {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => { a.as_mut().set(None); Poll::Ready(v.map(seen(&*m))) }
            Err(()) => { a.as_mut().set(None); Poll::Ready(Val::new(99)) }
        }""", "[[REF]] a.as_pin_ref().map_or(3, |f| f.peek()) ^ seen(m)"),
    Ad("Abort", "struct", ["A:Fx"], {"": [F("n", "u32", "1 + choose(4)"), P("a", "Option<A>"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        if *n == 0 {
            a.as_mut().set(None);
            return Poll::Ready(Val::new(seen(&*m)));
        }
        *n -= 1;
        match a.as_mut().as_pin_mut() {
            Some(f) => match f.poll(cx) {
                Poll::Ready(v) => { a.as_mut().set(None); Poll::Ready(v) }
                Poll::Pending => { if *n == 0 { cx.waker().wake_by_ref(); } Poll::Pending }
            },
            None => unreachable!("polled after completion"),
        }""", "[[REF]] a.as_pin_ref().map_or(4, |f| f.peek()) ^ *n ^ seen(m)"),
    Ad("Seq", "struct", ["A:Fx"], {"": [P("x", "A"), P("y", "A"), P("z", "A"), F("i", "u32", "0"), F("acc", "Option<Val>", "None")]}, """
        [[PROJ]]
        loop {
            let r = match *i { 0 => x.as_mut().poll(cx), 1 => y.as_mut().poll(cx), _ => z.as_mut().poll(cx) };
            let v = match r { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
            let v = match acc.take() { Some(o) => o.merge(v), None => v };
            if *i == 2 { return Poll::Ready(v); }
            *i += 1;
            *acc = Some(v);
        }""", "[[REF]] x.peek() ^ y.peek().wrapping_mul(3) ^ z.peek().wrapping_mul(5) ^ *i ^ acc.as_ref().map_or(0, |v| v.x)"),
    Ad("Rec", "enum", ["A:Fx"], {"Step": [P("a", "A"), F("rest", "Option<Pin<Box<[[SELF]]<A>>>>", "if choose(3) == 0 { None } else { Some(Box::pin(Self::mk())) }"), F("hold", "Option<Val>", "None")],
                                 "Tail": [F("rest", "Pin<Box<[[SELF]]<A>>>", "unreachable!()"), F("hold", "Val", "unreachable!()")], "Over": []}, """
        let next = match self.as_mut().project() {
            [[PAT P Step]] => {
                let v = match a.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                match rest.take() { Some(r) => Some((r, v)), None => { self.as_mut().set([[NEW Over]]); return Poll::Ready(v); } }
            }
            [[PAT P Tail]] => {
                let v = match rest.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                let x = hold.x;
                self.as_mut().set([[NEW Over]]);
                return Poll::Ready(v.map(x));
            }
            [[PAT P Over]] => unreachable!("polled after completion"),
        };
        if let Some((r, v)) = next {
            self.as_mut().set([[NEW Tail rest=r hold=v]]);
            cx.waker().wake_by_ref();
        }
        Poll::Pending""", """match self.project_ref() { [[PAT R Step]] => a.peek() ^ rest.is_some() as u32 ^ hold.is_some() as u32, [[PAT R Tail]] => rest.as_ref().peek() ^ hold.x, [[PAT R Over]] => 10 }""", decor=False),
    Ad("Swap", "enum", ["A:Fx"], {"One": [P("a", "A"), P("b", "A"), F("k", "u32", "choose(5)")], "Two": [P("a", "A"), P("b", "A"), F("k", "u32", "0")], "Out": []}, """
        loop {
            match self.as_mut().project() {
                [[PAT P One]] => {
                    let v = match a.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                    tell(15, b.as_ref().peek());
                    let x = v.x;
                    drop(v);
                    match self.as_mut().project_replace([[NEW Two k=x]]) {
                        [[PAT O One]] => tell(16, k),
                        [[PAT O Two]] => unreachable!(),
                        [[PAT O Out]] => unreachable!(),
                    }
                }
                [[PAT P Two]] => {
                    let v = match b.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                    tell(17, a.as_ref().peek());
                    let k = *k;
                    match self.as_mut().project_replace([[NEW Out]]) {
                        [[PAT O Two]] => tell(18, k),
                        [[PAT O One]] => unreachable!(),
                        [[PAT O Out]] => unreachable!(),
                    }
                    return Poll::Ready(v.map(k));
                }
                [[PAT P Out]] => unreachable!("polled after completion"),
            }
        }""", """match self.project_ref() { [[PAT R One]] => a.peek() ^ b.peek().wrapping_mul(3) ^ *k, [[PAT R Two]] => a.peek().wrapping_mul(5) ^ b.peek() ^ *k, [[PAT R Out]] => 12 }""", replace=True),
    Ad("Swallow", "struct", ["A:Fx"], {"": [P("a", "A"), P("b", "Option<A>"), F("k", "u32", "choose(7)")]}, """
        [[PROJ]]
        let v = match a.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
        if *k > 3 && b.is_some() {
            let own = self.as_mut().project_replace([[NEW b=None k=v.x]]);
            [[PATOWN]]
            tell(19, k);
            drop(v);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(v.map(*k))""", "[[REF]] a.peek() ^ b.as_pin_ref().map_or(7, |f| f.peek()) ^ *k", replace=True),
    Ad("Either", "enum", ["A:Fx", "B:Fx"], {"Left": [P("a", "A"), F("k", "u32", "choose(4)")], "Right": [P("b", "B"), F("m", "Pu", "carry()")]}, """
        match self.as_mut().project() {
            [[PAT P Left]] => match a.poll(cx) { Poll::Ready(v) => Poll::Ready(v.map(*k)), Poll::Pending => Poll::Pending },
            [[PAT P Right]] => match b.poll(cx) { Poll::Ready(v) => { m.poke(1); Poll::Ready(v.map(seen(&*m))) }, Poll::Pending => Poll::Pending },
        }""", """match self.project_ref() { [[PAT R Left]] => a.peek() ^ *k, [[PAT R Right]] => b.peek() ^ seen(m) }""", starts=["Left", "Right"]),
    Ad("Timeout", "struct", ["A:Fx", "B:Fx"], {"": [P("a", "Option<A>"), P("t", "B"), F("late", "u32", "0"), F("m", "Ph", "carry()")]}, """
        [[PROJ]]
        let r = match a.as_mut().as_pin_mut() { Some(f) => f.poll(cx), None => unreachable!("polled after completion") };
        if let Poll::Ready(v) = r {
            a.as_mut().set(None);
            return Poll::Ready(v.map(seen(&*m)));
        }
        match t.as_mut().poll(cx) {
            Poll::Ready(v) => { *late += 1; a.as_mut().set(None); own_panic(10); Poll::Ready(v.map(*late)) }
            Poll::Pending => Poll::Pending,
        }""", "[[REF]] a.as_pin_ref().map_or(5, |f| f.peek()) ^ t.peek().wrapping_mul(3) ^ *late ^ seen(m)"),
    Ad("Machine", "enum", ["A:Fx", "B:Fx"], {"Idle": [P("a", "A"), F("m", "Pu", "carry()"), F("n", "u32", "choose(3)")], "Work": [P("b", "B"), P("c", "Option<A>"), F("m", "Pu", "carry()"), F("v", "Val", "unreachable!()")],
                                             "Flush": [F("m", "Pu", "carry()"), F("v", "Val", "unreachable!()"), P("e", "A")], "Close": [F("v", "Val", "unreachable!()")], "Shut": []}, """
        loop {
            match self.as_mut().project() {
                [[PAT P Idle]] => {
                    let v = match a.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                    m.poke(*n);
                    let (m, n) = match self.as_mut().project_replace([[NEW Shut]]) { [[PAT O Idle]] => (m, n), _ => unreachable!() };
                    own_panic(10);
                    tell(22, seen(&m) ^ n);
                    self.as_mut().set([[NEW Work m=m v=v]]);
                }
                [[PAT P Work]] => {
                    let w = match b.as_mut().poll(cx) { Poll::Ready(w) => w, Poll::Pending => return Poll::Pending };
                    tell(23, v.x ^ c.as_ref().as_pin_ref().map_or(0, |f| f.peek()));
                    c.as_mut().set(None);
                    let (m, v) = match self.as_mut().project_replace([[NEW Shut]]) { [[PAT O Work]] => (m, v), _ => unreachable!() };
                    self.as_mut().set([[NEW Flush m=m v=v.merge(w)]]);
                }
                [[PAT P Flush]] => {
                    let w = match e.as_mut().poll(cx) { Poll::Ready(w) => w, Poll::Pending => return Poll::Pending };
                    m.poke(2);
                    let (m, v) = match self.as_mut().project_replace([[NEW Shut]]) { [[PAT O Flush]] => (m, v), _ => unreachable!() };
                    let k = seen(&m);
                    drop(m);
                    self.as_mut().set([[NEW Close v=v.map(k)]]);
                    drop(w);
                }
                [[PAT P Close]] => {
                    tell(24, v.x);
                    let v = match self.as_mut().project_replace([[NEW Shut]]) { [[PAT O Close]] => v, _ => unreachable!() };
                    return Poll::Ready(v);
                }
                [[PAT P Shut]] => unreachable!("polled after completion"),
            }
        }""", """match self.project_ref() { [[PAT R Idle]] => a.peek() ^ seen(m) ^ *n, [[PAT R Work]] => b.peek() ^ seen(m) ^ v.x ^ c.as_pin_ref().map_or(6, |f| f.peek()), [[PAT R Flush]] => e.peek() ^ v.x ^ seen(m), [[PAT R Close]] => v.x, [[PAT R Shut]] => 15 }""", replace=True),
    Ad("Many", "struct", ["A:Fx"], {"": [F("list", "Vec<Pin<Box<A>>>", "(0..1 + choose(3)).map(|_| Box::pin(<A as Mk>::mk())).collect()"), F("acc", "Option<Val>", "None"), P("last", "A"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        let mut i = 0;
        while i < list.len() {
            match list[i].as_mut().poll(cx) {
                Poll::Pending => i += 1,
                Poll::Ready(v) => {
                    drop(list.remove(i));
                    let n = match acc.take() { Some(o) => o.merge(v), None => v };
                    *acc = Some(n);
                }
            }
        }
        if !list.is_empty() { return Poll::Pending; }
        let v = match last.as_mut().poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
        Poll::Ready(match acc.take() { Some(o) => o.merge(v), None => v }.map(seen(&*m)))""", "[[REF]] list.iter().fold(3, |x, f| x ^ f.as_ref().peek().wrapping_mul(7)) ^ acc.as_ref().map_or(0, |v| v.x) ^ last.peek() ^ seen(m)"),
    Ad("Fold", "struct", ["S:Sx", "A:Fx"], {"": [P("s", "S"), P("step", "Option<A>", "None"), F("acc", "u32", "choose(8)"), F("held", "Option<Val>", "None")]}, """
        [[PROJ]]
        loop {
            if let Some(f) = step.as_mut().as_pin_mut() {
                let v = match f.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending };
                step.as_mut().set(None);
                *acc = acc.wrapping_mul(5).wrapping_add(v.x);
                drop(held.take());
                drop(v);
            }
            match s.as_mut().poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(v)) => { *held = Some(v); step.as_mut().set(Some(<A as Mk>::mk())); }
                Poll::Ready(None) => return Poll::Ready(Val::new(*acc)),
            }
        }""", "[[REF]] s.peek() ^ step.as_pin_ref().map_or(8, |f| f.peek()) ^ *acc ^ held.as_ref().map_or(0, |v| v.x)"),
    # streams
    Ad("Collect", "struct", ["S:Sx"], {"": [P("s", "S"), F("acc", "Option<Val>", "None"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        loop {
            match s.as_mut().poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(v)) => { let n = match acc.take() { Some(o) => o.merge(v), None => v }; *acc = Some(n); m.poke(1); }
                Poll::Ready(None) => return Poll::Ready(match acc.take() { Some(v) => v.map(seen(&*m)), None => Val::new(1) }),
            }
        }""", "[[REF]] s.peek() ^ acc.as_ref().map_or(0, |v| v.x) ^ seen(m)"),
    Ad("Last", "enum", ["S:Sx"], {"Empty": [P("s", "S")], "Some": [P("s", "S"), F("v", "Val", "unreachable!()")], "Over": []}, """
        loop {
            match self.as_mut().project() {
                [[PAT P Empty]] => match s.poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Some(v)) => { self.as_mut().set([[NEW Over]]); return Poll::Ready(v.map(3)); }
                    Poll::Ready(None) => { self.as_mut().set([[NEW Over]]); return Poll::Ready(Val::new(2)); }
                },
                [[PAT P Some]] => { let x = v.x ^ s.as_ref().peek(); tell(20, x); self.as_mut().set([[NEW Over]]); return Poll::Ready(Val::new(x)); }
                [[PAT P Over]] => unreachable!("polled after completion"),
            }
        }""", """match self.project_ref() { [[PAT R Empty]] => s.peek(), [[PAT R Some]] => s.peek() ^ v.x, [[PAT R Over]] => 13 }"""),
    Ad("SMap", "struct", ["S:Sx"], {"": [F("k", "u32", "choose(6)"), P("s", "S"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        match s.as_mut().poll_next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(v)) => { own_panic(12); m.poke(*k); Poll::Ready(Some(v.map(*k ^ seen(&*m)))) }
            Poll::Ready(None) => Poll::Ready(None),
        }""", "[[REF]] s.peek() ^ *k ^ seen(m)", trait="Sx"),
    Ad("SThen", "struct", ["S:Sx", "A:Fx"], {"": [P("s", "S"), P("cur", "Option<A>", "None"), F("pend", "Option<Val>", "None")]}, """
        [[PROJ]]
        loop {
            if let Some(f) = cur.as_mut().as_pin_mut() {
                let w = match f.poll(cx) { Poll::Ready(w) => w, Poll::Pending => return Poll::Pending };
                cur.as_mut().set(None);
                let v = pend.take().unwrap();
                return Poll::Ready(Some(v.merge(w)));
            }
            match s.as_mut().poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(v)) => { *pend = Some(v); cur.as_mut().set(Some(<A as Mk>::mk())); }
                Poll::Ready(None) => return Poll::Ready(None),
            }
        }""", "[[REF]] s.peek() ^ cur.as_pin_ref().map_or(3, |f| f.peek()) ^ pend.as_ref().map_or(1, |v| v.x)", trait="Sx"),
    Ad("SChain", "struct", ["S:Sx", "Q:Sx"], {"": [P("s", "Option<S>"), P("q", "Q"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        if let Some(f) = s.as_mut().as_pin_mut() {
            match f.poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(v)) => return Poll::Ready(Some(v)),
                Poll::Ready(None) => { s.as_mut().set(None); m.poke(5); }
            }
        }
        q.as_mut().poll_next(cx)""", "[[REF]] s.as_pin_ref().map_or(3, |f| f.peek()) ^ q.peek() ^ seen(m)", trait="Sx"),
    Ad("STake", "enum", ["S:Sx"], {"Live": [P("s", "S"), F("n", "u32", "choose(3)")], "Cut": []}, """
        let r = match self.as_mut().project() {
            [[PAT P Live]] => {
                if *n == 0 { None } else {
                    match s.poll_next(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Some(v)) => { *n -= 1; return Poll::Ready(Some(v)); }
                        Poll::Ready(None) => None,
                    }
                }
            }
            [[PAT P Cut]] => unreachable!("polled after completion"),
        };
        match self.as_mut().project_replace([[NEW Cut]]) { [[PAT O Live]] => tell(21, n), [[PAT O Cut]] => unreachable!() }
        Poll::Ready(r)""", """match self.project_ref() { [[PAT R Live]] => s.peek() ^ *n, [[PAT R Cut]] => 14 }""", trait="Sx", replace=True),
    Ad("SZip", "struct", ["S:Sx", "Q:Sx"], {"": [P("s", "S"), P("q", "Q"), F("hold", "Option<Val>", "None"), F("end", "bool", "false")]}, """
        [[PROJ]]
        if hold.is_none() {
            match s.as_mut().poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(v)) => *hold = Some(v),
                Poll::Ready(None) => { *end = true; return Poll::Ready(None); }
            }
        }
        match q.as_mut().poll_next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(w)) => Poll::Ready(Some(hold.take().unwrap().merge(w))),
            Poll::Ready(None) => { *end = true; Poll::Ready(None) }
        }""", "[[REF]] s.peek() ^ q.peek().wrapping_mul(3) ^ hold.as_ref().map_or(1, |v| v.x) ^ *end as u32", trait="Sx"),
    Ad("SFuse", "enum", ["S:Sx"], {"Live": [P("s", "S"), F("n", "u32", "0")], "Over": []}, """
        let r = match self.as_mut().project() {
            [[PAT P Live]] => match s.poll_next(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(Some(v)) => { *n += 1; return Poll::Ready(Some(v.map(*n))); } Poll::Ready(None) => *n },
            [[PAT P Over]] => return Poll::Ready(None),
        };
        self.as_mut().set([[NEW Over]]);
        tell(25, r);
        Poll::Ready(None)""", """match self.project_ref() { [[PAT R Live]] => s.peek() ^ *n, [[PAT R Over]] => 16 }""", trait="Sx"),
    Ad("SPeek", "struct", ["S:Sx"], {"": [P("s", "S"), F("front", "Option<Option<Val>>", "None"), F("m", "Pu", "carry()")]}, """
        [[PROJ]]
        if front.is_none() {
            match s.as_mut().poll_next(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(o) => *front = Some(o) }
            if matches!(front, Some(Some(_))) && choose(3) == 0 { cx.waker().wake_by_ref(); return Poll::Pending; }
        }
        m.poke(1);
        Poll::Ready(front.take().unwrap())""", "[[REF]] s.peek() ^ front.as_ref().map_or(1, |o| o.as_ref().map_or(2, |v| v.x)) ^ seen(m)", trait="Sx", pdrop="""
        [[PROJ]]
        tell(26, s.as_ref().peek());
        let k = front.take().map_or(0, |o| o.map_or(1, |v| v.x));
        adapter_dropped(4, k ^ seen(&*m));"""),
    Ad("SFlat", "enum", ["S:Sx", "Q:Sx"], {"Outer": [P("s", "S"), P("q", "Option<Q>", "None"), F("n", "u32", "0"), F("hold", "Option<Val>", "None")], "End": []}, """
        loop {
            match self.as_mut().project() {
                [[PAT P Outer]] => {
                    if let Some(x) = q.as_mut().as_pin_mut() {
                        match x.poll_next(cx) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Some(v)) => return Poll::Ready(Some(v.map(hold.as_ref().map_or(0, |h| h.x)))),
                            Poll::Ready(None) => { q.as_mut().set(None); drop(hold.take()); }
                        }
                    }
                    match s.as_mut().poll_next(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Some(v)) => { *n += 1; *hold = Some(v); q.as_mut().set(Some(<Q as Mk>::mk())); }
                        Poll::Ready(None) => { self.as_mut().set([[NEW End]]); return Poll::Ready(None); }
                    }
                }
                [[PAT P End]] => unreachable!("polled after completion"),
            }
        }""", """match self.project_ref() { [[PAT R Outer]] => s.peek() ^ q.as_pin_ref().map_or(11, |f| f.peek()) ^ *n ^ hold.as_ref().map_or(0, |v| v.x), [[PAT R End]] => 17 }""", trait="Sx"),
]
BYNAME = {a.name: a for a in ADAPTERS}


PINNED_DECOR = ["Pn", "PaN", "PhN", "Pu", "PbN", "PniN", "PyN", "PgN", "Pb", "Pz<{z}>", "PzN<{z}>", "(Pn, Pu)", "[Pn; 2]", "Option<PhN>", "Vec<Pn>",
                "simcore::Lt<{lt}, Pn>", "core::marker::PhantomPinned", "Box<Pn>", "core::marker::PhantomData<{lt2} u8>", "[PbN; 3]"]
PLAIN_DECOR = ["Pu", "Ph", "Pn", "Pa", "Pb", "Pni", "Py", "Pg", "Pz<{z}>", "PzN<{z}>", "(Pu, Pn)", "[Pu; 3]", "Option<Pu>", "Vec<Ph>", "simcore::Lt<{lt}, Pu>",
               "Pin<Box<Pn>>", "fn() -> u32", "()", "Pv", "[Pu; {n}]"]
ODD_NAMES = ["dtype", "r#type", "dproject", "d__self", "dresult", "dpin", "dguard", "r#match"]


def fb(f):
    return "f_" + f[0].replace("r#", "")


def decor(n):
    return n.startswith("d") or n.startswith("r#")


class Shape:
    """How one adapter is written in one shard."""

    def __init__(self, ad, r):
        self.ad = ad
        self.fields = {}
        self.shape = {}
        self.lts, self.cn = [], None
        self.unpin = r.choice(["auto", "auto", "auto", "not", "unsafe", "unsafe_noimpl"])
        fixed = ad.name in ("Maybe", "Rec")    # named by other definitions
        if not fixed:
            if r.random() < 0.25:
                self.lts = r.choice([["'x"], ["'pin"], ["'x", "'y"], ["'pin", "'pin_"]])
            if r.random() < 0.2:
                self.cn = r.randrange(0, 4)
        heavy = r.random() < 0.15
        self.pdrop = ad.pdrop
        if not ad.pdrop and not ad.replace and r.random() < 0.3:
            # a destructor of its own that only looks
            self.pdrop = f"tell(30, self.as_ref().peek_self()); adapter_dropped({r.randrange(3, 99)}, 0);"

        def deco(k):
            t = r.choice(PINNED_DECOR if k else PLAIN_DECOR)
            if "{n}" in t and self.cn is None:
                t = "[Pu; 2]"
            return (t.replace("{z}", str(r.randrange(900000, 1000000))).replace("{lt}", r.choice(self.lts or ["'static"]))
                    .replace("{lt2}", f"&{r.choice(self.lts or [chr(39) + 'static'])}").replace("{n}", "N"))

        def fill(fs, most):
            names = [f"d{j}" for j in range(20)]
            if r.random() < 0.2:
                names = r.sample(ODD_NAMES, len(ODD_NAMES)) + names
            for j in range(most):
                k = r.random() < 0.5
                fs.append([names[j], deco(k), "carry()", k])

        for v, fs in ad.variants.items():
            fs = [list(f) for f in fs]
            if fs and ad.decor:
                fill(fs, r.choice([3, 5, 8, 12] if heavy else [0, 0, 1, 1, 2, 3, 4]))
            self.fields[v] = fs
        self.dummies = []
        if ad.kind == "enum" and not fixed:
            for j in range(r.choice([0, 0, 1, 1, 2, 4])):
                n = f"Never{j}"
                self.dummies.append(n)
                self.fields[n] = []
                fill(self.fields[n], r.choice([0, 1, 2, 3]))
        used = " ".join(f[1] for fs in self.fields.values() for f in fs)
        for j, l in enumerate(self.lts):
            if not re.search(re.escape(l) + r"(?!\w)", used):
                v = r.choice([v for v in ad.variants if ad.variants[v]])
                self.fields[v].append([f"dl{j}", f"core::marker::PhantomData<&{l} u8>", "carry()", r.random() < 0.3])
        for v, fs in self.fields.items():
            r.shuffle(fs)
            self.shape[v] = "unit" if not fs else r.choice(["named", "named", "tuple"])
        self.order = list(ad.variants) + self.dummies
        r.shuffle(self.order)
        self.named = ad.kind == "enum" or r.random() < 0.5
        self.where = r.random() < 0.4
        self.args_order = r.random()
        self.r = random.Random(r.random())
        self.attr = {id(f): r.choice(["#[pin] "] * 8 + ["#[cfg_attr(all(), pin)] ", "#[pin] #[allow(dead_code)] ", "#[cfg(all())] #[pin] ", "/** doc */ #[pin] "]) for fs in self.fields.values() for f in fs}
        self.repr = r.choice(["", "", "", "", "", "#[repr(C)]", "#[repr(align(64))]"])


def emit(shapes, r):
    out = ["#![allow(warnings)]", "use core::pin::Pin;", "use core::task::{Context, Poll};", "use core::marker::PhantomData;",
           "use pin_project::{pin_project, pinned_drop, UnsafeUnpin};",
           "use simcore::{choose, Fld, Pa, PaN, Pb, PbN, Pg, PgN, Ph, PhN, Pn, Pni, PniN, Pu, Pv, Py, PyN, Pz, PzN};",
           "use simcore::flow::{adapter_dropped, carry, catching, own_panic, seen, tell, Fx, Lf, Ls, Mk, Sx, Val};"]
    for ad in ADAPTERS:
        for pp in (True, False):
            out.append(one(ad, shapes[ad.name], pp))
    return "\n".join(out) + "\n"


def one(ad, sh, pp):
    pre = "Pp" if pp else "Rf"
    N = f"{pre}{ad.name}"
    PN = {"P": f"{N}Proj", "R": f"{N}Ref", "O": f"{N}Own"}
    params = [p.split(":") for p in ad.params]
    cn = ["const N: usize"] if sh.cn is not None else []
    use = "<" + ", ".join(sh.lts + [p for p, _ in params] + ["N"] * len(cn)) + ">"
    inl = "<" + ", ".join(sh.lts + [f"{p}: {b} + Mk" for p, b in params] + cn) + ">"
    bare = "<" + ", ".join(sh.lts + [p for p, _ in params] + cn) + ">"
    wh = "where " + ", ".join(f"{p}: {b} + Mk" for p, b in params)
    if sh.where:
        g, w = bare, wh
    else:
        g, w = inl, ""

    def ty(t):
        t = t.replace("[[SELF]]", N)
        return re.sub(r"\[\[T (\w+)\]\]", lambda m: f"{pre}{m.group(1)}", t)

    def sub(text):
        return ty(text)

    def pat(which, v, muts=True):
        fs = sh.fields[v]
        base = PN[which] if ad.kind == "struct" else f"{PN[which]}::{v}"
        if sh.shape[v] == "unit":
            return base
        names = []
        for f in fs:
            if decor(f[0]):
                names.append((f[0], "_"))
            elif which == "O" and f[3]:
                names.append((f[0], "_"))
            elif which == "P" and f[3]:
                names.append((f[0], f"mut {f[0]}"))
            else:
                names.append((f[0], f[0]))
        if sh.shape[v] == "tuple":
            return f"{base}({', '.join(b for _, b in names)})"
        return f"{base} {{ {', '.join(b if b.split()[-1] == n else f'{n}: {b}' for n, b in names)} }}"

    def new(v, over):
        fs = sh.fields[v]
        base = N if ad.kind == "struct" else f"{N}::{v}"
        if sh.shape[v] == "unit":
            return base
        es = []
        for n, t, init, pinned in fs:
            e = over.get(n, init)
            e = sub(e)
            if pinned and not pp:
                e = f"Box::pin({e})"
            es.append((n, e))
        if sh.shape[v] == "tuple":
            return f"{base}({', '.join(e for _, e in es)})"
        return f"{base} {{ {', '.join(f'{n}: {e}' for n, e in es)} }}"

    def any_(v):
        return {"unit": "", "tuple": "(..)", "named": "{ .. }"}[sh.shape[v]]

    def expand(text):
        # variants that are never reached
        if sh.dummies:
            def arms(m):
                w = "P" if "project()" in m.group(0) else "R" if "project_ref()" in m.group(0) else "O" if "project_replace(" in m.group(0) else None
                b = "Self" if w is None else PN[w]
                return m.group(0) + " " + " ".join(f"{b}::{v} {any_(v)} => unreachable!()," for v in sh.dummies)
            text = re.sub(r"match (?:self(?:\.as_mut\(\))?\.(?:project\(\)|project_ref\(\)|project_replace\(\[\[[^\]]*\]\]\))|&\*self) \{", arms, text)
        text = re.sub(r"\[\[PAT (\w) (\w+)\]\]", lambda m: pat(m.group(1), m.group(2)), text)

        def nw(m):
            parts = m.group(1).split()
            v = "" if ad.kind == "struct" else parts[0]
            kv = parts if ad.kind == "struct" else parts[1:]
            return new(v, dict(x.split("=", 1) for x in kv))
        text = re.sub(r"\[\[NEW ?([^\]]*)\]\]", nw, text)
        text = re.sub(r"\[\[ANY (\w+)\]\]", lambda m: any_(m.group(1)), text)
        if ad.kind == "struct":
            fs = sh.fields[""]
            tup = sh.shape[""] == "tuple"

            def letproj(which, meth, recv):
                if sh.named:
                    return f"let {pat(which, '')} = {recv}.{meth}();"
                s = f"let this = {recv}.{meth}();"
                for i, f in enumerate(fs):
                    if decor(f[0]):
                        continue
                    s += f" let {'mut ' if which == 'P' and f[3] else ''}{f[0]} = this.{i if tup else f[0]};"
                return s
            text = text.replace("[[PROJ]]", letproj("P", "project", "self.as_mut()"))
            text = text.replace("[[REF]]", letproj("R", "project_ref", "self"))
            po = ""
            for i, f in enumerate(fs):
                if not decor(f[0]) and not f[3]:
                    po += f"let {f[0]} = own.{i if tup else f[0]}; "
            text = text.replace("[[PATOWN]]", po)
        return sub(text)

    L = [f"// @def {ad.name}"] if pp else ["// @reference"]

    def fields_decl(v, f2):
        fs = sh.fields[v]
        tup = sh.shape[v] == "tuple"
        return ", ".join((("" if tup else f"{f[0]}: ") + f2(f)) if not pp else (((sh.attr[id(f)] if f[3] else "") + ("" if tup else f"{f[0]}: ") + f2(f))) for f in fs)

    def store(f):
        t = ty(f[1])
        return t if pp or not f[3] else f"Pin<Box<{t}>>"
    if pp:
        args = []
        if sh.named:
            args += [f"project = {PN['P']}", f"project_ref = {PN['R']}"]
        if ad.replace:
            args.append(f"project_replace = {PN['O']}" if ad.kind == "enum" or sh.named else "project_replace")
        if sh.pdrop:
            args.append("PinnedDrop")
        if sh.unpin == "not":
            args.append("!Unpin")
        if sh.unpin.startswith("unsafe"):
            args.append("UnsafeUnpin")
        if sh.repr:
            L.append(sh.repr)
        random.Random(sh.args_order).shuffle(args)
        L.append(f"#[pin_project({', '.join(args)})]" if args else "#[pin_project]")
    vis = "pub"
    if ad.kind == "struct":
        if sh.shape[""] == "tuple":
            L.append(f"{vis} struct {N}{g}({fields_decl('', store)}) {w};")
        else:
            L.append(f"{vis} struct {N}{g} {w} {{ {fields_decl('', store)} }}")
    else:
        vs = []
        for v in sh.order:
            if sh.shape[v] == "unit":
                vs.append(v)
            elif sh.shape[v] == "tuple":
                vs.append(f"{v}({fields_decl(v, store)})")
            else:
                vs.append(f"{v} {{ {fields_decl(v, store)} }}")
        L.append(f"{vis} enum {N}{g} {w} {{ {', '.join(vs)} }}")
    if pp and sh.unpin == "unsafe":
        L.append(f"unsafe impl{bare} UnsafeUnpin for {N}{use} {wh}, {params[0][0]}: ::core::marker::Unpin {{}}")
    if not pp:
        # hand-written projections over boxed children
        L.append(f"impl{g} Unpin for {N}{use} {w} {{}}")
        lg = "<'p, " + g[1:]
        if sh.lts:
            lg = "<'p, " + ", ".join(f"{l}: 'p" for l in sh.lts) + g[1 + len(", ".join(sh.lts)):]
        lu = "<'p, " + use[1:]

        def decl(which):
            def f2(f):
                t = ty(f[1])
                if which == "P":
                    return f"Pin<&'p mut {t}>" if f[3] else f"&'p mut {t}"
                if which == "R":
                    return f"Pin<&'p {t}>" if f[3] else f"&'p {t}"
                return f"PhantomData<{t}>" if f[3] else t
            gg = lg if which != "O" else g
            if ad.kind == "struct":
                if sh.shape[""] == "tuple":
                    return f"struct {PN[which]}{gg}({fields_decl('', f2)}) {w};"
                return f"struct {PN[which]}{gg} {w} {{ {fields_decl('', f2)} }}"
            vs = []
            for v in sh.order:
                if sh.shape[v] == "unit":
                    vs.append(v)
                elif sh.shape[v] == "tuple":
                    vs.append(f"{v}({fields_decl(v, f2)})")
                else:
                    vs.append(f"{v} {{ {fields_decl(v, f2)} }}")
            return f"enum {PN[which]}{gg} {w} {{ {', '.join(vs)} }}"

        def allpat(base, v):
            fs = sh.fields[v]
            if sh.shape[v] == "unit":
                return base
            if sh.shape[v] == "tuple":
                return f"{base}({', '.join(fb(f) for f in fs)})"
            return f"{base} {{ {', '.join(f'{f[0]}: {fb(f)}' for f in fs)} }}"

        def build(base, v, fn):
            fs = sh.fields[v]
            if sh.shape[v] == "unit":
                return base
            if sh.shape[v] == "tuple":
                return f"{base}({', '.join(fn(f) for f in fs)})"
            return f"{base} {{ {', '.join(f'{f[0]}: {fn(f)}' for f in fs)} }}"
        L += [decl("P"), decl("R")]
        vp = lambda b, v: b if ad.kind == "struct" else f"{b}::{v}"
        arms = lambda which, fn: " ".join(f"{allpat(vp(N, v), v)} => {build(vp(PN[which], v), v, fn)}," for v in sh.order)
        L.append(f"impl{g} {N}{use} {w} {{")
        L.append(f"fn project<'p>(self: Pin<&'p mut Self>) -> {PN['P']}{lu} {{ match self.get_mut() {{ {arms('P', lambda f: fb(f) + '.as_mut()' if f[3] else fb(f))} }} }}")
        L.append(f"fn project_ref<'p>(self: Pin<&'p Self>) -> {PN['R']}{lu} {{ match self.get_ref() {{ {arms('R', lambda f: fb(f) + '.as_ref()' if f[3] else fb(f))} }} }}")
        if ad.replace:
            a = []
            for v in sh.order:
                fs = sh.fields[v]
                own = build(vp(PN["O"], v), v, lambda f: "PhantomData" if f[3] else fb(f))
                dr = "".join(f"{fb(f)}, " for f in fs if f[3])
                a.append(f"{allpat(vp(N, v), v)} => {{ let own = {own}; drop(({dr})); own }}")
            L.append(f"fn project_replace(mut self: Pin<&mut Self>, new: Self) -> {PN['O']}{use} {{ let old = core::mem::replace(&mut *self, new); match old {{ {' '.join(a)} }} }}")
        L.append("}")
        if ad.replace:
            L.append(decl("O"))
    # construction
    first = list(ad.variants)[0]
    if ad.starts:
        make = f"match choose({len(ad.starts)}) {{ " + ", ".join(f"{i if i + 1 < len(ad.starts) else '_'} => {new(v, {})}" for i, v in enumerate(ad.starts)) + " }"
    else:
        make = new(first, {})
    L.append(f"impl{inl} Mk for {N}{use} {{ fn mk() -> Self {{ {make} }} }}")
    # behaviour
    if pp:
        L.append(f"// @use {ad.name}")
    ret, m = ("Poll<Val>", "poll") if ad.trait == "Fx" else ("Poll<Option<Val>>", "poll_next")
    L.append(f"impl{inl} {ad.trait} for {N}{use} {{")
    L.append(f"fn {m}(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> {ret} {{ {expand(ad.poll)} }}")
    L.append(f"fn peek(self: Pin<&Self>) -> u32 {{ {expand(ad.peek)} }}")
    L.append("}")
    if sh.pdrop:
        L.append(f"impl{g} {N}{use} {w} {{ fn peek_self(self: Pin<&Self>) -> u32 {{ {ad.trait}::peek(self) }} }}")
        if pp:
            L.append(f"// @pinned_drop {ad.name}")
            L.append(f"#[pinned_drop]\nimpl{g} PinnedDrop for {N}{use} {w} {{ fn drop(mut self: Pin<&mut Self>) {{ {expand(sh.pdrop)} }} }}")
        else:
            body = expand(sh.pdrop)
            L.append(f"impl{g} Drop for {N}{use} {w} {{ fn drop(&mut self) {{ fn inner{inl}(mut this_: Pin<&mut {N}{use}>) {{ this_.as_mut().drop_body() }} inner(Pin::new(self)) }} }}")
            L.append(f"impl{g} {N}{use} {w} {{ fn drop_body(mut self: Pin<&mut Self>) {{ {body} }} }}")
    if ad.name == "Maybe":
        L.append(f"impl{inl} {N}{use} {{")
        L.append(f"fn is_done(self: &Pin<&mut Self>) -> bool {{ matches!(&**self, Self::Done {any_('Done')}) }}")
        L.append(expand("""fn take_done(mut self: &mut Pin<&mut Self>) -> Val { match self.as_mut().project_replace([[NEW Gone]]) { [[PAT O Done]] => v, _ => unreachable!() } }"""))
        L.append("}")
    return "\n".join(L)


def tree(r, depth, kind="Fx"):
    """A random tree of adapters: a nested tuple (name, children...) or a leaf."""
    if depth == 0 or r.random() < 0.12:
        if kind == "Fx":
            return ("Lf", r.choice([0, 1, 3, 5, 17]))
        return ("Ls", r.choice([0, 1, 2, 9]))
    c = [a for a in ADAPTERS if a.trait == kind and a.name not in ("Maybe",)]
    a = r.choice(c)
    return (a.name,) + tuple(tree(r, depth - 1, p.split(":")[1]) for p in a.params)


def ty_of(t, pre, shapes):
    if t[0] in ("Lf", "Ls"):
        return f"{t[0]}<{t[1]}>"
    sh = shapes[t[0]]
    a = ["'static"] * len(sh.lts) + [ty_of(c, pre, shapes) for c in t[1:]] + ([str(sh.cn)] if sh.cn is not None else [])
    return f"{pre}{t[0]}<{', '.join(a)}>"


def name_of(t):
    if t[0] in ("Lf", "Ls"):
        return f"{t[0]}{t[1]}"
    return f"{t[0]}({','.join(name_of(c) for c in t[1:])})"


def size_of(t):
    if t[0] in ("Lf", "Ls"):
        return 1
    return 1 + sum(size_of(c) for c in t[1:]) * (3 if t[0] == "Seq" else 2 if t[0] in ("Swap", "Swallow", "Machine", "Many") else 1)


def build_flows(seed, prop, shard, n_trees, maxdepth=3):
    r = random.Random(f"{seed}:flow:{prop}:{shard}")
    shapes = {a.name: Shape(a, r) for a in ADAPTERS}
    trees = []
    # every adapter at least once at the root of a small tree, then random trees
    for a in ADAPTERS:
        if a.trait == "Fx" and a.name != "Maybe" and len(trees) < n_trees:
            trees.append((a.name,) + tuple(tree(r, 1, p.split(":")[1]) for p in a.params))
    guard = 0
    while len(trees) < n_trees and guard < 1000:
        guard += 1
        t = tree(r, r.randint(1, maxdepth), "Fx")
        if size_of(t) <= 40 and t[0] not in ("Lf", "Ls"):
            trees.append(t)
    text = emit(shapes, r)
    ents = []
    for t in trees:
        ents.append(f'        simcore::flow::FlowEntry {{ name: "{name_of(t)}", pp: || Box::pin(<{ty_of(t, "Pp", shapes)} as Mk>::mk()), rf: || Box::pin(<{ty_of(t, "Rf", shapes)} as Mk>::mk()) }},')
    text += "// @end\npub fn entries() -> Vec<simcore::flow::FlowEntry> {\n    vec![\n" + "\n".join(ents) + "\n    ]\n}\n"
    return text, [name_of(t) for t in trees]
