"""Seeded generator of pin-projected type definitions and of the glue that lets the simulator drive them.

The generator knows the documented meaning of a definition (which fields are pinned, when the type may
be moved, what its destructor body does); it contains no copy of pin-project's code.
"""
import random
import re

# ---------------------------------------------------------------------------- field types


class Ty:
    """A field type: how it is written in the definition, and per instance what it stands for."""

    def __init__(self, src, conc, unpin, weight=1, dst=False, generic=False):
        self.src = src          # text in the definition
        self.conc = conc        # inst -> concrete text (valid at crate::tN scope)
        self.unpin = unpin      # inst -> bool
        self.dst = dst
        self.generic = generic
        self.weight = weight    # rough number of leaves

    def unpin_always(self):
        return not self.generic and not self.dst and self.unpin(None)


def conc(text, unpin, w=1):
    return Ty(text, lambda i: text, lambda i: unpin, w)


LEAVES = [("Pu", True), ("Pn", False), ("Pb", True), ("PbN", False), ("Pa", True), ("PaN", False),
          ("Pni", True), ("PniN", False), ("Ph", True), ("PhN", False), ("Py", True), ("PyN", False), ("Pt", True), ("PtN", False), ("Pd", True), ("PdN", False)]
ASSOC = {"Pu": ("Pni", True), "Pn": ("Pb", True), "Pb": ("Pu", True), "PbN": ("Pn", False), "Pa": ("Pn", False),
         "PaN": ("Pu", True), "Pni": ("PniN", False), "PniN": ("Pni", True), "Ph": ("PhN", False), "PhN": ("Ph", True),
         "Py": ("PyN", False), "PyN": ("Py", True), "Pg": ("Pu", True), "PgN": ("Pn", False),
         "Pt": ("PtN", False), "PtN": ("Pt", True), "Pd": ("Pn", False), "PdN": ("Pu", True)}
UNP = dict(LEAVES)

FIELD_NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "fut", "state", "inner", "value", "this",
               "result", "guard", "new", "pin", "ptr", "replacement", "self_", "r#type", "r#fn", "r#match", "_hidden",
               "__priv", "project", "drop", "r#in", "r#ref", "tail", "head", "len", "left", "right", "slot", "extra", "ctx", "größe", "ñ"]
VARIANT_NAMES = ["A", "B", "C", "D", "E", "F", "First", "Second", "Done", "Some", "None", "Ok", "Err", "Pin", "Start",
                 "Own", "Ref", "Gone", "Pending", "Ready", "V1", "V2", "r#Type", "Empty"]


class Field:
    def __init__(self, name, pinned, ty, vis="", pre=None, style=0):
        self.name, self.pinned, self.ty, self.vis = name, pinned, ty, vis
        self.pre = pre or []
        self.style = style


class Variant:
    def __init__(self, name, shape, fields):
        self.name, self.shape, self.fields = name, shape, fields  # shape: named | tuple | unit


class Inst:
    def __init__(self, args):
        self.args = args  # param name -> (text, unpin)


class TypeDef:
    pass


class Gen:
    def __init__(self, seed, shard, prop, id0):
        self.r = random.Random(f"{seed}:{prop}:{shard}")
        self.prop = prop
        self.shard = shard
        self.next_id = id0
        self.zk = 0
        self.bulky = False
        self.done = []   # finished types, may be nested

    # ------------------------------------------------------------------ choice helpers
    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    # ------------------------------------------------------------------ types
    def leaf_ty(self):
        r = self.r.random()
        if self.bulky and r < 0.8:
            n, u = self.pick([("Pb", True), ("PbN", False), ("Pg", True), ("PgN", False), ("PaN", False)])
            t = conc(n, u)
            k = self.pick([1, 1, 2, 3])
            return t if k == 1 else Ty(f"[{t.src}; {k}]", lambda i: f"[{t.conc(i)}; {k}]", t.unpin, t.weight * k)
        if r < 0.55:
            n, u = self.pick([("Pu", True), ("Pn", False), ("Pu", True), ("Pn", False), ("Ph", True), ("PhN", False)])
            if self.p(0.02):
                return Ty(self.pick(["simcore::", "::simcore::"]) + n, lambda i: n, lambda i: u, 1)
            return conc(n, u)
        if r < 0.80:
            n, u = self.pick(LEAVES + [("Pg", True), ("PgN", False)])
            return conc(n, u)
        if r < 0.90:
            self.zk += 1
            if self.p(0.5):
                return conc(f"Pz<{self.shard * 1000 + self.zk}>", True)
            return conc(f"PzN<{self.shard * 1000 + self.zk}>", False)
        if r < 0.93:
            return conc("Pv", True, 0)
        if r < 0.95:
            if self.p(0.3) and not any(l.startswith("'pin") for l in getattr(self, "cur_lts", None) or []):
                # a binder of the field's own, named as the lifetime the expansion would pick
                t = self.pick(["for<'pin> fn(&'pin u8)", "for<'pin> fn(&'pin u8) -> &'pin u8", "Box<dyn for<'pin> Fn(&'pin u8) + Send + Sync>"])
                t = conc(f"::core::marker::PhantomData<{t}>", True, 0)
                t.generic = True
                return t
            return conc("fn() -> u32", True, 0)
        if r < 0.97:
            return conc("&'static Stat", True, 0)
        if r < 0.975:
            return conc("()", True, 0)
        if r < 0.985:
            return conc("Box<dyn simcore::FldObj>", True)
        return conc(self.pick(["core::marker::PhantomPinned", "PhantomPinned"]), False, 0)

    def wrap(self, t):
        w = self.wrap1(t)
        w.generic = w.generic or t.generic
        return w

    def wrap1(self, t):
        k = self.r.randrange(15)
        if k == 12:
            u, v = self.leaf_ty(), self.leaf_ty()
            return Ty(f"({u.src}, {t.src}, {v.src})", lambda i: f"({u.conc(i)}, {t.conc(i)}, {v.conc(i)})", lambda i: t.unpin(i) and u.unpin(i) and v.unpin(i), t.weight + u.weight + v.weight)
        if k == 13:
            n = self.pick(["{ 1 + 1 }", "{ if true { 2 } else { 3 } }", "1 + 1", "K2"])
            return Ty(f"[{t.src}; {n}]", lambda i: f"[{t.conc(i)}; 2]", t.unpin, t.weight * 2)
        if k == 14:
            lt = self.pick(getattr(self, "cur_lts", None) or ["'static"])
            return Ty(f"simcore::Lt<{lt}, {t.src}>", lambda i: f"simcore::Lt<'static, {t.conc(i)}>", t.unpin, t.weight, generic=t.generic or lt != "'static")
        if k == 0:
            return Ty(f"Option<{t.src}>", lambda i: f"Option<{t.conc(i)}>", t.unpin, t.weight)
        if k == 1:
            u = self.leaf_ty()
            return Ty(f"({t.src}, {u.src})", lambda i: f"({t.conc(i)}, {u.conc(i)})", lambda i: t.unpin(i) and u.unpin(i), t.weight + u.weight)
        if k == 2:
            n = self.r.randrange(1, 4)
            return Ty(f"[{t.src}; {n}]", lambda i: f"[{t.conc(i)}; {n}]", t.unpin, t.weight * n)
        if k == 3:
            return Ty(f"Box<{t.src}>", lambda i: f"Box<{t.conc(i)}>", lambda i: True, t.weight)
        if k == 4:
            return Ty(f"::core::pin::Pin<Box<{t.src}>>", lambda i: f"::core::pin::Pin<Box<{t.conc(i)}>>", lambda i: True, t.weight)
        if k == 5:
            return Ty(f"Vec<{t.src}>", lambda i: f"Vec<{t.conc(i)}>", t.unpin, t.weight)
        if k == 6:
            return Ty(f"::core::marker::PhantomData<{t.src}>", lambda i: f"::core::marker::PhantomData<{t.conc(i)}>", t.unpin, 0)
        if k == 7:
            return Ty(f"({t.src})", t.conc, t.unpin, t.weight)
        if k == 8:
            return Ty(f"simcore::ident_ty!({t.src})", t.conc, t.unpin, t.weight) if not t.generic else t
        if k == 9:
            return Ty(f"std::option::Option<{t.src}>", lambda i: f"Option<{t.conc(i)}>", t.unpin, t.weight)
        return t

    def nested_ty(self):
        c = [t for t in self.done if t.nestable]
        if not c:
            return None
        t = self.pick(c)
        k = self.r.randrange(len(t.insts))
        text = t.conc_path(k)
        u = t.movable(k)
        return Ty(text, lambda i: text, lambda i: u, t.weight)

    # ------------------------------------------------------------------ one definition
    def type_def(self, **want):
        d = TypeDef()
        d.id = self.next_id
        self.bulky = self.p(0.06)
        self.next_id += 1
        d.shard = self.shard
        kind = want.get("kind") or ("enum" if self.p(0.42) else "struct")
        d.kind = kind
        d.name = self.pick(["Task", "Node", "Proj", "Foo", "Both", "Slot", "St", "Flow", "Cell2", "Holder"]) + str(d.id)
        if self.p(0.02):
            d.name = f"r#type{d.id}"
        pdrop = want.get("pdrop")
        if pdrop is None:
            pdrop = self.p(0.25)
        repl = want.get("repl")
        if repl is None:
            repl = self.p(0.5)
        if pdrop:
            repl = False
        dst = want.get("dst")
        if dst is None:
            dst = kind == "struct" and not repl and self.p(0.06)
        if kind == "enum" or repl:
            dst = False
        d.dst = dst
        d.pdrop, d.repl = pdrop, repl
        d.unpin_mode = want.get("unpin") or self.pick(["auto"] * 7 + ["not", "unsafe", "unsafe_noimpl"])
        # generics
        d.params = []      # (kind, name, inline bounds, where bound)
        d.lifetimes = []
        need_fld = pdrop
        n_tp = want.get("tp")
        if n_tp is None:
            n_tp = self.pick([0, 0, 1, 1, 2, 3, 5])
        if dst:
            n_tp = max(n_tp, 1)
        names = self.pick([["T", "U", "V"], ["Fut", "Item", "S"], ["A", "B", "C"], ["T1", "T2", "T3"], ["Pin", "Unpin", "Drop"],
                           ["Result", "Sized", "X"]])
        if pdrop or dst:
            names = self.pick([["T", "U", "V"], ["Fut", "Item", "S"], ["A", "B", "C"]])
        names = names + ["More1", "More2"]
        for i in range(n_tp):
            inline, where = [], []
            if dst and i == n_tp - 1:
                inline.append("?Sized")
            if need_fld or self.p(0.3):
                b = "simcore::FldObj" if dst and i == n_tp - 1 else "simcore::Fld"
                (inline if self.p(0.6) else where).append(b)
            if self.p(0.12):
                where.append("'static")
            if self.p(0.1):
                where.append("Send + Sync" if not inline or self.p(0.5) else "Send")
            d.params.append(["type", names[i], inline, where])
        d.assoc_param = None
        if n_tp and not dst and self.p(0.15):
            k = self.r.randrange(n_tp)
            d.params[k][2].append("simcore::Assoc")
            d.assoc_param = d.params[k][1]
        d.const_param = None
        cp = want.get("cp")
        if self.p(0.1) if cp is None else cp:
            d.const_param = "N"
        d.const_b = self.p(0.05)
        # a parameter that need not be sized, used behind a pointer or a marker
        d.usz = None
        if self.p(0.06) and not dst and "Sized" not in names:
            d.usz = self.pick(["?Sized", "?Sized", "where"]) if not pdrop else "?Sized + ::core::marker::Send + ::core::marker::Sync"
        one = [["'a"], ["'pin"], ["'pin_"], ["'__pin"], ["'this"]]
        two = [["'a", "'b"], ["'pin", "'pin_"], ["'b", "'a"], ["'a", "'pin"]]
        lts = want.get("lts")
        if lts is None:
            lts = self.pick([1, 1, 2]) if self.p(0.18) or want.get("lt") else 0
        if lts:
            d.lifetimes = list(self.pick({1: one, 2: two, 3: [["'a", "'b", "'c"], ["'pin", "'a", "'x"]]}[lts]))
        self.cur_lts = d.lifetimes
        d.lt_bound = len(d.lifetimes) > 1 and self.p(0.3)
        # further predicates; all of them hold for every instance
        d.preds = []
        wr = want.get("preds")
        if self.p(0.15) if wr is None else wr:
            pool = []
            for k, n, inl, wh in d.params:
                if dst and n == d.params[-1][1]:
                    pool.append(f"Box<{n}>: ::core::marker::Sized")
                    continue
                pool += [f"::core::option::Option<{n}>: ::core::marker::Sized", f"for<'q> &'q {n}: ::core::marker::Send", f"[{n}; 1]: ::core::marker::Sync"]
                pool += [f"{n}: {l}" for l in d.lifetimes]
            if not dst:
                pool += ["Self: ::core::marker::Sized"]
            if d.const_param:
                pool += ["[(); N]: ::core::marker::Sized"]
            if len(d.lifetimes) > 1:
                pool += [f"{d.lifetimes[0]}: {d.lifetimes[1]}"]
            if pool:
                d.preds = self.r.sample(pool, min(len(pool), self.pick([1, 1, 2])))
        # palette
        base = []
        for k, n, inl, wh in d.params:
            if dst and n == d.params[-1][1]:
                continue
            base.append(Ty(n, (lambda n: lambda i: i.args[n][0])(n), (lambda n: lambda i: i.args[n][1])(n), 1, generic=True))
        if d.assoc_param:
            ap = d.assoc_param
            txt = self.pick([f"<{ap} as simcore::Assoc>::Out", f"{ap}::Out"])
            base.append(Ty(txt, lambda i: f"<{i.args[ap][0]} as simcore::Assoc>::Out", lambda i: ASSOC[i.args[ap][0]][1], 1, generic=True))
        if d.const_param and base:
            b0 = base[0]
            base.append(Ty(f"[{b0.src}; N]", lambda i: f"[{b0.conc(i)}; {i.args['N'][0]}]", b0.unpin, 2, generic=True))
        elif d.const_param:
            base.append(Ty("[Pu; N]", lambda i: f"[Pu; {i.args['N'][0]}]", lambda i: True, 2, generic=True))
        if d.usz:
            base.append(Ty("::core::marker::PhantomData<Z>", lambda i: f"::core::marker::PhantomData<{i.args['Z'][0]}>", lambda i: i.args["Z"][1], 0, generic=True))
            if not pdrop:
                base.append(Ty("Box<Z>", lambda i: f"Box<{i.args['Z'][0]}>", lambda i: True, 1, generic=True))
        for lt in d.lifetimes:
            base.append(Ty(f"&{lt} Stat", lambda i: "&'static Stat", lambda i: True, 0, generic=True))
        pal = []
        for _ in range(self.pick([1, 2, 2, 3, 4])):
            t = self.pick(base) if base and self.p(0.5) else self.leaf_ty()
            if self.p(0.3):
                t = self.wrap(t)
            pal.append(t)
        d.recursive = False
        # fields
        def mkty():
            q = self.r.random()
            if q < 0.1 and not want.get("flat"):
                t = self.nested_ty()
                if t and t.weight < 12:
                    return t
            if q < 0.15:
                return self.wrap(self.leaf_ty())
            if base and q < 0.35:
                return self.pick(base)
            return self.pick(pal)

        def mkfields(n, shape, prate):
            names = self.r.sample(FIELD_NAMES, min(n, len(FIELD_NAMES)))
            while len(names) < n:
                names.append(f"more{len(names)}")
            out = []
            for i in range(n):
                vis = self.pick(["", "", "", "pub ", "pub(crate) ", "pub(super) "]) if kind == "struct" else ""
                pre = []
                if self.p(0.06):
                    pre.append("/// A documented field.")
                if self.p(0.06):
                    pre.append("#[cfg(all())]")
                if self.p(0.04):
                    pre.append("#[allow(dead_code)]")
                f = Field(names[i] if shape == "named" else str(i), self.p(prate), mkty(), vis, pre)
                if self.p(0.05):
                    f.style = 1  # pin given through cfg_attr
                elif self.p(0.1):
                    f.style = 2  # #[pin] before the other attributes
                out.append(f)
            return out

        prate = self.pick([0.2, 0.5, 0.5, 0.8])
        sizes = want.get("sizes") or [1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 12, 17, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 11, 14, 34]
        # now and then something outsized
        extreme = want.get("extreme")
        if extreme == "many" and kind == "struct":
            sizes = [35, 45, 66, 70]
        if kind == "struct":
            shape = want.get("shape") or ("tuple" if self.p(0.33) else "named")
            d.variants = [Variant(d.name, shape, mkfields(self.pick(sizes), shape, prate))]
        else:
            nv = want.get("nv") or self.pick([1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8, 11])
            if extreme == "many":
                nv = self.pick([17, 20, 33, 40])
            vn = self.r.sample(VARIANT_NAMES, min(nv, 20))
            vn += [f"W{i}" for i in range(nv - len(vn))]
            d.variants = []
            for i in range(nv):
                if i and d.variants[-1].shape != "unit" and self.p(0.45):
                    o = d.variants[-1]
                    fs = [Field(f.name, f.pinned if self.p(0.9) else not f.pinned, f.ty, "", [], f.style if f.style != 1 else 0) for f in o.fields]
                    d.variants.append(Variant(vn[i], o.shape, fs))
                    continue
                if i >= 15 and self.p(0.5):
                    # late variants with neighbours of one type
                    shape, t = self.pick(["named", "tuple", "tuple"]), mkty()
                    fs = mkfields(self.pick([2, 3, 4]), shape, prate)
                    for f in fs[:2]:
                        f.ty, f.pinned = t, fs[0].pinned
                    d.variants.append(Variant(vn[i], shape, fs))
                    continue
                shape = self.pick(["named", "named", "tuple", "tuple", "unit"])
                n = 0 if shape == "unit" else self.pick([s for s in sizes if s < 9] or [1, 2, 3])
                if shape != "unit" and self.p(0.05):
                    n = 0
                d.variants.append(Variant(vn[i], shape, mkfields(n, shape, prate)))
            if not any(v.fields for v in d.variants):
                d.variants[0].shape = "named"
                d.variants[0].fields = mkfields(2, "named", prate)
        allf = [f for v in d.variants for f in v.fields]
        if not any(f.pinned for f in allf) and self.p(0.8):
            self.pick(allf).pinned = True
        if len(allf) > 1 and all(f.pinned for f in allf) and self.p(0.5):
            self.pick(allf).pinned = False
        # exactly one pinned field that must not move, anywhere
        pf = [f for f in allf if f.pinned]
        if pf and self.p(0.3 if self.prop == "C06" else 0.04):
            if self.p(0.3):
                for f in allf:
                    f.pinned = f.pinned or self.p(0.7)
                pf = [f for f in allf if f.pinned]
            for f in pf:
                while not f.ty.unpin_always():
                    f.ty = self.leaf_ty()
                    if self.p(0.3):
                        f.ty = self.wrap(f.ty)
            f = self.pick(pf[len(pf) // 2:]) if self.p(0.6) else self.pick(pf)
            tp = [b for b in base if b.generic and b.weight]
            f.ty = self.pick(tp) if tp and self.p(0.4) else conc(*self.pick([("Pn", False), ("PhN", False), ("PaN", False), ("PbN", False), ("PtN", False), ("PdN", False), ("core::marker::PhantomPinned", False), ("PhantomPinned", False)]))
            if self.p(0.2):
                f.ty = self.wrap(f.ty)
        if extreme in ("vast", "page"):
            n, u = self.pick({"vast": [("Pq", True), ("PqN", False)], "page": [("Pw", True), ("PwN", False)]}[extreme])
            f = self.pick([f for f in allf if f.pinned] or allf) if self.p(0.8) else self.pick(allf)
            f.ty = conc(n, u)
        # recursion
        plainp = not d.params and not d.lifetimes and not d.const_param and not d.const_b and not d.usz
        if not dst and (plainp or not pdrop) and self.p(0.06):
            f = self.pick(allf)
            me = d

            def mine(i):
                a = ["'static"] * len(me.lifetimes) + [i.args[n][0] for _, n, _, _ in me.params] + ([i.args["Z"][0]] if me.usz else []) + ([i.args["N"][0]] if me.const_param else []) + ([i.args["B2"][0]] if me.const_b else [])
                return me.name + (f"<{', '.join(a)}>" if a else "")
            form, w = self.pick([("Option<::core::pin::Pin<Box<Self>>>", 3)] * 4 + [
                ("::core::marker::PhantomData<fn(&Self) -> u8>", 0), ("::core::marker::PhantomData<[fn(Self) -> Option<Box<Self>>; 2]>", 0),
                ("simcore::ident_ty!(::core::marker::PhantomData<Option<Box<Self>>>)", 0), ("(::core::marker::PhantomData<Box<Self>>, Pv)", 0)])
            plain = form[len("simcore::ident_ty!("):-1] if form.startswith("simcore") else form
            f.ty = Ty(form, lambda i: plain.replace("Self", mine(i)), lambda i: True, w, generic=True)
            d.recursive = True
            d.preds = [x for x in d.preds if not x.startswith("Self")]
        # a field whose type is reached through Self
        d.self_ty = None
        if not dst and not d.recursive and self.p(0.06):
            f = self.pick(allf)
            d.self_ty = lt = self.leaf_ty()
            d.preds = [x for x in d.preds if not x.startswith("Self")]
            f.ty = Ty(self.pick(["<Self as crate::HasF>::F", "<Self as crate::HasF>::F", "Option<<Self as crate::HasF>::F>"]), None, lt.unpin, lt.weight, generic=True)
            f.ty.conc = (lambda i: f"Option<{lt.conc(i)}>") if f.ty.src.startswith("O") else lt.conc
            d.self_field = f
        # unsized tail
        if dst:
            dp = d.params[-1][1]
            t = Ty(dp, lambda i: i.args[dp][0], lambda i: i.args[dp][1], 1, dst=True, generic=True)
            if not pdrop and self.p(0.25):
                t = Ty(f"simcore::Tail<{dp}>", lambda i: f"simcore::Tail<{i.args[dp][0]}>", lambda i: i.args[dp][1], 1, dst=True, generic=True)
            last = d.variants[0].fields[-1]
            last.ty = t
            if last.style == 1:
                last.style = 0
        # every parameter must be used
        used = " ".join(f.ty.src for f in allf)
        def uses(n):
            return re.search(r"(?<![\w':])" + re.escape(n) + r"(?!\w)", used)
        tail = d.variants[0]
        missing = [n for k, n, a, b in d.params if not uses(n)]
        missing_l = [l for l in d.lifetimes if not uses(l)]
        extra = []
        for n in missing:
            extra.append((lambda n: Ty(f"::core::marker::PhantomData<{n}>", lambda i: f"::core::marker::PhantomData<{i.args[n][0]}>", lambda i: i.args[n][1], 0))(n))
        for l in missing_l:
            extra.append(Ty(f"::core::marker::PhantomData<&{l} ()>", lambda i: "::core::marker::PhantomData<&'static ()>", lambda i: True, 0))
        if d.usz and not uses("Z"):
            extra.append(Ty("::core::marker::PhantomData<Z>", lambda i: f"::core::marker::PhantomData<{i.args['Z'][0]}>", lambda i: i.args["Z"][1], 0))
        if d.const_param and not uses("N"):
            extra.append(Ty("::core::marker::PhantomData<[(); N]>", lambda i: f"::core::marker::PhantomData<[(); {i.args['N'][0]}]>", lambda i: True, 0))
        for j, t in enumerate(extra):
            if tail.shape == "unit":
                tail.shape = "named"
            f = Field(f"used{j}", self.p(0.3), t)
            tail.fields.insert(0, f)
        if tail.shape == "tuple":
            for j, f in enumerate(tail.fields):
                f.name = str(j)
        # removed fields (cfg'd out): never part of the type
        d.ghost = None
        if self.p(0.06) and tail.shape == "named" and not dst:
            d.ghost = self.r.randrange(len(tail.fields) + 1)
        # instances
        d.insts = []
        n_inst = 2 if d.params or d.usz else 1
        for j in range(n_inst):
            args = {}
            for k, n, inl, wh in d.params:
                t, u = self.pick(LEAVES) if self.p(0.4) else (("Pu", True) if (j + self.r.randrange(2)) % 2 == 0 else ("Pn", False))
                if dst and n == d.params[-1][1] and self.p(0.4):
                    t = f"[{t}; {self.r.randrange(0, 4)}]"
                args[n] = (t, u)
            if d.const_param:
                args["N"] = (str(self.r.randrange(0, 4)), True)
            if d.usz:
                args["Z"] = self.pick([("dyn simcore::FldObj", False)] + ([] if any("Box<Z>" in f.ty.src for f in allf) else [("str", True), ("[Pn]", False), ("[Pu]", True)]))
            if d.const_b:
                args["B2"] = (self.pick(["true", "false"]), True)
            d.insts.append(Inst(args))
        if len(d.insts) == 2 and d.params and all(d.insts[0].args[n][0] == d.insts[1].args[n][0] for _, n, _, _ in d.params):
            n = d.params[0][1]
            d.insts[0].args[n] = ("Pu", True)
            d.insts[1].args[n] = ("Pn", False)
        if len(d.insts) == 2 and d.insts[0].args == d.insts[1].args:
            d.insts.pop()
        # names of projection types
        d.proj = d.pref = d.pown = None
        if kind == "enum":
            q = self.r.random()
            d.proj = f"P{d.id}" if q > 0.03 else None
            d.pref = f"R{d.id}" if q > 0.06 else None
            if repl:
                d.pown = f"O{d.id}"
        else:
            if self.p(0.5):
                d.proj = self.pick([f"{d.name.replace('r#', '')}Proj", f"P{d.id}"])
            if self.p(0.5):
                d.pref = f"R{d.id}"
            if repl and self.p(0.6):
                d.pown = f"O{d.id}"
        d.has_project = kind == "struct" or d.proj is not None
        d.has_ref = kind == "struct" or d.pref is not None
        # UnsafeUnpin impl
        d.uu = None
        if d.unpin_mode == "unsafe":
            ps = [n for k, n, a, b in d.params if not (dst and n == d.params[-1][1])]
            if ps and self.p(0.6):
                d.uu = [n for n in ps if self.p(0.6)] or ps[:1]
            else:
                d.uu = []
        d.repr = None
        if self.p(0.1):
            d.repr = self.pick(["C", "C", "align(32)"]) if kind == "struct" or self.p(0.5) else self.pick(["u8", "C", "i64"])
            if d.repr in ("u8", "i64") and kind == "enum":
                pass
        d.where_ = want.get("where") or self.pick(["module", "module", "module", "module", "fn", "macro", "submod"])
        if dst or d.recursive:
            d.where_ = "module"
        d.deco = self.r.getrandbits(32)
        d.weight = max((sum(f.ty.weight for f in v.fields) for v in d.variants), default=1) + 1
        d.extreme = extreme
        d.nestable = not extreme and d.where_ == "module" and not dst and not d.recursive and d.weight < 10
        d.body = self.body(d) if pdrop else None
        self.done.append(d)
        return d

    # ------------------------------------------------------------------ destructor bodies
    def body(self, d):
        r = self.r
        mk = d.id * 1000 + 1
        snips = []   # (code, [mark expr per variant] | mark list)
        nv = len(d.variants)
        k = d.id * 1000 + 10

        def const_marks(ms):
            return [list(ms) for _ in range(nv)]
        pats = []
        for v in d.variants:
            if d.kind == "struct":
                pats.append("Self { .. }")
            else:
                pats.append({"unit": f"Self::{v.name}", "tuple": f"Self::{v.name}(..)", "named": f"Self::{v.name} {{ .. }}"}[v.shape])
        sized = not d.dst
        opts = ["turbofish", "gencall", "closty", "ufcs", "nestpat", "guard", "fieldpat", "fieldmac", "castself", "whileself", "tuplemac", "optself", "arrself", "macfn", "macselfdef", "qself", "helperself", "closures", "unsafe", "question", "genfn", "stringself", "identlike", "constitem", "nestmod",
                "loctrait", "vecself", "tuplepat", "asstype", "letelse", "whilelet", "callself", "structlit",
                "const", "closure", "nestfn", "nestimpl", "macro", "trait", "method", "loop", "macself", "clo_self", "size", "fnptr",
                "twice", "cfgstmt", "emptystmt", "constblk", "asyncblk", "labelblk", "moveclo", "update", "range", "bracemac", "innerdrop", "nestret", "matchtail", "letmany", "rawstr", "refpat", "orpat",
                "label", "nestgen", "format", "blockself", "shadow", "refself", "mutate", "ifmatch", "asyncless"]
        if d.kind == "enum":
            opts += ["match"] * 4
        else:
            opts += ["matchs"]
        for _ in range(r.randrange(0, 7)):
            o = r.choice(opts)
            if o == "fnptr" and d.lifetimes:
                continue
            if o in ("size", "fnptr") and not sized:
                continue
            k += 10
            v0 = d.variants[0]
            nf = [f for f in v0.fields if not f.ty.dst] if d.kind == "struct" and v0.shape == "named" else []
            if o in ("turbofish", "optself") and not sized or o in ("fieldpat", "fieldmac") and not nf:
                continue
            if o == "turbofish":
                snips.append((f"simcore::mark(Vec::<Self>::new().len() as u32 + core::mem::align_of::<Self>().min(1) as u32 + {k});", const_marks([k + 1])))
            elif o == "gencall":
                snips.append((f"simcore::mark(Self::gen_k::<u8>(3) + Self::gen_k(4u16) + {k});", const_marks([k + 7])))
            elif o == "closty":
                snips.append((f"{{ let c = |s: &Self, n: u32| s.own_k() + n; simcore::mark(c(&*self, {k})); }}", const_marks([k + 5])))
            elif o == "ufcs":
                snips.append((f"simcore::mark(<Self as super::HasK>::k2(&self) + super::HasK::k2(&*self) + {k});", const_marks([k + 4])))
            elif o == "nestpat":
                snips.append((f"{{ let t = (Some(&*self), 3u32); if let (Some({pats[0]}), n) = t {{ simcore::mark(n + {k}); }} }}", [[k + 3] if i == 0 else [] for i in range(nv)]))
            elif o == "guard":
                snips.append((f"match Self::MK {{ x if x == self.own_k() => simcore::mark(1), _ if self.as_ref().own_k() == 5 => simcore::mark({k}), _ => simcore::mark(2) }}", const_marks([k])))
            elif o == "fieldpat":
                f = r.choice(nf)
                snips.append((f"{{ let Self {{ {f.name}, .. }} = &*self; simcore::mark({k} + (core::ptr::eq({f.name}, &self.{f.name}) as u32)); }}", const_marks([k + 1])))
            elif o == "fieldmac":
                f = r.choice(nf)
                snips.append((f"{{ let v = vec![&self.{f.name}, &self.{f.name}]; simcore::mark({k} + v.len() as u32); assert!(core::ptr::eq(v[0], &self.{f.name})); }}", const_marks([k + 2])))
            elif o == "castself":
                snips.append((f"{{ let p = &*self as *const Self; let q = &*self as *const Self as *const u8; simcore::mark({k} + (p as *const u8 == q) as u32); }}", const_marks([k + 1])))
            elif o == "whileself":
                snips.append((f"{{ let mut n = 0; while n < self.own_k() - 3 {{ n += 1; if n == 9 {{ return; }} }} simcore::mark(n + {k}); }}", const_marks([k + 2])))
            elif o == "tuplemac":
                snips.append((f"macro_rules! tm{k} {{ ($($e:expr),*) => {{ [$($e),*] }} }} simcore::mark(tm{k}!(self.own_k(), Self::MK, <Self as super::HasK>::K).iter().sum::<u32>() + {k} - {mk});", const_marks([k + 9])))
            elif o == "optself":
                snips.append((f"{{ let n: Option<&Self> = Option::<&Self>::None; simcore::mark(n.map_or({k}, |s| s.own_k())); }}", const_marks([k])))
            elif o == "arrself":
                snips.append((f"{{ const fn two() -> usize {{ 2 }} let a = [self.own_k(); two()]; simcore::mark(a[1] + a[(self.own_k() - 5) as usize] + {k}); }}", const_marks([k + 10])))
            elif o == "macfn":
                snips.append((f"macro_rules! mf{k} {{ ($n:ident) => {{ struct $n; impl $n {{ fn get(&self) -> u32 {{ let Self = self; {k} }} }} }} }} mf{k}!(Q{k}); simcore::mark(Q{k}.get());", const_marks([k])))
            elif o == "macselfdef":
                snips.append((f"macro_rules! ms{k} {{ () => {{ self.as_ref().get_ref().own_k() + Self::MK }} }} simcore::mark(ms{k}!() + {k} - {mk});", const_marks([k + 5])))
            elif o == "qself":
                snips.append((f"simcore::mark(<Self>::MK + {k} - {mk});", const_marks([k])))
            elif o == "helperself":
                snips.append((f"simcore::mark(self::path_k() + {k});", const_marks([k + 6])))
            elif o == "closures":
                snips.append((f"{{ let c = |a: u32| {{ let e = move |b: u32| a + b + Self::MK - {mk}; e(1) }}; simcore::mark(c({k})); }}", const_marks([k + 1])))
            elif o == "unsafe":
                snips.append((f"unsafe {{ let p = &*self as *const Self; simcore::mark((*p).own_k() + {k}); }}", const_marks([k + 5])))
            elif o == "question":
                snips.append((f"{{ let q = (|| -> Option<u32> {{ let x = Some(self.own_k())?; Some(x + {k}) }})(); simcore::mark(q.unwrap()); }}", const_marks([k + 5])))
            elif o == "genfn":
                snips.append((f"{{ fn id<X>(x: X) -> X {{ x }} simcore::mark(id::<u32>({k})); }}", const_marks([k])))
            elif o == "stringself":
                snips.append((f"simcore::mark(\"self Self\".len() as u32 + format!(\"self {{}}\", 1).len() as u32 + {k});", const_marks([k + 15])))
            elif o == "identlike":
                snips.append((f"{{ #[derive(Clone, Copy)] struct Selfish(u32); let self_ = Selfish({k}); let __selfie = self_; simcore::mark(self_.0.max(__selfie.0)); }}", const_marks([k])))
            elif o == "constitem":
                snips.append((f"{{ const Q: u32 = 7; static R: u32 = 1; simcore::mark(Q + R + {k}); }}", const_marks([k + 8])))
            elif o == "nestmod":
                snips.append((f"{{ mod m {{ pub fn f() -> u32 {{ self::g() }} fn g() -> u32 {{ 8 }} }} simcore::mark(m::f() + {k}); }}", const_marks([k + 8])))
            elif o == "loctrait":
                snips.append((f"{{ trait Lt {{ const B: u32; fn v(&self) -> u32 {{ Self::B + 1 }} }} impl Lt for u8 {{ const B: u32 = {k}; }} simcore::mark(0u8.v()); }}", const_marks([k + 1])))
            elif o == "vecself":
                snips.append((f"assert_eq!(vec![Self::MK; 2].len(), 2, \"{{}}\", Self::MK); assert_eq!((Self::MK), {{ [Self::MK][0] }}); simcore::mark({k});", const_marks([k])))
            elif o == "tuplepat":
                v0 = d.variants[0]
                if d.kind == "struct" and v0.shape == "tuple":
                    snips.append((f"{{ let Self(..) = &*self; simcore::mark({k}); }}", const_marks([k])))
                elif d.kind == "enum":
                    tp = [i for i, v in enumerate(d.variants) if v.shape == "tuple"]
                    if tp:
                        snips.append((f"if let Self::{d.variants[tp[0]].name}(..) = &*self {{ simcore::mark({k}); }}", [[k] if i == tp[0] else [] for i in range(nv)]))
            elif o == "asstype":
                snips.append((f"{{ let t: <Self as super::HasK>::Ty = 3; simcore::mark(t as u32 + {k}); }}", const_marks([k + 3])))
            elif o == "letelse":
                snips.append((f"let le{k} = if let Some(x) = Some(Self::MK) {{ x - {mk} + {k} }} else {{ return }}; simcore::mark(le{k});", const_marks([k])))
            elif o == "whilelet":
                snips.append((f"{{ let mut st = vec![1u32, 2]; while let Some(x) = st.pop() {{ simcore::mark(x + {k} + self.as_ref().own_k()); }} }}", const_marks([k + 7, k + 6])))
            elif o == "callself":
                snips.append((f"simcore::mark(Self::own_k(&self) + {k});", const_marks([k + 5])))
            elif o == "structlit":
                snips.append((f"{{ struct Pt {{ own: u32 }} let p = Pt {{ own: self.own_k() }}; let Pt {{ own }} = p; simcore::mark(own + {k}); }}", const_marks([k + 5])))
            elif o == "const":
                snips.append(("simcore::mark(Self::MK);", const_marks([mk])))
            elif o == "closure":
                snips.append((f"let g{k} = |x: u32| x + 1; simcore::mark(g{k}({k}));", const_marks([k + 1])))
            elif o == "nestfn":
                snips.append((f"fn helper{k}(v: u32) -> u32 {{ v + 2 }} simcore::mark(helper{k}({k}));", const_marks([k + 2])))
            elif o == "nestimpl":
                snips.append((f"{{ struct Loc(u32); impl Loc {{ const Q: u32 = 3; fn get(&self) -> u32 {{ self.0 + Self::Q }} }} simcore::mark(Loc({k}).get()); }}", const_marks([k + 3])))
            elif o == "macro":
                snips.append((f"macro_rules! mm{k} {{ ($e:expr) => {{ simcore::mark($e) }} }} mm{k}!(Self::MK + {k} - {mk});", const_marks([k])))
            elif o == "trait":
                snips.append((f"simcore::mark(<Self as super::HasK>::K + {k});", const_marks([k + 4])))
            elif o == "method":
                snips.append((f"simcore::mark(self.as_ref().get_ref().own_k() + {k});", const_marks([k + 5])))
            elif o == "loop":
                snips.append((f"for i in 0..3u32 {{ if i == 1 {{ continue; }} simcore::mark({k} + i); }}", const_marks([k, k + 2])))
            elif o == "macself":
                snips.append((f"simcore::mark({{ let v = vec![self.as_ref().get_ref().own_k(), 1]; assert!(self.own_k() == v[0]); v[0] + {k} }});", const_marks([k + 5])))
            elif o == "clo_self":
                snips.append((f"{{ let c = || self.as_ref().get_ref().own_k() + {k}; simcore::mark(c()); }}", const_marks([k + 5])))
            elif o == "size":
                snips.append((f"{{ let _p: core::marker::PhantomData<Self> = core::marker::PhantomData; if core::mem::size_of::<Self>() < usize::MAX {{ simcore::mark({k}); }} }}", const_marks([k])))
            elif o == "fnptr":
                snips.append((f"{{ let f: fn(&Self) -> u32 = Self::own_k; simcore::mark(f(&*self) + {k}); }}", const_marks([k + 5])))
            elif o == "twice":
                snips.append((f"simcore::mark({k}); simcore::mark({k}); {{ simcore::mark({k}); simcore::mark({k}); }}", const_marks([k] * 4)))
            elif o == "cfgstmt":
                snips.append((f"#[cfg(any())] simcore::mark(1); #[cfg(all())] simcore::mark({k}); #[cfg(any())] let _n = self.nope(); #[allow(unused)] let _m = {k};", const_marks([k])))
            elif o == "emptystmt":
                snips.append((f";; {{}} ; {{ simcore::mark({k}); }}; ()", const_marks([k])))
                snips[-1] = (snips[-1][0] + ";", snips[-1][1])
            elif o == "constblk":
                snips.append((f"{{ const C: usize = {{ const D: usize = 2; D + 1 }}; simcore::mark([0u8; C].len() as u32 + {k}); }}", const_marks([k + 3])))
            elif o == "asyncblk":
                snips.append((f"{{ let n = self.own_k(); let f = async move {{ simcore::mark(7); n }}; drop(f); simcore::mark(n + {k}); }}", const_marks([k + 5])))
            elif o == "labelblk":
                snips.append((f"let lb{k} = 'b: {{ if self.own_k() == 5 {{ break 'b {k}u32; }} 1 }}; simcore::mark(lb{k});", const_marks([k])))
            elif o == "moveclo":
                snips.append((f"{{ let r: &Self = &*self; let c = move || r.own_k() + Self::MK - {mk}; let d = move || -> u32 {{ return c() + {k}; }}; simcore::mark(d()); }}", const_marks([k + 5])))
            elif o == "update":
                snips.append((f"{{ #[derive(Clone, Copy)] struct Up {{ a: u32, b: u32 }} let u = Up {{ a: self.own_k(), b: {k} }}; let w = Up {{ a: Self::MK - {mk}, ..u }}; simcore::mark(w.a + w.b); }}", const_marks([k])))
            elif o == "range":
                snips.append((f"match self.own_k() {{ 0..=4 => simcore::mark(1), n @ 5..=9 => simcore::mark(n + {k}), _ => return }}", const_marks([k + 5])))
            elif o == "bracemac":
                snips.append((f"macro_rules! bm{k} {{ {{ $($s:stmt;)* }} => {{ $($s;)* }} }} bm{k} {{ let z = self.own_k(); simcore::mark(z + {k}); }}".replace(f"bm{k} {{ let", f"bm{k}! {{ let"), const_marks([k + 5])))
            elif o == "innerdrop":
                snips.append((f"{{ struct End(u32); impl Drop for End {{ fn drop(&mut self) {{ simcore::mark(self.0) }} }} let _a = End({k}); let _ = End({k} + 1); let _b = End(self.own_k() + {k}); simcore::mark({k} + 2); }}", const_marks([k + 1, k + 2, k + 5, k])))
            elif o == "nestret":
                snips.append((f"{{ fn early(n: u32) -> u32 {{ if n > 1 {{ return n; }} 0 }} let c = |n: u32| {{ if n == 5 {{ return n + {k}; }} early(n) }}; simcore::mark(c(self.own_k())); }}", const_marks([k + 5])))
            elif o == "matchtail":
                snips.append((f"match (self.own_k(), Self::MK) {{ (5, m) if m == {mk} => {{ simcore::mark({k}) }} _ => {{ return }} }}", const_marks([k])))
            elif o == "letmany":
                snips.append((f"let (ref q{k}, [w{k}, ..]) = (self.own_k(), [{k}u32, 1]); simcore::mark(*q{k} + w{k});", const_marks([k + 5])))
            elif o == "rawstr":
                snips.append((f"simcore::mark(r#\"self.x Self::Y\"#.len() as u32 + b\"self\".len() as u32 + 's' as u32 - 's' as u32 + {k}); /* self */ // Self", const_marks([k + 18])))
            elif o == "refpat":
                snips.append((f"{{ let &n = &self.own_k(); let ref m = n; let Some(z) = Some(*m) else {{ return }}; simcore::mark(z + {k}); }}", const_marks([k + 5])))
            elif o == "orpat":
                snips.append((f"if matches!(self.own_k(), 4 | 5) && !matches!(Self::MK, 1 | 2) {{ simcore::mark({k}); }} else if let 1 | 2 = Self::MK {{ simcore::mark(1); }}", const_marks([k])))
            elif o == "label":
                snips.append((f"let l{k} = 'out: loop {{ loop {{ break 'out {k}u32; }} }}; simcore::mark(l{k});", const_marks([k])))
            elif o == "nestgen":
                snips.append((f"{{ struct Inn<X>(X); impl<X: Copy + Into<u32>> Inn<X> {{ fn new(x: X) -> Self {{ Self(x) }} fn out(self) -> u32 {{ let Self(x) = self; x.into() + {k} }} }} simcore::mark(Inn::new(6u8).out()); }}", const_marks([k + 6])))
            elif o == "format":
                snips.append((f"simcore::mark(format!(\"{{}}\", self.as_ref().get_ref().own_k() + Self::MK).len() as u32 + {k});", const_marks([k + len(str(mk + 5))])))
            elif o == "blockself":
                snips.append((f"simcore::mark({{ let Self {{ .. }} = &*self; {k} }});" if d.kind == "struct" else f"simcore::mark({k});", const_marks([k])))
            elif o == "shadow":
                snips.append((f"{{ let me: &Self = &*self; let me2 = me; simcore::mark(me2.own_k() + {k}); }}", const_marks([k + 5])))
            elif o == "refself":
                snips.append((f"{{ let p: ::core::pin::Pin<&Self> = self.as_ref(); simcore::mark(p.own_k() + {k}); }}", const_marks([k + 5])))
            elif o == "mutate":
                snips.append((f"{{ let me = unsafe {{ self.as_mut().get_unchecked_mut() }}; me.poke_all(3); simcore::mark({k}); }}", const_marks([k])))
            elif o == "ifmatch":
                snips.append((f"if let {pats[0]} = &*self {{ simcore::mark({k}); }} else {{ simcore::mark({k + 1}); }}", [[k + (0 if i == 0 else 1)] for i in range(nv)]))
            elif o == "asyncless":
                snips.append((f"{{ let t: (u32, u32) = ({k}, Self::MK); let (a, ..) = t; simcore::mark(a); }}", const_marks([k])))
            elif o in ("match", "matchs"):
                arms = " ".join(f"{p} => simcore::mark({k + i})," for i, p in enumerate(pats))
                snips.append((f"match &*self {{ {arms} }}", [[k + i] for i in range(nv)]))
        marks = [[m for s in snips for m in s[1][i]] for i in range(nv)]
        # what the body still holds when it ends: locals, and temporaries of its last expression
        early = r.random() < 0.2
        late = self.pick([None] * 6 + ["local", "two", "tail", "tail", "tailsemi", "tailmatch", "tailif"])
        if early and late and late.startswith("tail"):
            late = "local"
        l0 = d.id * 1000 + 990
        new_tail = self.shard % 3 == 2   # edition 2024 drops them before the locals
        ends = {None: [], "local": [l0], "two": [l0 + 1, l0], "tailsemi": [l0 + 1, l0]}.get(late)
        if ends is None:
            ends = [l0 + 1, l0] if new_tail else [l0, l0 + 1]
        marks = [m + ends for m in marks]
        return {"snips": [s[0] for s in snips], "marks": marks, "mk": mk, "early": early, "late": late, "l0": l0,
                "project": r.random() < 0.7, "form": r.randrange(12), "mutself": r.random() < 0.5}


# ---------------------------------------------------------------------------- methods of TypeDef


def _conc_args(d, k):
    i = d.insts[k]
    a = ["'static"] * len(d.lifetimes) + [i.args[n][0] for _, n, _, _ in d.params] + ([i.args["Z"][0]] if d.usz else []) + ([i.args["N"][0]] if d.const_param else []) + ([i.args["B2"][0]] if d.const_b else [])
    return a


def conc_name(d, k, path=""):
    a = _conc_args(d, k)
    return f"{path}{d.name}" + (f"<{', '.join(a)}>" if a else "")


def movable(d, k, unsized=False):
    i = d.insts[k]
    if unsized:
        # the last parameter as a trait object (never Unpin) or as a slice (Unpin as its elements are)
        n = d.params[-1][1]
        t, u = i.args[n]
        i = Inst({**i.args, n: (t, u and t.startswith("["))})
    if d.unpin_mode in ("not", "unsafe_noimpl"):
        return False
    if d.unpin_mode == "unsafe":
        return all(i.args[n][1] for n in d.uu)
    return all(f.ty.unpin(i) for v in d.variants for f in v.fields if f.pinned)


TypeDef.conc_path = lambda d, k: conc_name(d, k, f"crate::t{d.id}::")
TypeDef.movable = movable
TypeDef.inst_key = lambda d, k: tuple(_conc_args(d, k))


def _where_list(d):
    return [(n, wh) for k, n, inl, wh in d.params if wh]


def generics_decl(d, r=None):
    g = list(d.lifetimes)
    if d.lt_bound:
        g[1] = f"{g[1]}: {g[0]}"
    for k, n, inl, wh in d.params:
        g.append(n + (": " + " + ".join(inl) if inl else ""))
    if d.usz:
        g.append("Z" if d.usz == "where" else f"Z: {d.usz}")
    if d.const_param:
        g.append("const N: usize")
    if d.const_b:
        g.append("const B2: bool")
    return f"<{', '.join(g)}>" if g else ""


def generics_use(d):
    g = list(d.lifetimes) + [n for _, n, _, _ in d.params] + (["Z"] if d.usz else []) + (["N"] if d.const_param else []) + (["B2"] if d.const_b else [])
    return f"<{', '.join(g)}>" if g else ""


def preds(d):
    return [f"{n}: {' + '.join(wh)}" for n, wh in _where_list(d)] + (["Z: ?Sized"] if d.usz == "where" else []) + list(d.preds)


def where_clause(d):
    w = preds(d)
    return ("where " + ", ".join(w)) if w else ""


def render_field(d, f, shape, deco):
    lines = []
    pin = "#[cfg_attr(all(), pin)]" if f.style == 1 else "#[pin]"
    if f.pinned:
        lines = [pin] + f.pre if f.style == 2 else f.pre + [pin]
    else:
        lines = list(f.pre)
    t = f"{f.vis}{f.name}: {f.ty.src}" if shape == "named" else f"{f.vis}{f.ty.src}"
    return "\n        ".join(lines + [t])


def render_def(d):
    rr = random.Random(d.deco)
    args = []
    if d.proj:
        args.append(f"project = {d.proj}")
    if d.pref:
        args.append(f"project_ref = {d.pref}")
    if d.repl:
        args.append(f"project_replace = {d.pown}" if d.pown else "project_replace")
    if d.pdrop:
        args.append("PinnedDrop")
    if d.unpin_mode == "not":
        args.append("!Unpin")
    if d.unpin_mode.startswith("unsafe"):
        args.append("UnsafeUnpin")
    rr.shuffle(args)
    a = ", ".join(args)
    if a and rr.random() < 0.2:
        a += ","
    path = rr.choice(["pin_project", "pin_project", "pin_project", "pin_project::pin_project", "::pin_project::pin_project"])
    attr = f"#[{path}({a})]" if a else rr.choice([f"#[{path}]", f"#[{path}]", f"#[{path}()]"])
    if rr.random() < 0.04:
        attr = f"#[cfg_attr(all(), {attr[2:-1]})]"
    pre = []
    if d.repr:
        pre.append(f"#[repr({d.repr})]")
    if rr.random() < 0.08:
        pre.append("/// Documentation.")
    if rr.random() < 0.06:
        pre.append("#[allow(dead_code)]")
    if rr.random() < 0.05:
        pre.append("#[must_use]")
    if rr.random() < 0.04:
        pre.append("#[non_exhaustive]")
    pre.insert(rr.randrange(len(pre) + 1), attr)
    vis = "pub" if d.where_ != "fn" else rr.choice(["", "pub(crate)"])
    if d.where_ == "module" and rr.random() < 0.3:
        vis = "pub(crate)"
    g, w = generics_decl(d), where_clause(d)
    if d.params and d.unpin_mode == "auto" and not d.pdrop and rr.random() < 0.1 and not d.dst and not d.const_param and not d.const_b and not d.usz:
        # a defaulted parameter
        last = d.params[-1]
        g = g[:-1] + " = Pu>" if "Assoc" not in " ".join(last[2] + last[3]) else g
    if w and rr.random() < 0.4:
        w += ","
    out = "\n".join(pre) + "\n"
    if d.kind == "struct":
        v = d.variants[0]
        fs = [render_field(d, f, v.shape, rr) for f in v.fields]
        if d.ghost is not None:
            fs.insert(d.ghost, "#[cfg(any())]\n        " + rr.choice(["#[pin]\n        ", ""]) + "ghost: NoSuchType")
        body = ",\n        ".join(fs)
        comma = "," if rr.random() < 0.7 or v.shape == "named" else ""
        if v.shape == "named":
            out += f"{vis} struct {d.name}{g} {w} {{\n        {body}{comma}\n}}"
        else:
            out += f"{vis} struct {d.name}{g}(\n        {body}{comma}\n) {w};"
    else:
        vs = []
        for i, v in enumerate(d.variants):
            fs = [render_field(d, f, v.shape, rr) for f in v.fields]
            if i == 0 and d.ghost is not None:
                fs.insert(d.ghost, "#[cfg(any())]\n        #[pin]\n        ghost: NoSuchType")
            body = ",\n        ".join(fs)
            at = rr.choice(["/// A variant.\n    ", "#[allow(dead_code)]\n    ", "#[cfg(all())]\n    ", "#[cfg_attr(all(), doc = \"x\")]\n    "]) if rr.random() < 0.06 else ""
            if v.shape == "unit":
                vs.append(at + v.name)
            elif v.shape == "tuple":
                vs.append(at + f"{v.name}(\n        {body}\n    )")
            else:
                vs.append(at + f"{v.name} {{\n        {body}\n    }}")
        if rr.random() < 0.05:
            vs.insert(rr.randrange(len(vs) + 1), "#[cfg(any())]\n    Ghost { #[pin] g: NoSuchType }")
        out += f"{vis} enum {d.name}{g} {w} {{\n    " + ",\n    ".join(vs) + ",\n}"
    return out


def bind(f, i):
    return f"b{i}"


def pat(path, v, names=None, rest=False):
    """Pattern binding every field of a variant."""
    bs = [bind(f, i) for i, f in enumerate(v.fields)]
    if v.shape == "unit":
        return path
    if v.shape == "tuple":
        return f"{path}({', '.join(bs)})"
    return f"{path} {{ {', '.join(f'{f.name}: {b}' for f, b in zip(v.fields, bs))} }}"


def variant_path(d, base, v):
    return base if d.kind == "struct" else f"{base}::{v.name}"


def visit_lines(v, how, inside=False):
    """Calls on the visitor for all fields, bound to b0.. by reference of the projection."""
    out = []
    for i, f in enumerate(v.fields):
        m = ("look_" if inside else "") + ("pinned" if f.pinned else "plain") + {"mut": "", "ref": "_ref"}[how] + ("_dst" if f.ty.dst else "")
        b = bind(f, i)
        if how == "mut":
            arg = f"{b}.as_mut()" if f.pinned else f"&mut *{b}"
        else:
            arg = b
        out.append(f"v.{m}({i}, {arg});")
    if how == "mut" and len(v.fields) > 1 and not inside:
        for i, f in reversed(list(enumerate(v.fields))):
            if not f.ty.dst:
                out.append(f"v.again({i}, &*{bind(f, i)});")
    return out


def truth_arms(d, o="o"):
    arms = []
    for k, v in enumerate(d.variants):
        adds = " ".join(f"{o}.add{'_dst' if f.ty.dst else ''}({i}, {'true' if f.pinned else 'false'}, {bind(f, i)});" for i, f in enumerate(v.fields))
        arms.append(f"{pat(variant_path(d, 'SELF', v), v)} => {{ {o}.variant = {k}; {adds} }}")
    return arms


def proj_code(d, how, recv, rr, inside=False):
    """Statements that project `recv` and show every field to `v`."""
    meth = {"mut": "project", "ref": "project_ref"}[how]
    nm = d.proj if how == "mut" else d.pref
    out = []
    mutb = (lambda v: [f"let mut {bind(f, i)} = {bind(f, i)};" for i, f in enumerate(v.fields) if f.pinned and how == "mut"])
    if d.kind == "struct":
        v = d.variants[0]
        out.append("v.variant(0);")
        if nm and rr.random() < 0.6:
            out.append(f"let {pat(nm, v)} = {recv}.{meth}();")
        else:
            out.append(f"let this = {recv}.{meth}();")
            for i, f in enumerate(v.fields):
                out.append(f"let {bind(f, i)} = this.{f.name};")
        out += mutb(v) + visit_lines(v, how, inside)
    else:
        arms = []
        for k, v in enumerate(d.variants):
            arms.append(f"{pat(f'{nm}::{v.name}', v)} => {{ v.variant({k}); {' '.join(mutb(v) + visit_lines(v, how, inside))} }}")
        out.append(f"match {recv}.{meth}() {{ {' '.join(arms)} }}")
    return out


def render_type(d):
    """Returns the text of the module for this type."""
    rr = random.Random(d.deco ^ 0x5A5A)
    L = []
    reg = {}

    def region(name):
        L.append(f"// @{name}")
    # ---- definition
    deftext = render_def(d)
    region("def")
    if d.where_ == "macro":
        # some concrete types and names arrive through macro fragments
        reps, params, argv = [], [], []
        for j, f in enumerate([f for v in d.variants for f in v.fields][:6]):
            if not f.ty.generic and not f.ty.src.startswith("simcore::ident") and rr.random() < 0.6:
                params.append(f"$t{j}:ty")
                argv.append(f.ty.src)
                reps.append((f, f"$t{j}"))
        saved = [(f, f.ty.src) for f, _ in reps]
        for f, s in reps:
            f.ty = Ty(s, f.ty.conc, f.ty.unpin, f.ty.weight, f.ty.dst, f.ty.generic)
        deftext = render_def(d)
        for (f, s), (_, o) in zip(reps, saved):
            f.ty = Ty(o, f.ty.conc, f.ty.unpin, f.ty.weight, f.ty.dst, f.ty.generic)
        deftext = deftext.replace(d.name + "<", "$name<", 1) if (d.name + "<") in deftext else deftext
        if "$name" not in deftext:
            for kw in ("struct ", "enum "):
                deftext = deftext.replace(kw + d.name, kw + "$name", 1)
        # so may the arguments, the marker attribute and the visibility, or the whole item
        tail = ""
        m = re.search(r"#\[((?:::)?(?:pin_project::)?pin_project)\(([^\]]*)\)\]", deftext)
        form = rr.randrange(4)
        if form == 3:
            deftext = render_def(d)
            L.append("macro_rules! define { ($i:item) => { $i } }")
            L.append(f"define! {{\n{deftext}\n}}")
        else:
            if m and rr.random() < 0.5:
                deftext = deftext[:m.start()] + f"#[{m.group(1)}($($a)*)]" + deftext[m.end():]
                tail = "; " + m.group(2)
            if "#[pin]" in deftext and rr.random() < 0.3:
                deftext = deftext.replace("#[pin]", "#[$pin]")
                params.append("$pin:ident")
                argv.append("pin")
            if rr.random() < 0.3:
                for vis in ("pub(crate)", "pub"):
                    for kw in (" struct $name", " enum $name"):
                        if vis + kw in deftext and "$v:vis" not in params:
                            deftext = deftext.replace(vis + kw, "$v" + kw, 1)
                            params.insert(0, "$v:vis")
                            argv.insert(0, vis)
            params.append("$name:ident")
            argv.append(d.name)
            mac = ", ".join(params) + ("; $($a:tt)*" if tail else "")
            L.append(f"macro_rules! define {{ ({mac}) => {{\n{deftext}\n}} }}")
            L.append(f"define!({', '.join(argv)}{tail});")
    else:
        L.append(deftext)
    g, u, w = generics_decl(d), generics_use(d), where_clause(d)
    if d.self_ty:
        region("aux")
        L.append(f"impl{g} crate::HasF for {d.name}{u} {w} {{ type F = {d.self_ty.src}; }}")
    if d.unpin_mode == "unsafe":
        region("unpin")
        ub = [f"{n}: ::core::marker::Unpin" for n in d.uu]
        ww = preds(d) + ub
        path = rr.choice(["pin_project::UnsafeUnpin", "::pin_project::UnsafeUnpin", "UnsafeUnpin"])
        L.append(f"unsafe impl{g} {path} for {d.name}{u} {'where ' + ', '.join(ww) if ww else ''} {{}}")
    if d.pdrop:
        b = d.body
        region("aux")
        L.append(f"impl{g} {d.name}{u} {w} {{ const MK: u32 = {b['mk']}; fn own_k(&self) -> u32 {{ 5 }} fn gen_k<X: Into<u32>>(x: X) -> u32 {{ x.into() }} ")
        pk = " ".join(f"{pat(variant_path(d, 'Self', v), v)} => {{ {' '.join(f'{bind(f, i)}.poke' + ('_o' if f.ty.dst else '') + '(by);' for i, f in enumerate(v.fields))} }}" for v in d.variants)
        L.append(f"fn poke_all(&mut self, by: u32) {{ match self {{ {pk} }} }} }}")
        L.append(f"impl{g} super::HasK for {d.name}{u} {w} {{ type Ty = u8; const K: u32 = 4; }}")
        region("pinned_drop")
        form = b["form"]
        attr = ["#[pinned_drop]", "#[pin_project::pinned_drop]", "#[::pin_project::pinned_drop]", "#[pinned_drop]"][form % 4]
        gg, uu = g, u
        if len(d.lifetimes) == 1 and not d.params and not d.const_param and not d.const_b and not d.usz and not d.preds and form % 2 == 0:
            gg, uu = "", "<'_>"
        trait = ["PinnedDrop", "PinnedDrop", "PinnedDrop"][form % 3]
        selfty = [d.name, f"self::{d.name}", d.name][form % 3] if d.where_ != "fn" else d.name
        pinp = ["Pin", "::core::pin::Pin", "std::pin::Pin", "core::pin::Pin"][(form // 3) % 4]
        ret = " -> ()" if form == 5 else ""
        fattr = {7: "#[inline]", 8: "#[allow(unused_mut)]", 9: "/// doc"}.get(form, "")
        L.append(f"{attr}\nimpl{gg} {trait} for {selfty}{uu} {w} {{\n    {fattr}\n    fn drop(mut self: {pinp}<&mut Self>){ret} {{")
        if d.deco % 25 == 0:
            L.append("        #![allow(unused_variables)]")
        L.append(f"        simcore::body_enter({d.id}, &*self as *const Self as *const u8 as usize);")
        if b["late"]:
            L.append(f"        let _late = simcore::Late({b['l0']});")
        if b["late"] == "two":
            L.append(f"        let _later = simcore::Late({b['l0'] + 1});")
        for s in b["snips"]:
            L.append("        " + s)
        if b["project"] and d.has_project:
            arms = " ".join(a.replace("SELF", "Self") for a in truth_arms(d))
            L.append(f"        let truth = {{ let mut o = simcore::ops::ValObs::new(0); match &*self {{ {arms} }} o }};")
            how = "ref" if d.has_ref and rr.random() < 0.3 else "mut"
            recv = "self.as_ref()" if how == "ref" else "self.as_mut()"
            L.append("        let mut v = simcore::Vis::look();")
            L.append("        {")
            L.append("        let v = &mut v;")
            L += ["        " + x for x in proj_code(d, how, recv, rr, True)]
            L.append("        }")
            L.append("        simcore::ops::body_check(&truth, &v);")
        if b["early"]:
            L.append("        if Self::MK > 0 { simcore::body_fault(); return; }")
            L.append("        simcore::mark(4_000_000_000);")
        elif (b["late"] or "").startswith("tail"):
            t = f"simcore::Late({b['l0'] + 1})"
            L.append("        " + {"tail": f"{t}.fault()", "tailsemi": f"{t}.fault();", "tailmatch": f"match {t}.get() {{ 7 => simcore::body_fault(), _ => {{}} }}",
                                   "tailif": f"if let Some(_) = {t}.some() {{ simcore::body_fault() }}"}[b["late"]])
        else:
            L.append("        simcore::body_fault();")
        L.append("    }\n}")
        if rr.random() < 0.06:
            at = max(i for i, x in enumerate(L) if x == "// @pinned_drop")
            L.insert(at, "macro_rules! pass { ($i:item) => { $i } }")
            L.insert(at + 2, "pass! {")
            L.append("}")
    # ---- the same methods where nothing is known of the parameters but what the definition says
    def gfn(name, params, extra, body, ret=""):
        gg = "<'zz" + (", " + g[1:] if g else ">")
        ww = [x.replace("Self", d.name + u, 1) if x.startswith("Self:") else x for x in preds(d)] + extra
        return f"fn {name}{gg}({params}){ret} {'where ' + ', '.join(ww) if ww else ''} {{ {body} }}"
    me = f"{d.name}{u}"
    pinm = "::core::pin::Pin<&'zz mut "
    if d.has_project:
        region("project")
        L.append(gfn("any_project", f"mut p: {pinm}{me}>", [], "let _ = p.as_mut().project(); let _ = p.project();"))
    if d.has_ref:
        region("project_ref")
        L.append(gfn("any_project_ref", f"p: ::core::pin::Pin<&'zz {me}>", [], "let _ = p.as_ref().project_ref(); let _ = p.project_ref();"))
    if d.repl:
        region("replace")
        L.append(gfn("any_replace", f"p: {pinm}{me}>, n: {me}", [], "let _ = p.project_replace(n);"))
    tps = [n for _, n, _, _ in d.params] + (["Z"] if d.usz else [])
    mentions = lambda s: any(re.search(r"(?<![\w':])" + re.escape(n) + r"(?!\w)", s) for n in tps)
    bounds = None
    if d.unpin_mode == "unsafe":
        bounds = [f"{n}: ::core::marker::Unpin" for n in d.uu]
    elif d.unpin_mode == "auto":
        pinned = [f.ty for v in d.variants for f in v.fields if f.pinned]
        if all(mentions(t.src) or all(t.unpin(i) for i in d.insts) for t in pinned) and not any("Self" in t.src for t in pinned):
            bounds = [f"{s}: ::core::marker::Unpin" for s in dict.fromkeys(t.src for t in pinned if mentions(t.src))]
    if bounds is not None:
        region("open")
        L.append(gfn("any_open", f"p: {pinm}{me}>", bounds, "::core::pin::Pin::get_mut(p)", f" -> &'zz mut {me}"))
    # ---- glue per instance
    use_named_own = d.pown is not None
    for k in range(len(d.insts)):
        inst = d.insts[k]
        C = conc_name(d, k)
        C_expr = d.name
        region("glue")
        arms = " ".join(a.replace("SELF", "Self") for a in truth_arms(d))
        marks = d.body["marks"] if d.pdrop else None
        obs, poke, poker = [], [], []
        for j, v in enumerate(d.variants):
            p = pat(variant_path(d, "Self", v), v)
            mks = " ".join(f"out.push(simcore::Item::Mark({m}));" for m in marks[j]) if marks else ""
            obs.append(f"{p} => {{ {mks} {' '.join(f'simcore::Fld::obs({bind(f, i)}, out);' for i, f in enumerate(v.fields))} }}")
            poke.append(f"{p} => {{ {' '.join(f'simcore::Fld::poke({bind(f, i)}, by);' for i, f in enumerate(v.fields))} }}")
            poker.append(f"{p} => {{ {' '.join(f'simcore::Fld::poke_ref({bind(f, i)}, by);' for i, f in enumerate(v.fields))} }}")
        head = f"out.push(simcore::Item::Body {{ ty: {d.id}, addr: self as *const Self as *const u8 as usize }});" if d.pdrop else ""
        L.append(f"impl simcore::Fld for {C} {{")
        L.append(f"    fn mk() -> Self {{ <Self as simcore::Zoo>::make(simcore::choose({len(d.variants)})) }}")
        L.append(f"    fn obs(&self, out: &mut Vec<simcore::Item>) {{ {head} match self {{ {' '.join(obs)} }} }}")
        L.append(f"    fn poke(&mut self, by: u32) {{ match self {{ {' '.join(poke)} }} }}")
        L.append(f"    fn poke_ref(&self, by: u32) {{ match self {{ {' '.join(poker)} }} }}")
        L.append("}")
        mk = []
        for j, v in enumerate(d.variants):
            path = variant_path(d, "Self" if d.where_ != "x" else C_expr, v)
            if v.shape == "unit":
                e = path
            elif v.shape == "tuple":
                e = f"{path}({', '.join('simcore::Fld::mk()' for _ in v.fields)})"
            else:
                e = f"{path} {{ {', '.join(f'{f.name}: simcore::Fld::mk()' for f in v.fields)} }}"
            mk.append(f"{j} => {e}")
        vs = ", ".join(
            "simcore::ops::VSpec { name: \"%s\", fields: &[%s] }" % (v.name, ", ".join("simcore::ops::FSpec { name: \"%s\", pinned: %s }" % (f.name, str(f.pinned).lower()) for f in v.fields))
            for v in d.variants)
        L.append(f"impl simcore::Zoo for {C} {{")
        L.append(f"    fn spec() -> &'static simcore::ops::TySpec {{ static S: simcore::ops::TySpec = simcore::ops::TySpec {{ id: {d.id}, name: \"{C}\", variants: &[{vs}], movable: {str(movable(d, k)).lower()}, has_project: {str(d.has_project).lower()}, has_ref: {str(d.has_ref).lower()}, has_replace: {str(d.repl).lower()}, has_body: {str(d.pdrop).lower()} }}; &S }}")
        L.append(f"    fn make(variant: u32) -> Self {{ match variant {{ {', '.join(mk)}, _ => unreachable!() }} }}")
        L.append(f"    fn truth(&self) -> simcore::ops::ValObs {{ let mut o = simcore::ops::ValObs::new(0); match self {{ {arms} }} o }}")
        dynt = None
        if d.dst:
            a = _conc_args(d, k)
            a = a[:]
            pos = len(d.lifetimes) + len(d.params) - 1
            a[pos] = a[pos].split(";")[0] + "]" if a[pos].startswith("[") else "dyn simcore::FldObj"
            dynt = f"{d.name}<{', '.join(a)}>"
        region("project")
        L.append("    fn visit_mut(self: ::core::pin::Pin<&mut Self>, v: &mut simcore::Vis) {")
        if d.has_project:
            recv = "self"
            if dynt:
                L.append(f"        let mut me: ::core::pin::Pin<&mut {dynt}> = self;")
                recv = "me"
            elif rr.random() < 0.4:
                L.append("        let mut me = self;")
                recv = "me.as_mut()"
            if dynt and rr.random() < 0.5:
                recv = "me.as_mut()"
            L += ["        " + x for x in proj_code(d, "mut", recv, rr)]
        L.append("    }")
        region("project_ref")
        L.append("    fn visit_ref(self: ::core::pin::Pin<&Self>, v: &mut simcore::Vis) {")
        if d.has_ref:
            recv = "self"
            if dynt:
                L.append(f"        let me: ::core::pin::Pin<&{dynt}> = self;")
                recv = "me"
            elif rr.random() < 0.3:
                recv = "self.as_ref()"
            L += ["        " + x for x in proj_code(d, "ref", recv, rr)]
        L.append("    }")
        region("replace")
        L.append("    fn replace(self: ::core::pin::Pin<&mut Self>, new: Self, v: &mut simcore::Vis) {")
        if d.repl:
            recv = "self"
            if rr.random() < 0.3:
                L.append("        let mut me = self;")
                recv = "me.as_mut()"
            L.append(f"        let own = {recv}.project_replace(new);")
            if d.kind == "struct":
                v0 = d.variants[0]
                L.append("        v.variant(0);")
                for i, f in enumerate(v0.fields):
                    if f.pinned:
                        L.append(f"        v.own_phantom::<{f.ty.conc(inst)}>({i}, &own.{f.name});")
                    else:
                        L.append(f"        v.own({i}, &own.{f.name});")
                keep = " ".join(f"v.keep_field(own.{f.name});" for f in v0.fields if not f.pinned)
                L.append(f"        if v.split_own {{ {keep} }} else {{ v.keep(own); }}")
            else:
                a1, a2 = [], []
                for j, v0 in enumerate(d.variants):
                    p = pat(f"{d.pown}::{v0.name}", v0)
                    sh = " ".join((f"v.own_phantom::<{f.ty.conc(inst)}>({i}, {bind(f, i)});" if f.pinned else f"v.own({i}, {bind(f, i)});") for i, f in enumerate(v0.fields))
                    a1.append(f"{p} => {{ v.variant({j}); {sh} }}")
                    kp = " ".join(f"v.keep_field({bind(f, i)});" for i, f in enumerate(v0.fields) if not f.pinned)
                    a2.append(f"{p} => {{ {kp} }}")
                L.append(f"        match &own {{ {' '.join(a1)} }}")
                L.append(f"        if v.split_own {{ match own {{ {' '.join(a2)} }} }} else {{ v.keep(own); }}")
        L.append("    }")
        region("open")
        L.append("    fn open(p: ::core::pin::Pin<&mut Self>) -> Option<&mut Self> { simcore::try_unpin!(Self, p) }".replace("Self, p", f"{C}, p"))
        if dynt:
            L.append(f"    fn open_dyn(p: ::core::pin::Pin<&mut Self>) -> Option<(bool, bool)> {{ let p: ::core::pin::Pin<&mut {dynt}> = p; Some((simcore::try_unpin!({dynt}, p).is_some(), {str(movable(d, k, True)).lower()})) }}")
            region("glue")
            L.append(f"    fn drop_box(b: ::core::pin::Pin<Box<Self>>) {{ let b: ::core::pin::Pin<Box<{dynt}>> = b; drop(b) }}")
            L.append(f"    fn drop_arc(b: ::core::pin::Pin<::std::sync::Arc<Self>>) {{ let b: ::core::pin::Pin<::std::sync::Arc<{dynt}>> = b; drop(b) }}")
            L.append(f"    unsafe fn drop_raw(p: *mut Self) {{ let p: *mut {dynt} = p; core::ptr::drop_in_place(p) }}")
        L.append("}")
    region("end")
    ents = [f"simcore::entry!({conc_name(d, k)})" for k in range(len(d.insts))]
    body = "\n".join(L)
    # comments must be on lines of their own, so keep line structure
    pre = "#![allow(warnings)]\nuse core::{marker::PhantomPinned, pin::Pin};\nuse pin_project::{pin_project, pinned_drop, UnsafeUnpin};\nuse simcore::{Assoc as _, Fld as _, FldObj as _, Pa, PaN, Pb, PbN, Ph, PhN, Pn, Pni, PniN, Pu, Pv, Py, PyN, Pg, PgN, Pq, PqN, Pw, PwN, Pt, PtN, Pd, PdN, Pz, PzN, Stat};\npub const K2: usize = 2;\npub fn path_k() -> u32 { 6 }\n"
    if any(n in ("Pin", "Unpin", "Drop", "Result", "Sized") for _, n, _, _ in d.params):
        pass
    if d.where_ == "fn":
        return pre + f"pub fn entries() -> Vec<simcore::TypeEntry> {{\n{body.replace('super::HasK', 'crate::HasK')}\nvec![{', '.join(ents)}]\n}}\n"
    if d.where_ == "submod":
        return pre + f"pub mod inner {{\nuse super::*;\n{body.replace('super::HasK', 'crate::HasK')}\npub fn entries() -> Vec<simcore::TypeEntry> {{ vec![{', '.join(ents)}] }}\n}}\npub use inner::entries;\n"
    return pre + body + f"\npub fn entries() -> Vec<simcore::TypeEntry> {{ vec![{', '.join(ents)}] }}\n"


# ---------------------------------------------------------------------------- zoos per property

SMALL = dict(sizes=[1, 2, 3, 3, 4], flat=True)


def cross(**axes):
    """All combinations of the given axes; an axis value that is a dict is merged, otherwise it sets the axis."""
    out = [{}]
    for k, vs in axes.items():
        nxt = []
        for o in out:
            for v in vs:
                nxt.append({**o, **v} if isinstance(v, dict) else {**o, k: v})
        out = nxt
    return out


def plans(prop):
    """Stratified part of a zoo: combinations of features that are always there; the rest is free sampling."""
    S, E = dict(kind="struct"), dict(kind="enum")
    R, D, O = dict(repl=True, pdrop=False), dict(pdrop=True, repl=False), dict(repl=False, pdrop=False)
    dsts = cross(unpin=["auto", "not", "unsafe", "unsafe_noimpl"], lts=[0, 1, 2], tp=[1, 2], pd=[D, O])
    dsts = [{**w, "kind": "struct", "dst": True} for w in dsts]
    kinds = [{**S, "shape": "named"}, {**S, "shape": "tuple"}, E]
    if prop == "C01":
        return [{**w, **R} for w in cross(k=kinds, sizes=[[1, 2], [3, 4], [5, 6, 7], [8, 9, 12, 17]], unpin=["auto", "not", "unsafe"], lts=[0, 1, 2], tp=[0, 1, 3])]
    if prop == "C04":
        return [{**w, **D} for w in cross(k=kinds, unpin=["auto", "auto", "not", "unsafe"], lts=[0, 1, 2], tp=[0, 1, 2], where=["module", "fn", "macro", "submod"])] + [w for w in dsts if w["pdrop"]]
    if prop == "C05":
        return cross(k=kinds, x=[R, R, D, O], sizes=[[2, 3], [3, 4, 5], [6, 7, 8, 9], [3, 4]], lts=[0, 0, 1], tp=[0, 1, 2], unpin=["auto", "not"]) + dsts[::4]
    if prop == "C06":
        few = [[1, 2, 2, 3], [3, 4, 5]]
        return cross(k=[S, E], x=[R, D, O], unpin=["auto", "auto", "not", "unsafe", "unsafe_noimpl"], lts=[0, 1, 2], tp=[0, 1, 2, 3], sizes=few) + dsts
    if prop == "C09":
        return [{**SMALL, **w} for w in cross(k=kinds, x=[R, R, D, O], lts=[0, 0, 1], tp=[0, 1, 2], nv=[2, 3])] + [{**SMALL, **w} for w in dsts[::4]]
    if prop == "C08":
        return cross(k=kinds, x=[R, D, O], lts=[0, 0, 1], tp=[0, 1, 2], unpin=["auto", "not"]) + dsts[::4]
    # C02, C03
    return cross(k=kinds, x=[R, R, D, O] if prop == "C02" else [R, D, O], unpin=["auto", "auto", "not", "unsafe"], lts=[0, 0, 1, 2], tp=[0, 1, 2], where=["module", "module", "fn", "macro", "submod"][:4]) + dsts


def build_zoo(seed, prop, shard, n_types, id0, shards=8):
    g = Gen(seed, shard, prop, id0)
    plan = plans(prop)
    random.Random(f"{seed}:{prop}:plan").shuffle(plan)
    mine = plan[shard % shards::shards]
    out, k = [], 0
    for i in range(n_types):
        if i % 6 == 5:      # every sixth type is sampled freely
            w = SMALL if prop == "C09" else {}
        else:
            w = mine[k % len(mine)]
            k += 1
        if i % 32 == 7 and prop != "C09":
            w = {**w, "dst": False, "extreme": ["many", "page", "vast", "many", "page"][(i // 32 + shard) % 5]}
            if "sizes" not in w:
                w["sizes"] = [2, 3, 4, 5, 7]
        out.append(g.type_def(**w))
    return out
