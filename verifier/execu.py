"""Execution of MIR bodies on symbolic states."""
import re

import z3
from core import *

I = z3.IntVal
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
        "i128": 128, "isize": 64}


def rng(t):
    b = BITS[t["n"]]
    if t["k"] == "int":
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


def conc(t):
    """concrete python value of a z3 term, or None"""
    if isinstance(t, (int, bool)):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


NOT_DRIVEN = "loop not driven by one iterator"

class Frame:
    __slots__ = ("inst", "body", "lm", "stack")

    def __init__(self, inst, body, lm, stack):
        self.inst, self.body, self.lm, self.stack = inst, body, lm, stack


class CFG:
    """natural loops and liveness of a body"""

    def __init__(self, body):
        n = len(body["blocks"])
        self.succ = [succs(b["t"]) for b in body["blocks"]]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                pred[s].append(i)
        # dominators
        reach, st = {0}, [0]
        while st:
            for s in self.succ[st.pop()]:
                if s not in reach:
                    reach.add(s)
                    st.append(s)
        dom = {b: set(reach) for b in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in sorted(reach):
                if b == 0:
                    continue
                ps = [dom[p] for p in pred[b] if p in reach]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        for b in reach:
            for s in self.succ[b]:
                if s in dom[b]:
                    body_ = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in pred[x]:
                            if p not in body_ and p in reach:
                                body_.add(p)
                                st.append(p)
                    self.loops.setdefault(s, set()).update(body_)
        self.live = {}
        if self.loops:
            self.liveness(body, n)

    def liveness(self, body, n):
        use, df = [set() for _ in range(n)], [set() for _ in range(n)]

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "index" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            for k in ("copy", "move"):
                if k in o:
                    place_use(o[k], u, d)

        def walk(x, u, d):
            if isinstance(x, dict):
                for k in ("copy", "move"):
                    if k in x and isinstance(x[k], list):
                        place_use(x[k], u, d)
                if "place" in x:
                    place_use(x["place"], u, d)
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v, u, d)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        walk(v, u, d)

        for i, b in enumerate(body["blocks"]):
            u, d = use[i], df[i]
            for s in b["s"]:
                if s["k"] == "assign":
                    walk(s["rv"], u, d)
                    if s["p"][1]:
                        place_use(s["p"], u, d)
                    else:
                        d.add(s["p"][0])
                elif s["k"] == "setdiscr":
                    place_use(s["p"], u, d)
            t = b["t"]
            if t["k"] == "drop":
                place_use(t["p"], u, d)
            elif t["k"] == "call":
                walk(t["args"], u, d)
                walk(t["f"], u, d)
                if t["d"][1]:
                    place_use(t["d"], u, d)
                else:
                    d.add(t["d"][0])
            elif t["k"] == "switch":
                op_use(t["op"], u, d)
            elif t["k"] == "assert":
                op_use(t["c"], u, d)
            elif t["k"] == "return":
                u.add(0)
        lin = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(n)):
                o = set()
                for s in self.succ[i]:
                    o |= lin[s]
                ni = use[i] | (o - df[i])
                if ni != lin[i]:
                    lin[i] = ni
                    ch = True
        for h in self.loops:
            self.live[h] = lin[h]


def succs(t):
    k = t["k"]
    r = []
    if k in ("goto",):
        r = [t["t"]]
    elif k == "switch":
        r = [x[1] for x in t["ts"]] + [t["o"]]
    elif k in ("drop", "call", "assert"):
        r = [t["t"]] if t["t"] is not None else []
        if isinstance(t["u"], int):
            r.append(t["u"])
    return r


class Driver:
    """what drives a loop: an iterator, or an integer counted up or down"""

    def __init__(self, loc, it, n, step, value, counted=False):
        self.loc, self.it, self.n, self.step, self.value, self.counted = loc, it, n, step, value, counted


class Exec:
    MAXPATHS = 6000

    def __init__(self, prog, solver, root, unit):
        self.p, self.s, self.root, self.unit = prog, solver, root, unit
        self.insts = root["insts"]
        self.drops = {int(k): f for k, f in root.get("drops", {}).items()}
        self.cfgs = {}
        self.steps = 0
        self.inlined = {}      # functions whose real body was executed
        self.assumed = {}      # contracts used on external or opaque functions
        self.depth = 0
        self.probing = False
        self.drive_pos = None  # position of the item a loop body is run for
        import builtins_rs, builtins_more
        self.bi = builtins_rs

    # ------------------------------------------------------------------ memory
    def fld_ty(self, ty, v, i):
        return self.p.fields(ty, v)[i]

    def get1(self, val, e):
        p = self.p
        k = e[0]
        if k == "f":
            _, v, i = e
            if isinstance(val, BoxAlias):
                return Ref(val.loc, val.path + (("box",),))
            if isinstance(val, Agg):
                if val.v != v and val.v is not None:
                    raise Unsupported("field of variant %s of a value of variant %s" % (v, val.v))
                if i >= len(val.f):
                    return UNINIT
                return val.f[i]
            if isinstance(val, Alt):
                return val.alts[v].f[i]
            if isinstance(val, Sym):
                ty = val.ty
                fts = p.fields(ty, v)
                ft = fts[i]
                if p.T[ft]["k"] == "adt" and p.T[ft]["path"] == "core::marker::PhantomData":
                    return Agg(ft, 0, ())
                return Sym(ft, p.acc(ty, v, i, val.t))
            if val is UNINIT:
                return UNINIT
        elif k == "box":
            if isinstance(val, BoxV):
                return val.v
            if isinstance(val, Sym):
                return Sym(p.T[val.ty]["args"][0], val.t)
        elif k == "lock":
            if isinstance(val, LockV):
                return val.v
        elif k == "once":
            if isinstance(val, OnceV):
                return val.v
        elif k == "dyn":
            if isinstance(val, DynV):
                return val.v
        elif k == "dyncast":
            if isinstance(val, DynV):
                return val.v
            if isinstance(val, Sym):
                return Sym(e[1], self.bi.dyncast(self, val, e[1]))
        elif k == "ix":
            if isinstance(val, Agg):
                c = conc(e[1])
                if c is not None and c < len(val.f):
                    return val.f[c]
            if isinstance(val, Sym):
                t = p.T[val.ty]
                if t["k"] == "array":
                    return Sym(t["elem"], z3.simplify(z3.Select(val.t, e[1])))
                et = t["elem"] if t["k"] == "slice" else t["args"][0]
                return Sym(et, z3.simplify(z3.Select(p.vec_arr(val.t), e[1])))
        elif k == "mapv":
            if isinstance(val, Sym):
                o = z3.Select(val.t, e[1])
                return self.bi.lift(self, p.T[val.ty]["args"][1], z3.simplify(o.sort().accessor(1, 0)(o)))
        raise Unsupported("projection %r of %r" % (e, val))

    def get(self, val, path):
        for e in path:
            val = self.get1(val, e)
        return val

    def load(self, st, addr):
        loc, path = addr
        if loc not in st.heap:
            raise Unsupported("dangling location")
        return self.get(st.heap[loc], path)

    def expand(self, val, v):
        """Agg of a symbolic aggregate"""
        p = self.p
        if isinstance(val, Sym):
            ty = val.ty
            n = len(p.fields(ty, v))
            return Agg(ty, v, [self.get1(val, ("f", v, i)) for i in range(n)])
        if isinstance(val, Alt):
            return val.alts[v]
        return val

    def set_(self, st, val, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        k = e[0]
        p = self.p
        if k == "f":
            _, v, i = e
            if val is UNINIT or val is None:
                f = [UNINIT] * (i + 1)
                f[i] = self.set_(st, UNINIT, rest, new)
                return Agg(None, None, f)
            a = self.expand(val, v)
            if not isinstance(a, Agg):
                raise Unsupported("write into field of %r" % (val,))
            f = list(a.f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.set_(st, f[i], rest, new)
            return Agg(a.ty, v if a.v is not None else None, f, a.key)
        if k == "box":
            if isinstance(val, Sym):
                return BoxV(val.ty, self.set_(st, self.get1(val, e), rest, new))
            if isinstance(val, BoxV):
                return BoxV(val.ty, self.set_(st, val.v, rest, new))
        if k == "lock" and isinstance(val, LockV):
            return LockV(self.set_(st, val.v, rest, new), val.poison, val.r, val.w)
        if k == "once" and isinstance(val, OnceV):
            return OnceV(val.init, self.set_(st, val.v, rest, new), val.ghost)
        if k in ("dyn", "dyncast") and isinstance(val, DynV):
            return DynV(val.dty, val.ty, self.set_(st, val.v, rest, new), val.methods)
        if k == "dyncast" and isinstance(val, Sym):
            inner = self.set_(st, self.get1(val, e), rest, new)
            return DynV(val.ty, e[1], inner, {})
        if k == "ix":
            if isinstance(val, Agg):
                c = conc(e[1])
                if c is not None and c < len(val.f):
                    f = list(val.f)
                    f[c] = self.set_(st, f[c], rest, new)
                    return Agg(val.ty, val.v, f, val.key)
            if isinstance(val, Sym):
                x = self.lower(st, self.set_(st, self.get1(val, e), rest, new))
                t = p.T[val.ty]
                if t["k"] == "array":
                    return Sym(val.ty, z3.Store(val.t, e[1], x))
                return Sym(val.ty, p.vec_mk(z3.Store(p.vec_arr(val.t), e[1], x), p.vec_len(val.t)))
        if k == "mapv" and isinstance(val, Sym):
            x = self.lower(st, self.set_(st, self.get1(val, e), rest, new))
            vs = val.t.sort().range()
            return Sym(val.ty, z3.Store(val.t, e[1], vs.constructor(1)(x)))
        raise Unsupported("write through %r of %r" % (e, val))

    def store(self, st, addr, new):
        loc, path = addr
        st.heap[loc] = self.set_(st, st.heap.get(loc, UNINIT), path, new)

    # ------------------------------------------------------------------ terms
    def lower(self, st, v, ty=None):
        p = self.p
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, BoxV):
            return self.lower(st, v.v)
        if isinstance(v, Agg):
            if v.ty is None:
                raise Unsupported("term of an untyped aggregate")
            t = p.T[v.ty]
            if t["k"] == "adt" and t["path"] == "core::marker::PhantomData" or t["k"] == "tuple" and not t["args"]:
                return p.unit().constructor(0)()
            if t["k"] == "array":
                a = p.fresh("arr", p.sort(v.ty))
                for i, x in enumerate(v.f):
                    a = z3.Store(a, i, self.lower(st, x))
                return a
            if t["k"] in ("closure", "fndef"):
                if not v.f:
                    return z3.Const("fn " + t["s"], p.sort(v.ty))
                raise Unsupported("term of a closure")
            return p.ctor(v.ty, v.v, [self.lower(st, x) for x in v.f])
        if isinstance(v, ArcV):
            for loc, c in st.ptrs:
                if loc == v.loc:
                    return c
            c = p.fresh("ptr", p.sort(v.ty))
            for loc, d in st.ptrs:
                if d.sort() == c.sort():
                    st.assume(c != d)
            st.ptrs = st.ptrs + ((v.loc, c),)
            return c
        if isinstance(v, DynV):
            return self.bi.dyn_term(self, st, v)
        if isinstance(v, OnceV) and (v.init is not False):
            x = self.lower(st, v.v)
            some = p.some(x.sort(), x)
            return some if v.init is True else z3.If(v.init, some, p.none(x.sort()))
        if isinstance(v, FnV):
            return z3.Const("fn " + v.fn.get("key", v.fn.get("path", "")), p.pname("fn"))
        if isinstance(v, Opaque) and v.ty is not None:
            return p.fresh("opaque", p.sort(v.ty))
        if isinstance(v, Ref):
            x = self.bi.through(self, st, v)
            if isinstance(x, Sym) and p.T[x.ty]["k"] == "str":
                return x.t
            if p.seen_through and isinstance(x, (Sym, Agg, BoxV)) and p.unbox(x.ty) in p.seen_through:
                return self.lower(st, x)
        raise Unsupported("no term for %r" % (v,))

    def mk_bool(self, b):
        return Sym(self.p.bys.get("bool", -1), b if z3.is_expr(b) else z3.BoolVal(b))

    def mk_int(self, t, name="usize"):
        return Sym(self.p.bys.get(name, -1), t if z3.is_expr(t) else I(t))

    def unit_val(self):
        return Agg(self.p.bys.get("()"), 0, ())

    def enum_ty(self, path, *args):
        """type index of an enum instance, by display string of arguments when several exist"""
        c = [i for i, t in enumerate(self.p.T) if t["k"] == "adt" and t["path"] == path and
             (not args or [a if isinstance(a, int) else None for a in t["args"]] == list(args))]
        if not c:
            raise Unsupported("type %s%r not in the program" % (path, args))
        return c[0]

    # ------------------------------------------------------------------ places and operands
    def place(self, st, fr, pl):
        loc, path = fr.lm[pl[0]], ()
        pend = None
        for e in pl[1]:
            k = e[0]
            if k == "deref":
                v = self.load(st, (loc, path))
                if isinstance(v, Ref):
                    loc, path = v.loc, v.path
                elif isinstance(v, BoxAlias):
                    loc, path = v.loc, v.path + (("box",),)
                elif isinstance(v, BoxV) or isinstance(v, Sym) and self.p.adt_path(v.ty) == "alloc::boxed::Box":
                    path = path + (("box",),)
                elif isinstance(v, StrV) or isinstance(v, Opaque):
                    pass
                else:
                    raise Unsupported("dereference of %r" % (v,))
            elif k == "downcast":
                pend = e[1]
            elif k == "field":
                v = pend or 0
                pend = None
                path = path + (("f", v, e[1]),)
            elif k == "index":
                t = self.load(st, (fr.lm[e[1]], ()))
                path = path + (("ix", t.t),)
            elif k == "cindex" and not e[3]:
                path = path + (("ix", I(e[1])),)
            else:
                raise Unsupported("place projection " + k)
        return (loc, path)

    def place_ty(self, fr, pl):
        if not pl[1]:
            return fr.body["locals"][pl[0]]
        t = fr.body["locals"][pl[0]]
        for e in pl[1]:
            k = e[0]
            tt = self.p.T[t]
            if k == "deref":
                if tt["k"] in ("ref", "ptr"):
                    t = tt["elem"]
                elif tt["k"] == "adt":
                    t = tt["args"][0]
            elif k == "field":
                t = e[2]
            elif k in ("index", "cindex"):
                t = tt["elem"]
        return t

    def operand(self, st, fr, o):
        if "const" in o:
            return self.const(st, fr, o["const"])
        if "rtcheck" in o:
            return self.mk_bool(False)
        pl = o.get("copy") or o.get("move")
        # (box).0 : the pointer inside a box
        if pl[1] and pl[1][-1][0] == "field" and pl[1][-1][1] == 0:
            a = self.place(st, fr, [pl[0], pl[1][:-1]])
            v = self.load(st, a)
            if isinstance(v, BoxV) or isinstance(v, Sym) and v.ty >= 0 and self.p.adt_path(v.ty) == "alloc::boxed::Box":
                return Ref(a[0], a[1] + (("box",),))
            if isinstance(v, Ref):
                return v     # a field of a pointer wrapper (Unique, NonNull)
        return self.load(st, self.place(st, fr, pl))

    def const(self, st, fr, c):
        p = self.p
        k = c["k"]
        if k == "fn":
            return FnV(c["fn"])
        ty = c.get("ty")
        t = p.T[ty] if ty is not None else None
        if k == "scalar":
            n = int(c["v"])
            if t["k"] == "bool":
                return self.mk_bool(n != 0)
            if t["k"] in ("int", "uint"):
                if t["k"] == "int" and n >= 1 << (BITS[t["n"]] - 1):
                    n -= 1 << BITS[t["n"]]
                return Sym(ty, I(n))
            if t["k"] == "char":
                return Sym(ty, I(n))
            if p.is_enum(ty):
                for v in range(p.nvariants(ty)):
                    if p.discr(ty, v) == n and not p.fields(ty, v):
                        return Agg(ty, v, ())
            if p.adt_path(ty) and not p.adt_path(ty).startswith(("core::", "alloc::", "std::")):
                return Sym(ty, z3.Const("constant<%s>%d" % (t["s"], n), p.sort(ty)))     # some value, always the same
            raise Unsupported("constant of type " + t["s"])
        if k == "zst":
            if t["k"] == "fndef":
                return FnV({"k": "item", "path": t["path"], "key": None, "name": t["path"].split("::")[-1], "ty": ty})
            return self.zst(ty)
        if k == "str":
            return StrV(c["v"])
        if k == "param":
            v = z3.Int("const " + c["name"])
            lo, hi = rng(t)
            st.assume(v >= lo, v <= hi)
            return Sym(ty, v)
        if k == "promoted":
            b = fr.inst["promoted"][c["idx"]]
            outs = list(self.run_body(st, dict(fr.inst, body=b), b, [], fr.stack))
            if len(outs) != 1 or outs[0][0] != "ret":
                raise Unsupported("promoted constant")
            s2 = outs[0][1]
            st.heap, st.arcs, st.pc = s2.heap, s2.arcs, s2.pc
            return outs[0][2]
        if k == "uneval" and c["path"].startswith("core::mem::SizedTypeProperties::") and len(c.get("args", ())) == 1:
            # the size of a type: some number, the same wherever it is asked for
            n = z3.Int("size<%s>" % p.T[c["args"][0]]["s"])
            st.assume(n >= 0, n < 1 << 63)
            what = c["path"].split("::")[-1]
            if what == "SIZE":
                return Sym(ty, n)
            if what == "IS_ZST":
                return self.mk_bool(n == 0)
        return Opaque(ty, c.get("s", c.get("path", "const")))

    def uninhabited(self, ty):
        p, t = self.p, self.p.T[ty]
        if t["s"] == "!":
            return True
        if t["k"] == "tuple":
            return any(self.uninhabited(a) for a in t["args"])
        if t["k"] == "adt" and p.is_enum(ty):
            return p.nvariants(ty) == 0
        return False

    def zst(self, ty):
        p = self.p
        t = p.T[ty]
        if t["k"] in ("tuple",):
            return Agg(ty, 0, [self.zst(a) for a in t["args"]])
        if t["k"] == "closure":
            raise Unsupported("closure constant")
        if t["k"] == "adt":
            if t["path"] == "core::marker::PhantomData":
                return Agg(ty, 0, ())
            if p.adts[ty]["kind"] == "struct":
                return Agg(ty, 0, [self.zst(f) for f in p.fields(ty)])
            if p.is_enum(ty) and p.nvariants(ty) == 1:
                return Agg(ty, 0, [self.zst(f) for f in p.fields(ty)])
            if p.is_enum(ty):
                live = [n for n in range(p.nvariants(ty)) if not any(self.uninhabited(f) for f in p.fields(ty, n))]
                if len(live) == 1:
                    return Agg(ty, live[0], [self.zst(f) for f in p.fields(ty, live[0])])
            return Opaque(ty, "zst")
        if t["k"] == "array":
            return Agg(ty, 0, ())
        return Opaque(ty, "zst")

    # ------------------------------------------------------------------ rvalues: list of (state, value)
    def rvalue(self, st, fr, rv, dty):
        p = self.p
        k = rv["k"]
        if k == "use" and "copy" in rv["op"] and p.adt_path(dty) == "alloc::boxed::Box":
            # the copy of a box is only ever dereferenced: it stands for the box itself
            a = self.place(st, fr, rv["op"]["copy"])
            if isinstance(self.load(st, a), (BoxV, Sym)):
                return [(st, BoxAlias(*a))]
        if k == "use":
            return [(st, self.operand(st, fr, rv["op"]))]
        if k in ("ref", "rawptr"):
            pl = rv["place"]
            if pl[1] and pl[1][-1][0] == "deref":
                v = self.load(st, self.place(st, fr, [pl[0], pl[1][:-1]]))
                if isinstance(v, (Ref, StrV, Opaque)):
                    return [(st, v)]
            a = self.place(st, fr, pl)
            return [(st, Ref(*a))]
        if k == "cast" and "Transmute" in rv["ck"] and p.T[rv["ty"]]["k"] == "ptr" and "copy" in rv["op"]:
            # the pointer inside a box, read to get at its content
            pl = rv["op"]["copy"]
            for n in (2, 1):
                if len(pl[1]) >= n and all(e[0] == "field" for e in pl[1][-n:]):
                    a = self.place(st, fr, [pl[0], pl[1][:-n]])
                    b = self.load(st, a)
                    if isinstance(b, BoxAlias):
                        return [(st, Ref(b.loc, b.path + (("box",),)))]
                    if isinstance(b, BoxV) or isinstance(b, Sym) and p.adt_path(b.ty) == "alloc::boxed::Box":
                        return [(st, Ref(a[0], a[1] + (("box",),)))]
        if k == "cast":
            v = self.operand(st, fr, rv["op"])
            if "dyn" in rv:
                return [(st, self.bi.unsize(self, st, v, rv))]
            ck = rv["ck"]
            if "IntToInt" in ck and isinstance(v, Sym):
                lo, hi = rng(p.T[rv["ty"]])
                src = v.t
                if z3.is_bool(src):
                    src = z3.If(src, I(1), I(0))
                st.assume()
                s = p.T[v.ty] if v.ty >= 0 else None
                if s and s["k"] in ("int", "uint"):
                    a, b = rng(s)
                    if a >= lo and b <= hi:
                        return [(st, Sym(rv["ty"], src))]
                if conc(src) is not None and lo <= conc(src) <= hi:
                    return [(st, Sym(rv["ty"], src))]
                raise Unsupported("narrowing integer cast")
            if "IntToInt" in ck and isinstance(v, Agg):
                return [(st, Sym(rv["ty"], I(p.discr(v.ty, v.v))))]
            if any(x in ck for x in ("PtrToPtr", "Transmute", "PointerCoercion", "Subtype", "FnPtr", "Unsize")):
                return [(st, v)]
            raise Unsupported("cast " + ck)
        if k == "bin":
            return [(st, self.binop(st, rv["op"], self.operand(st, fr, rv["a"]), self.operand(st, fr, rv["b"]), dty))]
        if k == "un":
            v = self.operand(st, fr, rv["a"])
            if rv["op"] == "Not" and isinstance(v, Sym) and z3.is_bool(v.t):
                return [(st, self.mk_bool(z3.simplify(z3.Not(v.t))))]
            if rv["op"] == "Neg":
                return [(st, Sym(v.ty, -v.t))]
            if rv["op"] == "PtrMetadata":
                return [(st, self.mk_int(self.bi.slice_len(self, st, v)))]
            raise Unsupported("unary " + rv["op"])
        if k == "discr":
            a = self.place(st, fr, rv["place"])
            out = []
            for s2, v in self.variants(st, a):
                ety = v.ty
                d = p.discr(ety, v.v)
                dt = p.T[dty]
                if dt["k"] == "int" and d >= 1 << (BITS[dt["n"]] - 1):
                    d -= 1 << BITS[dt["n"]]
                out.append((s2, Sym(dty, I(d))))
            return out
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv["ops"]]
            ak = rv["ak"]
            if ak == "tuple":
                return [(st, Agg(dty, 0, ops))]
            if ak == "array":
                return [(st, Agg(dty, 0, ops))]
            if ak == "adt":
                if rv.get("active") is not None:
                    f = [UNINIT] * (rv["active"] + 1)
                    f[rv["active"]] = ops[0]
                    return [(st, Agg(dty, None, f))]
                return [(st, Agg(dty, rv["variant"], ops))]
            if ak == "closure":
                return [(st, Agg(rv["ty"], 0, ops, rv["key"]))]
            if ak == "rawptr":
                return [(st, ops[0])]
        raise Unsupported("rvalue " + k + " " + str(rv.get("ak", "")))

    def variants(self, st, addr):
        """the possible variants of the enum stored at addr: list of (state, Agg)"""
        p = self.p
        v = self.load(st, addr)
        if isinstance(v, Agg):
            return [(st, v)]
        if isinstance(v, Alt):
            out = []
            for i, a in v.alts.items():
                s2 = st.clone()
                s2.assume(v.tag == i)
                if self.s.feasible(s2.pc):
                    self.store(s2, addr, a)
                    out.append((s2, a))
            return out
        if isinstance(v, Sym):
            so = v.t.sort()
            if not isinstance(so, z3.DatatypeSortRef):
                raise Unsupported("variants of " + str(so))
            t = z3.simplify(v.t)
            out = []
            for i in range(so.num_constructors()):
                c = z3.simplify(so.recognizer(i)(t))
                if z3.is_false(c):
                    continue
                s2 = st.clone()
                s2.assume(c)
                if not z3.is_true(c) and not self.s.feasible(s2.pc):
                    continue
                a = self.expand(v, i)
                self.store(s2, addr, a)
                out.append((s2, a))
            return out
        raise Unsupported("discriminant of %r" % (v,))

    def binop(self, st, op, a, b, dty):
        if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
            raise Unsupported("pointer comparison")
        if not (isinstance(a, Sym) and isinstance(b, Sym)):
            raise Unsupported("binary %s of %r and %r" % (op, a, b))
        x, y = a.t, b.t
        if z3.is_bool(x):
            r = {"Eq": lambda: x == y, "Ne": lambda: x != y, "BitAnd": lambda: z3.And(x, y), "BitOr": lambda: z3.Or(x, y),
                 "BitXor": lambda: z3.Xor(x, y)}.get(op)
            if r is None:
                raise Unsupported("boolean " + op)
            return self.mk_bool(z3.simplify(r()))
        cmp_ = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y,
                "Ge": lambda: x >= y}.get(op)
        if cmp_:
            return self.mk_bool(z3.simplify(cmp_()))
        if op == "Cmp":
            oty = dty
            raise Unsupported("three-way comparison operator")
        ar = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y}
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ar:
            r = z3.simplify(ar[base]())
            if op.endswith("WithOverflow"):
                lo, hi = rng(self.p.T[a.ty])
                return Agg(dty, 0, [Sym(a.ty, r), self.mk_bool(z3.simplify(z3.Or(r < lo, r > hi)))])
            lo, hi = rng(self.p.T[a.ty])
            if not self.s.feasible(st.pc + (z3.Or(r < lo, r > hi),)):
                return Sym(a.ty, r)
            raise Unsupported("wrapping arithmetic")
        if op == "Div" and self.p.T[a.ty]["k"] == "uint":
            return Sym(a.ty, x / y)
        if op == "Rem" and self.p.T[a.ty]["k"] == "uint":
            return Sym(a.ty, x % y)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked") and conc(x) is not None and conc(y) is not None:
            lo, hi = rng(self.p.T[a.ty])
            n = conc(x) << conc(y) if op.startswith("Shl") else conc(x) >> conc(y)
            if 0 <= conc(x) and 0 <= conc(y) and n <= hi and (1 << conc(y)) - 1 <= hi:
                return Sym(a.ty, I(n))
        raise Unsupported("binary " + op)

    def full(self, fr, t):
        """is this the overflow of a sum, difference or product of 64 bits?"""
        if re.match(r"Overflow\((Add|Sub|Mul)", t["m"]):
            pl = t["c"].get("move") or t["c"].get("copy")
            ty = self.p.T[self.place_ty(fr, [pl[0], []])] if pl and pl[1] else None
            e = ty and ty["k"] == "tuple" and self.p.T[ty["args"][0]]
            if e and e["s"] in ("usize", "u64", "isize", "i64", "u128", "i128"):
                return "a counter is full"

    # ------------------------------------------------------------------ running bodies
    def inst(self, key):
        return self.insts.get(key)

    def run_fn(self, st, key, args, stack):
        i = self.insts[key]
        if i["body"] is None:
            raise Unsupported("no body for " + i["path"])
        if key in stack:
            raise Unsupported("recursion without a contract: " + i["path"])
        if len(stack) > 60:
            raise Unsupported("inlining too deep")
        self.inlined[i["path"] + (" (std)" if i["crate"] != self.p.crate else "")] = i["span"]
        return self.run_body(st, i, i["body"], args, stack + (key,))

    def run_body(self, st, inst, body, args, stack):
        lm = []
        if len(args) != body["argc"]:
            raise Unsupported("argument count of " + inst["path"])
        for n in range(len(body["locals"])):
            lm.append(next(State.counter))
        for n, a in enumerate(args):
            st.heap[lm[n + 1]] = a
        fr = Frame(inst, body, lm, stack)
        yield from self.blocks(st, fr, 0, ())

    def cfg(self, body):
        c = self.cfgs.get(id(body))
        if c is None:
            c = self.cfgs[id(body)] = CFG(body)
        return c

    def fork(self, st, cond):
        """yields (state, truth) for the feasible truths of cond"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        out = []
        for c, b in ((cond, True), (z3.Not(cond), False)):
            s2 = st.clone()
            s2.assume(c)
            if self.s.feasible(s2.pc):
                out.append((s2, b))
        return out

    def tick(self):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("too many paths")

    def blocks(self, st, fr, bb, active):
        """yields ('ret', st, val), ('panic', st, None), ('abort', st, why), ('back', st, header)"""
        todo = [(st, bb, active, False)]
        while todo:
            at = todo.pop()
            self.tick()
            try:
                yield from self.block(todo, fr, *at)
            except (Unsupported, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, AssertionError) as e:
                if not self.unit.partly or self.unit.attempting or "budget" in str(e) or "too many" in str(e):
                    raise
                self.unit.cut = str(e)

    def block(self, todo, fr, st, bb, active, entered):
        cfg = self.cfg(fr.body)
        if bb in cfg.loops and not entered:
            if bb in active:
                if active[-1] != bb:
                    raise Unsupported("jump to an outer loop head")
                yield ("back", st, bb)
                return
            yield from self.loop(st, fr, bb, active)
            return
        while active and bb not in cfg.loops[active[-1]]:
            active = active[:-1]
        blk = fr.body["blocks"][bb]
        states = [st]
        for s in blk["s"]:
            nxt = []
            for x in states:
                if s["k"] == "assign":
                    for y, v in self.rvalue(x, fr, s["rv"], self.place_ty(fr, s["p"])):
                        self.store(y, self.place(y, fr, s["p"]), v)
                        nxt.append(y)
                elif s["k"] == "dead":
                    nxt.append(x)
                elif s["k"] == "setdiscr":
                    a = self.place(x, fr, s["p"])
                    v = self.load(x, a)
                    f = v.f if isinstance(v, Agg) else ()
                    self.store(x, a, Agg(self.place_ty(fr, s["p"]), s["v"], f))
                    nxt.append(x)
                else:
                    raise Unsupported("statement " + s.get("s", s["k"]))
            states = nxt
        for x in states:
            for r in self.term(x, fr, blk["t"], active):
                if r[0] == "goto":
                    todo.append((r[1], r[2], active, False))
                else:
                    yield r

    def unwind(self, st, u):
        """where a panic goes"""
        if u == "continue":
            return ("panic", st, None)
        if u in ("unreachable", "terminate"):
            return ("abort", st, "panic while unwinding or in a function that cannot unwind")
        st.panicking = True
        return ("goto", st, u)

    def term(self, st, fr, t, active):
        k = t["k"]
        if k == "goto":
            yield ("goto", st, t["t"])
        elif k == "return":
            yield ("ret", st, self.load(st, (fr.lm[0], ())) if fr.lm[0] in st.heap else self.unit_val())
        elif k == "resume":
            yield ("panic", st, None)
        elif k == "unreachable":
            if self.s.feasible(st.pc):
                yield ("abort", st, "unreachable code reached")
        elif k == "terminate":
            yield ("abort", st, "abort")
        elif k == "switch":
            v = self.operand(st, fr, t["op"])
            if not isinstance(v, Sym):
                raise Unsupported("switch on %r" % (v,))
            ty = self.p.T[t["ty"]]
            rest = []
            x = v.t
            for val, tb in t["ts"]:
                n = int(val)
                if z3.is_bool(x):
                    c = x if n else z3.Not(x)
                else:
                    if ty["k"] == "int" and n >= 1 << (BITS[ty["n"]] - 1):
                        n -= 1 << BITS[ty["n"]]
                    c = x == n
                rest.append(z3.Not(c))
                c = z3.simplify(c)
                if z3.is_false(c):
                    continue
                s2 = st.clone()
                s2.assume(c)
                if z3.is_true(c) or self.s.feasible(s2.pc):
                    yield ("goto", s2, tb)
                if z3.is_true(c):
                    return
            rest = [z3.simplify(r) for r in rest]
            if any(z3.is_false(r) for r in rest):
                return
            s2 = st.clone()
            s2.assume(*rest)
            if self.s.feasible(s2.pc):
                yield ("goto", s2, t["o"])
        elif k == "assert":
            v = self.operand(st, fr, t["c"])
            for s2, b in self.fork(st, v.t):
                if b == t["e"]:
                    yield ("goto", s2, t["t"])
                else:
                    s2.event("assert-panic", self.full(fr, t) or t["m"])
                    yield self.unwind(s2, t["u"])
        elif k == "drop":
            a = self.place(st, fr, t["p"])
            if a[0] not in st.heap:
                yield ("goto", st, t["t"])
                return
            for kind, s2 in self.drop_value(st, self.load(st, a), fr.stack):
                if kind == "ok":
                    yield ("goto", s2, t["t"])
                elif kind == "abort":
                    yield ("abort", s2, "panic in a destructor while unwinding")
                else:
                    yield self.unwind(s2, t["u"])
        elif k == "call":
            args = [self.operand(st, fr, a) for a in t["args"]]
            dty = self.place_ty(fr, t["d"])
            f = t["f"]
            if f["k"] == "fn":
                fn = f["fn"]
                outs = self.call(st, fn, args, dty, fr.stack)
            elif f["k"] == "value":
                fv = self.operand(st, fr, f["op"])
                outs = self.call_value(st, fv, args, dty, fr.stack)
            else:
                raise Unsupported("call of constant " + f["k"])
            for kind, s2, val in outs:
                if kind == "ret":
                    if t["t"] is None:
                        continue
                    self.store(s2, self.place(s2, fr, t["d"]), val)
                    yield ("goto", s2, t["t"])
                elif kind == "panic":
                    yield self.unwind(s2, t["u"])
                else:
                    yield (kind, s2, val)
        else:
            raise Unsupported("terminator " + t.get("s", k))

    # ------------------------------------------------------------------ calls
    def call(self, st, fn, args, dty, stack):
        """list/generator of (kind, state, value)"""
        tr = (fn.get("decl") or fn).get("trait") or ""
        if tr.startswith("core::ops::function::Fn"):
            tup = args[1]
            if not isinstance(tup, Agg):
                raise Unsupported("opaque argument tuple")
            return self.call_value(st, args[0], list(tup.f), dty, stack)
        r = self.unit.call_hook(self, st, fn, args, dty, stack)
        if r is not None:
            return r
        r = self.bi.call(self, st, fn, args, dty, stack)
        if r is not None:
            return r
        key = fn.get("key")
        if key in self.insts and self.insts[key]["body"] is not None:
            return self.run_fn(st, key, args, stack)
        raise Unsupported("no contract for %s (trait %s, self %s)" % (fn.get("path"), fn.get("trait"), fn.get("self")))

    def call_value(self, st, f, args, dty, stack):
        """calls a closure, function item or opaque callable with untupled args"""
        while isinstance(f, Ref):
            g = self.load(st, f.addr())
            if isinstance(g, Agg) and g.key:
                return self.call_closure(st, g, f, args, dty, stack)
            f = g
        if isinstance(f, Agg) and f.key:
            return self.call_closure(st, f, None, args, dty, stack)
        if isinstance(f, FnV):
            fn = f.fn
            if fn.get("k") == "ctor":
                return [("ret", st, self.ctor_call(fn, args, dty))]
            return self.call(st, fn, args, dty, stack)
        r = self.unit.user_call(self, st, f, args, dty, stack)
        if r is None:
            raise Unsupported("call of opaque value %r" % (f,))
        return r

    def ctor_call(self, fn, args, dty):
        p = self.p
        name = fn["path"].split("::")[-1]
        if dty in p.adts:
            for v, x in enumerate(p.adts[dty]["variants"]):
                if x["name"] == name or p.adts[dty]["kind"] == "struct":
                    return Agg(dty, v, args)
        raise Unsupported("constructor " + fn["path"])

    def call_closure(self, st, c, ref, args, dty, stack):
        kind = self.p.T[c.ty]["kind"]
        if c.key not in self.insts:
            raise Unsupported("no body of closure " + c.key)
        want_ref = self.p.T[self.insts[c.key]["body"]["locals"][1]]["k"] == "ref"
        if want_ref:
            if ref is None:
                ref = Ref(st.new(c))
            a0 = ref
        else:
            a0 = c
        return self.run_fn(st, c.key, [a0] + list(args), stack)

    # ------------------------------------------------------------------ dropping
    def drop_value(self, st, v, stack):
        """list of ('ok'|'panic', state)"""
        if isinstance(v, GuardV):
            self.bi.unlock(self, st, v)
            return [("ok", st)]
        if isinstance(v, ArcV):
            n = st.arcs.get(v.loc)
            if n is None:
                return [("ok", st)]
            n = z3.simplify(n - 1) if z3.is_expr(n) else n - 1
            st.arcs[v.loc] = n
            if conc(n) == 0:
                return self.drop_value(st, st.heap[v.loc], stack)
            return [("ok", st)]
        ty = getattr(v, "ty", None)
        if ty is not None and ty in self.drops and not (isinstance(v, Agg) and v.key) and not isinstance(v, (BoxV, LockV, OnceV, DynV)):
            return self.user_drop(st, v, ty, stack)
        return self.drop_fields(st, v, stack)

    def user_drop(self, st, v, ty, stack):
        """the Drop implementation, then the fields"""
        fn = self.drops[ty]
        key = fn.get("key")
        if key not in self.insts or self.insts[key]["body"] is None:
            raise Unsupported("Drop implementation of " + self.p.T[ty]["s"])
        if isinstance(v, Sym):
            if self.p.is_enum(ty):
                raise Unsupported("Drop implementation of " + self.p.T[ty]["s"])
            v = self.expand(v, 0)
        loc = st.new(v)
        was = st.panicking
        outs = []
        for k, s, _ in self.run_fn(st, key, [Ref(loc)], stack):
            if k == "abort":
                outs.append((k, s))
            elif k == "panic" and was:
                outs.append(("abort", s))
            else:
                s.panicking = was or k == "panic"
                for k2, s2 in self.drop_fields(s, s.heap[loc], stack):
                    outs.append((k if k2 == "ok" and k == "panic" else "ok" if k2 == "ok" else k2, s2))
        return outs

    def drop_fields(self, st, v, stack):
        if isinstance(v, Agg):
            outs = [("ok", st)]
            for x in v.f:
                nxt = []
                for k, s in outs:
                    if k == "ok":
                        nxt += self.drop_value(s, x, stack)
                    else:
                        nxt.append((k, s))
                outs = nxt
            return outs
        if isinstance(v, BoxV):
            return self.drop_value(st, v.v, stack)
        if isinstance(v, LockV):
            return self.drop_value(st, v.v, stack)
        if isinstance(v, OnceV):
            if v.init is True or z3.is_expr(v.init) and z3.is_true(v.init):
                return self.drop_value(st, v.v, stack)
            if v.init is False or v.v is None or isinstance(v.v, Sym):
                return [("ok", st)]
            return [("ok", st)]
        if isinstance(v, DynV):
            return self.drop_value(st, v.v, stack)
        if isinstance(v, Alt):
            outs = []
            loc = st.new(v)
            for s2, a in self.variants(st, (loc, ())):
                outs += self.drop_value(s2, a, stack)
            return outs
        r = self.unit.drop_hook(self, st, v)
        if r is not None:
            return r
        return [("ok", st)]

    # ------------------------------------------------------------------ loops in the control-flow graph
    def loop(self, st, fr, h, active):
        if self.unit.attempting or not self.unit.partly:
            yield from self.loop_by_contract(st, fr, h, active)
            return
        try:
            res = list(self.loop_by_contract(st.clone(), fr, h, active))
        except Unsupported as e:
            why = "%s loop: %s" % (fr.inst["name"], e)
            yield from self.unrolled(st, fr, h, active, why)
            return
        yield from res

    def unrolled(self, st, fr, h, active, why, most=3):
        """No contract describes the loop: the paths that leave it within a few rounds are followed"""
        if self.unit.small is not None:
            most = 6
        todo = [(st, 0)]
        while todo:
            s, rounds = todo.pop()
            for r in self.blocks_from(s, fr, h, active + (h,)):
                if r[0] == "back" and r[2] == h:
                    if not self.s.feasible(r[1].pc):
                        continue
                    if rounds + 1 >= most:
                        self.unit.cut = why
                    else:
                        todo.append((r[1], rounds + 1))
                else:
                    yield r

    def loop_by_contract(self, st, fr, h, active):
        cfg = self.cfg(fr.body)
        live = cfg.live[h]
        its = []
        for n in sorted(live):
            loc = fr.lm[n]
            if isinstance(st.heap.get(loc), IterV):
                its.append(loc)
        # the iterator driven by this loop is the one whose address is passed to next() inside the loop
        used = set()
        for b in cfg.loops[h]:
            for s in fr.body["blocks"][b]["s"]:
                if s["k"] == "assign" and s["rv"]["k"] == "ref" and "Mut" in s["rv"]["bk"]:
                    used.add(fr.lm[s["rv"]["place"][0]])
        its = [l for l in its if l in used]
        import loops
        if len(its) != 1:
            if self.unit.work_loop is None:
                yield from self.counted_loop(st, fr, h, active)
            else:
                yield from loops.attempts(self, st, [lambda s: self.counted_loop(s, fr, h, active),
                                                     lambda s: self.unit.work_loop(self, s, fr, h, active)])
            return
        loc = its[0]
        it0 = st.heap[loc]
        n = self.bi.it_count(self, st, it0)
        cn = conc(z3.simplify(n) if z3.is_expr(n) else n)
        if cn is not None and cn <= 3:
            yield from self.rounds(st, fr, h, active, cn + 1)
            return

        def step(s, c):
            return self.loop_step(s, fr, h, active, loc, self.bi.it_advance(self, it0, c))
        yield from self.loop_ways(st, fr, h, Driver(loc, it0, n, step, lambda s, c: self.bi.it_advance(self, it0, c)))

    def rounds(self, st, fr, h, active, most):
        todo = [(st, 0)]
        while todo:
            s, rounds = todo.pop()
            if rounds > most:
                raise Unsupported("loop runs on after its iterator's end")
            for r in self.blocks_from(s, fr, h, active + (h,)):
                if r[0] == "back" and r[2] == h:
                    todo.append((r[1], rounds + 1))
                else:
                    yield r

    def counted_loop(self, st, fr, h, active):
        """a loop which counts an integer up or down by one in each round: as if over the numbers counted"""
        if self.unit.small is not None:
            yield from self.rounds(st, fr, h, active, 6)
            return
        live = self.cfg(fr.body).live[h]
        mark, was, self.probing = len(self.s.obs), self.probing, True
        self.unit.attempting += 1
        try:
            backs = [r[1] for r in self.blocks_from(st.clone(), fr, h, active + (h,)) if r[0] == "back" and r[2] == h]
        finally:
            self.probing = was
            self.unit.attempting -= 1
            del self.s.obs[mark:]
        found = []
        for m in sorted(live):
            v = st.heap.get(fr.lm[m])
            if isinstance(v, Sym) and self.p.T[v.ty]["k"] in ("int", "uint"):
                ds = {str(z3.simplify(s.heap[fr.lm[m]].t - v.t)) if isinstance(s.heap.get(fr.lm[m]), Sym) else "" for s in backs}
                if len(ds) == 1 and ds <= {"1", "-1"}:
                    found.append((fr.lm[m], v, int(ds.pop())))
        if len(found) != 1:
            raise Unsupported(NOT_DRIVEN)
        loc, v, d = found[0]
        lo, hi = rng(self.p.T[v.ty])
        end = self.p.fresh("end", z3.IntSort())
        if d > 0:
            it0 = IterV("seq", mode="range", lo=v.t, hi=end, ety=v.ty)
        else:
            it0 = IterV("rev", it=IterV("seq", mode="range", lo=end, hi=v.t, ety=v.ty))
        n = z3.simplify(end - v.t if d > 0 else v.t - end)

        def value(s, c):
            return Sym(v.ty, z3.simplify(v.t + d * c))

        def step(s, c):
            x = value(s, c)
            s.assume(x.t >= lo, x.t <= hi)
            s.heap[loc] = x
            return self.blocks_from(s, fr, h, active + (h,))
        st.assume(n >= 0)
        yield from self.loop_ways(st, fr, h, Driver(loc, it0, n, step, value, True))

    def loop_ways(self, st, fr, h, drv):
        import loops
        inv = self.unit.loop_inv(self, st, drv.it)
        ways = [lambda s: self.search_loop(s, fr, h, drv), lambda s: self.exact_loop(s, fr, h, drv)]
        if inv is not None:
            ways.insert(0, lambda s: self.inv_loop(s, fr, h, drv, inv))
        yield from loops.attempts(self, st, ways)

    def advanced(self, s, drv, c):
        if not self.val_eq(s, s.heap[drv.loc], drv.value(s, c)):
            raise Unsupported("loop does not advance its iterator by one")

    def exact_loop(self, st, fr, h, drv):
        import loops
        live = self.cfg(fr.body).live[h]
        dead = {fr.lm[x] for x in range(len(fr.lm)) if x not in live}

        def run(s, c):
            for r in drv.step(s, c):
                if r[0] == "back" and r[2] == h:
                    self.advanced(r[1], drv, c + 1)
                    yield ("back", r[1], None)
                else:
                    yield ("out", r[1], r)
        yield from loops.exact(self, st, drv.it, drv.n, run, dead | {drv.loc}, "%s loop" % fr.inst["name"], drv.counted)

    def went_on(self, hd, c, states, k0, mark):
        """in a loop that counts: the round before, if there was one, went on"""
        import builtins_more as bm
        alts = [bm.conj([x for x in s.pc[k0:] if not bm.consts_after(mark, [x])]) for s in states]
        f = z3.substitute(z3.Or(*alts), (c, c - 1)) if alts else z3.BoolVal(False)
        hd.assume(z3.Implies(c > 0, f))

    def inv_loop(self, st, fr, h, drv, inv):
        import loops
        live = self.cfg(fr.body).live[h]
        where = "%s loop" % fr.inst["name"]
        self.inv_check(st, inv, I(0), where + " init")
        hd = st.clone()
        c = self.p.fresh("c", z3.IntSort())
        hd.assume(c >= 0, c <= drv.n)
        mark = next(self.p.fresh_n)
        self.inv_set(hd, inv, c)
        dead = {fr.lm[x] for x in range(len(fr.lm)) if x not in live}
        if drv.counted:
            hd.heap[drv.loc] = drv.value(hd, c)
            obs, was, self.probing = len(self.s.obs), self.probing, True
            try:
                backs = [r[1] for r in drv.step(hd.clone(), c) if r[0] == "back" and r[2] == h]
            finally:
                self.probing = was
            del self.s.obs[obs:]
            self.went_on(hd, c, backs, len(hd.pc), mark)
        hd.heap[drv.loc] = drv.value(hd, c)
        rounds = lambda s: [r[1] for r in drv.step(s, c) if r[0] == "back" and r[2] == h]
        free = loops.tallies(self, hd, rounds, dead | {drv.loc}, inv)
        loops.anything(self, hd, free, c, loops.steady(self, hd, rounds, free))
        frame = {"cells": inv["cells"] + [(a, None) for a in free]}
        base = hd.clone()
        for r in drv.step(hd, c):
            if r[0] == "back" and r[2] == h:
                s2 = r[1]
                self.advanced(s2, drv, c + 1)
                self.inv_check(s2, inv, c + 1, where + " step")
                self.frame_check(base, s2, frame, dead | {drv.loc})
            else:
                yield r

    def search_loop(self, st, fr, h, drv):
        """a loop which changes nothing but its iterator until it leaves: what holds of the items passed over is
        read off one step at an arbitrary position"""
        import builtins_more as bm
        live = self.cfg(fr.body).live[h]
        dead = {fr.lm[x] for x in range(len(fr.lm)) if x not in live}
        j = self.p.fresh("j", z3.IntSort())
        mark = next(self.p.fresh_n)
        s0 = st.clone()
        s0.assume(j >= 0, j < drv.n)
        go = []
        if self.s.feasible(s0.pc):
            s0.heap[drv.loc] = drv.value(s0, j)
            k0, base, obs = len(s0.pc), s0.clone(), len(self.s.obs)
            for r in drv.step(s0, j):
                if r[0] != "back" or r[2] != h:
                    continue
                self.advanced(r[1], drv, j + 1)
                self.frame_check(base, r[1], bm.NOTHING, dead | {drv.loc})
                cs = list(r[1].pc[k0:])
                if bm.consts_after(mark, cs):
                    raise Unsupported("loop: the items passed over are not described by a formula")
                go.append(bm.conj(cs))
            del self.s.obs[obs:]
        passed = z3.simplify(z3.Or(*go)) if go else z3.BoolVal(False)
        if go and not z3.is_true(passed):
            self.unit.weak = True
        c = self.p.fresh("c", z3.IntSort())
        hd = st.clone()
        hd.assume(c >= 0, c <= drv.n)
        i = z3.Int("i!pass")
        if not go:
            hd.assume(c == 0)
        elif not z3.is_true(passed):
            hd.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), z3.substitute(passed, (j, i)))))
            if drv.counted:
                hd.assume(z3.Implies(c > 0, z3.substitute(passed, (j, c - 1))))
        for r in drv.step(hd, c):
            if r[0] != "back" or r[2] != h:
                yield r

    def loop_step(self, st, fr, h, active, loc, it):
        """one element of the iterator: an item for the body, or one that a filter passes over"""
        import builtins_more as bm
        if bm.same_len(it):
            st.heap[loc] = it
            yield from self.blocks_from(st, fr, h, active + (h,))
            return
        for k, s, x, i2 in self.bi.step(self, st, it, ()):
            if k == "skip":
                s.heap[loc] = i2
                yield ("back", s, h)
            elif k == "end":
                s.heap[loc] = IterV("given", x=None, then=i2)
                yield from self.blocks_from(s, fr, h, active + (h,))
            elif k == "item":
                s.heap[loc] = IterV("given", x=x, then=i2)
                yield from self.blocks_from(s, fr, h, active + (h,))
            else:
                raise Unsupported("a filter fails")

    def blocks_from(self, st, fr, h, active):
        cfg = self.cfg(fr.body)
        # as blocks(), but the head itself has been entered
        g = self.blocks_entered(st, fr, h, active)
        yield from g

    def blocks_entered(self, st, fr, bb, active):
        cfg = self.cfg(fr.body)
        blk = fr.body["blocks"][bb]
        states = [st]
        for s in blk["s"]:
            nxt = []
            for x in states:
                if s["k"] == "assign":
                    for y, v in self.rvalue(x, fr, s["rv"], self.place_ty(fr, s["p"])):
                        self.store(y, self.place(y, fr, s["p"]), v)
                        nxt.append(y)
                elif s["k"] == "dead":
                    nxt.append(x)
                else:
                    raise Unsupported("statement in loop head")
            states = nxt
        for x in states:
            for r in self.term(x, fr, blk["t"], active):
                if r[0] == "goto":
                    yield from self.blocks(r[1], fr, r[2], active)
                else:
                    yield r

    def inv_check(self, st, inv, i, name):
        for key, fn in inv["cells"]:
            cur = self.cell(st, key)
            self.check_eq(st, cur, fn(i), "%s: %s" % (name, key[0] if isinstance(key[0], str) else "cell"))
        for nm, fact in inv.get("facts", []):
            self.s.prove("%s: %s" % (name, nm), st.pc, fact(st, i))

    def cell(self, st, key):
        if key[0] == "trace":
            return st.trace
        if key[0] == "ghost":
            return st.ghost.get(key[1])
        return self.load(st, key)

    def inv_set(self, st, inv, i):
        for key, fn in inv["cells"]:
            v = fn(i)
            if key[0] == "trace":
                st.trace = v
            elif key[0] == "ghost":
                st.ghost[key[1]] = v
            else:
                self.store(st, key, v)
        for nm, fact in inv.get("facts", []):
            st.assume(fact(st, i))

    def frame_check(self, base, st, inv, skip):
        cells = [k for k, _ in inv["cells"] if not isinstance(k[0], str)]
        for loc, v in base.heap.items():
            if loc in skip:
                continue
            if loc not in st.heap:
                raise Unsupported("loop changes state its invariant does not describe")
            now = st.heap[loc]
            for k in cells:
                if k[0] == loc:
                    now = self.set_(st, now, k[1], self.get(v, k[1]))
            if now is not v and not self.val_eq(st, now, v):
                raise Unsupported("loop changes state its invariant does not describe")
        ghosts = {k[1] for k, _ in inv["cells"] if k[0] == "ghost"}
        for g, v in st.ghost.items():
            if g in ghosts or g in base.ghost and base.ghost[g] is v:
                continue
            if g not in base.ghost or not self.val_eq(st, v, base.ghost[g]) if isinstance(v, Val) or z3.is_expr(v) else g not in base.ghost or v != base.ghost[g]:
                raise Unsupported("loop changes ghost state its invariant does not describe")
        for loc, n in base.arcs.items():
            if not self.val_eq(st, self.mk_int(st.arcs[loc]), self.mk_int(n)):
                raise Unsupported("loop changes a reference count its invariant does not describe")
        if not any(k[0] == "trace" for k, _ in inv["cells"]) and not trace_eq(self, st, st.trace, base.trace):
            raise Unsupported("loop makes observable calls its invariant does not describe")

    def check_eq(self, st, a, b, name):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if trace_eq(self, st, a, b):
                self.s.ok(name)
            else:
                self.s.fail(name, "trace %r is not %r" % (a, b))
            return
        e = self.eq_term(st, a, b)
        if e is None:
            self.s.fail(name, "%r is not %r" % (a, b))
        else:
            self.s.prove(name, st.pc, e)

    def eq_term(self, st, a, b):
        """z3 condition under which two values are equal; None if they cannot be"""
        if a is b:
            return z3.BoolVal(True)
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.loc != b.loc or len(a.path) != len(b.path):
                return None
            cs = []
            for x, y in zip(a.path, b.path):
                if x[0] != y[0] or len(x) != len(y):
                    return None
                for u, w in zip(x[1:], y[1:]):
                    if z3.is_expr(u) or z3.is_expr(w):
                        cs.append(u == w)
                    elif u != w:
                        return None
            return z3.And(*cs) if cs else z3.BoolVal(True)
        if isinstance(a, ArcV) and isinstance(b, ArcV):
            return z3.BoolVal(True) if a.loc == b.loc else None
        if isinstance(a, GuardV) and isinstance(b, GuardV):
            return z3.BoolVal(True) if (a.loc, a.path, a.kind) == (b.loc, b.path, b.kind) else None
        if isinstance(a, LockV) and isinstance(b, LockV):
            if (a.r, a.w) != (b.r, b.w):
                return None
            x = self.eq_term(st, a.v, b.v)
            return None if x is None else z3.And(x, a.poison == b.poison)
        if isinstance(a, OnceV) and isinstance(b, OnceV):
            ai = a.init if z3.is_expr(a.init) else z3.BoolVal(a.init)
            bi = b.init if z3.is_expr(b.init) else z3.BoolVal(b.init)
            if a.v is None or b.v is None or a.v is UNINIT or b.v is UNINIT:
                return ai == bi if (a.v in (None, UNINIT) and b.v in (None, UNINIT)) else None
            x = self.eq_term(st, a.v, b.v)
            return None if x is None else z3.And(x, ai == bi)
        if isinstance(a, IterV) and isinstance(b, IterV):
            if a.kind != b.kind or set(a.p) != set(b.p):
                return None
            cs = []
            for k in a.p:
                x, y = a.p[k], b.p[k]
                if isinstance(x, (Val,)) or z3.is_expr(x) and z3.is_expr(y):
                    e = self.eq_term(st, x, y)
                    if e is None:
                        return None
                    cs.append(e)
                elif x is not y and x != y:
                    return None
            return z3.And(*cs) if cs else z3.BoolVal(True)
        if isinstance(b, Alt) and isinstance(a, Agg):
            a, b = b, a
        if isinstance(a, Alt) and isinstance(b, Agg) and b.v in a.alts:
            e = self.eq_term(st, a.alts[b.v], b)
            return None if e is None else z3.And(a.tag == b.v, e)
        if isinstance(a, Alt) and isinstance(b, Alt):
            if set(a.alts) != set(b.alts):
                return None
            cs = [a.tag == b.tag]
            for k in a.alts:
                e = self.eq_term(st, a.alts[k], b.alts[k])
                if e is None:
                    return None
                cs.append(e)
            return z3.And(*cs)
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return self.eq_term(st, a.v, b.v)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f) or a.key != b.key:
                return None
            cs = []
            for x, y in zip(a.f, b.f):
                e = self.eq_term(st, x, y)
                if e is None:
                    return None
                cs.append(e)
            return z3.And(*cs) if cs else z3.BoolVal(True)
        if isinstance(a, FnV) and isinstance(b, FnV):
            return z3.BoolVal(True) if a.fn.get("path") == b.fn.get("path") else None
        if a is UNINIT or b is UNINIT:
            return z3.BoolVal(a is b)
        if isinstance(a, (Opaque, StrV)) or isinstance(b, (Opaque, StrV)):
            if isinstance(b, StrV) and isinstance(a, Sym):
                a, b = b, a
            if isinstance(a, StrV) and isinstance(b, Sym) and self.bi.strlike(self, b):
                return self.bi.literal(a.s, b.t.sort()) == b.t
            if isinstance(a, StrV) and isinstance(b, StrV):
                return z3.BoolVal(a.s == b.s)
            return z3.BoolVal(True) if a is b else None
        if isinstance(a, DynV) and isinstance(b, DynV):
            return self.eq_term(st, a.v, b.v) if a.ty == b.ty else None
        try:
            x, y = self.lower(st, a), self.lower(st, b)
        except Unsupported:
            return None
        if x.sort() != y.sort():
            return None
        return x == y

    def val_eq(self, st, a, b):
        e = self.eq_term(st, a, b)
        if e is None:
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        r, _ = self.s.check(list(st.pc) + [z3.Not(e)])
        return r == z3.unsat


def trace_eq(ex, st, a, b):
    if a is None or b is None or len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for u, v in zip(x, y):
            if isinstance(u, Val) or z3.is_expr(u) or isinstance(v, Val) or z3.is_expr(v):
                if isinstance(u, (str, int)) or isinstance(v, (str, int)) or u is None or v is None:
                    return False
                if not ex.val_eq(st, u, v):
                    return False
            elif u != v:
                return False
    return True
