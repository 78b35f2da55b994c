"""P16: scoped access runs the closure exactly once, only if everything is available."""
from props.cell import *

READONLY, READWRITE = "plotline::deref::ReadOnly", "plotline::deref::ReadWrite"
TRYDEREF, TRYDEREFMUT = "plotline::deref::TryDeref", "plotline::deref::TryDerefMut"


def check(v):
    p = v.prog("plotline")
    for name in ("with", "with_mut"):
        found = {}
        for r, i in p.find(name, None, "deref::With" + ("Mut" if name == "with_mut" else "")):
            t = p.T[i["self_ty"]]
            n = 1 if t["k"] == "param" else len(t["args"]) if t["k"] == "tuple" else None
            if n is not None:
                found[n] = (r, i)
        for n in range(1, 7):
            v.unit("%s of %d value%s" % (name, n, "s" * (n > 1)), scoped, name, found.get(n), n)
    cell_units(v)


def scoped(u, name, at, n):
    """against the contracts of read/write (acquires, yields a guard) and try_deref (the current value or nothing)"""
    if at is None:
        raise Unsupported("anchor lost: %s of %d values" % (name, n))
    u.use(u.v.prog("plotline"), *at)
    p = u.p
    st = State()
    sty = p.T[u.arg_tys()[0]]["elem"]
    parts = [sty] if n == 1 else p.T[sty]["args"]
    if len(parts) != n:
        raise Unsupported("tuple of another size")
    vals = [u.sym(t, "value%d" % q) for q, t in enumerate(parts)]
    h = st.new(vals[0] if n == 1 else Agg(sty, 0, vals))
    fty = u.arg_tys()[1]
    f = u.sym(fty, "closure")
    acq = ("read", READONLY) if name == "with" else ("write", READWRITE)
    der = ("try_deref", TRYDEREF) if name == "with" else ("try_deref_mut", TRYDEREFMUT)
    st.ghost["held"] = ()          # acquired and not yet released
    st.ghost["order"] = ()         # positions in order of acquisition
    st.ghost["targets"] = ()       # (position, location of its current value)
    st.ghost["missing"] = False
    st.ghost["calls"] = 0
    st.ghost["end"] = None

    def which(s, v):
        """position of a value, by the place the reference points to"""
        v = v if isinstance(v, Ref) else None
        while v is not None and isinstance(u.ex.load(s, v.addr()), Ref):
            v = u.ex.load(s, v.addr())
        if v is None or v.loc != h:
            raise Unsupported("value being accessed not recognised")
        return 0 if n == 1 else v.path[0][2]

    def hook(ex, s, fn, args, dty, stack):
        if fn.get("k") != "unresolved":
            return None
        if fn.get("trait") == acq[1] and fn["name"] == acq[0]:
            q = which(s, args[0])
            u.prove("each value is acquired once", s, z3.BoolVal(q not in s.ghost["order"]))
            s2 = s.clone()
            s2.ghost["end"] = "panic"
            g = u.sym(dty, "guard%d" % q)
            s.ghost["held"] += (q,)
            s.ghost["order"] += (q,)
            s.ghost["guard", g.t.get_id()] = q
            bi.keep.append(g.t)
            return [("ret", s, g), ("panic", s2, None)]
        if fn.get("trait") in (der[1], TRYDEREF) and fn["name"] in (der[0], "try_deref"):
            x = bi.through(ex, s, args[0])
            q = s.ghost.get(("guard", x.t.get_id())) if isinstance(x, Sym) else None
            if q is None:
                raise Unsupported("guard not recognised")
            u.prove("only what is held is looked at", s, z3.BoolVal(q in s.ghost["held"]))
            et = p.T[p.T[dty]["args"][0]]["elem"]
            known = s.ghost.get(("seen", q))
            if known is not None:       # what is held does not change by itself
                return [("ret", s, Agg(dty, 0, ()) if known == "none" else Agg(dty, 1, (Ref(known),)))]
            s2, s3 = s.clone(), s.clone()
            s2.ghost["missing"] = True
            s2.ghost["seen", q] = "none"
            s3.ghost["end"] = "panic"
            loc = s.new(u.sym(et, "current%d" % q))
            s.ghost["targets"] += ((q, loc),)
            s.ghost["seen", q] = loc
            return [("ret", s, Agg(dty, 1, (Ref(loc),))), ("ret", s2, Agg(dty, 0, ())), ("panic", s3, None)]
        return None
    u.hooks.append(hook)

    def drop(ex, s, v):
        q = s.ghost.get(("guard", v.t.get_id())) if isinstance(v, Sym) else None
        if q is None:
            return None
        u.prove("nothing is released twice", s, z3.BoolVal(q in s.ghost["held"]))
        s.ghost["held"] = tuple(x for x in s.ghost["held"] if x != q)
        return [("ok", s)]
    u.dropf = drop

    def fx(ex, s, g, args, dty, stack):
        s.ghost["calls"] += 1
        u.same("it is the given closure that runs", s, bi.through(ex, s, g), f)
        u.prove("everything is held while the closure runs", s, z3.BoolVal(sorted(s.ghost["held"]) == list(range(n))))
        u.prove("the closure does not run if something is not available", s, z3.BoolVal(not s.ghost["missing"]))
        a = args
        if n > 1 and len(a) == 1 and isinstance(a[0], Agg):
            a = a[0].f
        elif n > 1 and len(a) == 1:
            a = bi.through(ex, s, a[0])
            a = a.f if isinstance(a, Agg) else ()
        u.prove("the closure is given as many values as were named", s, z3.BoolVal(len(a) == n))
        tg = dict(s.ghost["targets"])
        for q in range(min(n, len(a))):
            ok = isinstance(a[q], Ref) and a[q].path == () and (q, a[q].loc) in s.ghost["targets"]
            u.prove("the closure is given the current values in the order they were named", s, z3.BoolVal(ok))
        res = u.const("result", p.sort(dty))
        s.ghost["res"] = res
        s2 = s.clone()
        s2.ghost["end"] = "panic"
        return [("ret", s, Sym(dty, res)), ("panic", s2, None)]
    u.user_fx = fx
    before = st.clone()
    kinds = set()
    for k, s, r in u.call(st, [Ref(h), f]):
        g = s.ghost
        if k == "abort":
            u.never("no abort", s)
            continue
        u.prove("everything acquired has been released", s, z3.BoolVal(not g["held"]))
        u.prove("the closure runs at most once", s, z3.BoolVal(g["calls"] <= 1))
        same_heap(u, s, before, "the values being named stay what they are")
        if k == "panic":
            u.prove("no panic of its own", s, z3.BoolVal(g["end"] == "panic"))
            continue
        u.prove("a panic is passed on", s, z3.BoolVal(g["end"] is None))
        for s2, a in u.cases(s, r):
            kinds.add(a.v)
            if a.v == 0:
                u.prove("nothing is returned only if something is not available", s2, z3.BoolVal(g["missing"] and g["calls"] == 0))
            else:
                u.prove("the closure ran once", s2, z3.BoolVal(g["calls"] == 1))
                if g["calls"] == 1:
                    u.prove("its result is returned", s2, u.ex.lower(s2, a.f[0]) == g["res"])
    u.prove("both outcomes are possible", [], z3.BoolVal(kinds == {0, 1}))
