"""P22: dates order by their most significant component first, totally and consistently."""
from common import *

CRATES = ("interval",)
DATE = "interval::date::Date"
ENDIAN = {"interval::date::LittleEndian": False, "interval::date::BigEndian": True}   # is the first component the most significant


def check(v):
    p = v.prog("interval")
    seen = set()
    for name, trait in (("cmp", "Ord"), ("partial_cmp", "PartialOrd"), ("lt", "PartialOrd"), ("le", "PartialOrd"), ("gt", "PartialOrd"),
                        ("ge", "PartialOrd"), ("eq", "PartialEq"), ("ne", "PartialEq"), ("max", "Ord"), ("min", "Ord"), ("clamp", "Ord")):
        for r, i in p.find(name, "date::Date", "core::cmp::" + trait):
            e = endian(p, i["self_ty"])
            seen.add((name, e))
            v.unit("Date<%s>::%s" % (short(e), name), compare, name, r, i, e)

    def have(u):
        u.p = p
        for e in ENDIAN:
            u.prove("dates of either encoding are ordered", [], z3.BoolVal(("cmp", e) in seen or ("cmp", None) in seen))
        for n in ("partial_cmp", "eq"):
            u.prove("dates have a partial order and equality", [], z3.BoolVal(any(x == n for x, _ in seen)))
    v.unit("implementations", have)
    for n in ("lo", "hi"):
        v.unit("Date::" + n, own_limit, n)
    v.unit("lemma order", order)


def short(e):
    return e.split("::")[-1] if e else "any"


def endian(p, ty):
    a = [x for x in p.T[ty]["args"] if isinstance(x, int)]
    for x in a:
        if p.adt_path(x) in ENDIAN:
            return p.adt_path(x)
    return None


def parts(u, ty):
    """index of the components and their length"""
    if u.p.adt_path(ty) != DATE:
        raise Unsupported("date type expected")
    i = u.fidx(ty, lambda f: u.p.T[f]["k"] == "array", "components")
    for n, f in enumerate(u.p.fields(ty)):
        if n != i and u.p.adt_path(f) != PHANTOM:
            raise Unsupported("dates have fields the contract does not know")
    return i


def msd(a, b, n, j, big):
    """j is the most significant index at which a and b differ"""
    k = z3.Int("k!msd")
    more = z3.And(k >= 0, k < j) if big else z3.And(k > j, k < n)
    return z3.And(j >= 0, j < n, z3.Select(a, j) != z3.Select(b, j),
                  z3.ForAll([k], z3.Implies(more, z3.Select(a, k) == z3.Select(b, k)), patterns=[z3.Select(a, k)]))


def all_eq(a, b, n):
    k = z3.Int("k!eq")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, k) == z3.Select(b, k)), patterns=[z3.Select(a, k)])


def date(u, st, ty, name):
    i = parts(u, ty)
    v = u.sym(ty, name)
    x = u.ex.get1(v, ("f", 0, i))
    arr, n, et = bi.vec_of(u.ex, st, x)
    return v, arr, n


def compare(u, name, root, inst, e):
    u.use(u.v.prog("interval"), root, inst)
    p = u.p
    for equal in (True, False):
        st = State()
        byval = name in ("max", "min", "clamp")
        ts = [t if byval else p.T[t]["elem"] for t in u.arg_tys()]
        a, aa, n = date(u, st, ts[0], "a")
        b, ba, n2 = date(u, st, ts[1], "b")
        st.assume(n >= 0)
        j = u.const("j", z3.IntSort())
        if equal:
            st.assume(all_eq(aa, ba, n), *( [a.t == b.t] if e is None else []))
        elif e is None:
            if name in ("eq", "ne"):
                st.assume(j >= 0, j < n, z3.Select(aa, j) != z3.Select(ba, j))
            else:
                st.assume(a.t != b.t)
        else:
            st.assume(msd(aa, ba, n, j, ENDIAN[e]))
        u.satisfiable(st)
        if e is None:
            # generic over the encoding: the order is the one of Ord
            less = bi.rank(u.ex, a.t) < bi.rank(u.ex, b.t)
            eqv = a.t == b.t
        else:
            less = bi.rank(u.ex, z3.Select(aa, j)) < bi.rank(u.ex, z3.Select(ba, j))
        if name not in ("eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"):
            raise Unsupported("%s of dates is implemented by hand" % name)
        k = z3.Int("k!inv")

        def inv(ex, s, it):
            return {"cells": [], "facts": [("components passed are equal", lambda s, c: passed(c))]}

        def passed(c):
            rng = z3.And(k >= 0, k < n)
            done = k < c if it_forward[0] else k >= n - c
            return z3.ForAll([k], z3.Implies(z3.And(rng, done), z3.Select(aa, k) == z3.Select(ba, k)), patterns=[z3.Select(aa, k)])
        it_forward = [True]

        def loop(ex, s, it):
            x, rev = it, False
            while x.kind in ("rev", "enumerate", "inspect", "cloned", "map", "filter"):
                rev ^= x.kind == "rev"
                x = x.p["it"]
            if x.kind == "zip":
                y = x.p["a"]
                while y.kind == "rev":
                    rev ^= True
                    y = y.p["it"]
            it_forward[0] = not rev
            return inv(ex, s, it)
        u.loop_f = loop

        def hint(ex, s, it, addr, old):
            """the outcome collected so far: that of the differing component once it is passed, none while all were equal"""
            if e is None or not isinstance(old, Agg) or u.p.adt_path(old.ty) != "core::cmp::Ordering":
                return None
            loop(ex, s, it)
            fw = it_forward[0]

            def facts(s, v, c):
                t = v.tag if isinstance(v, Alt) else I(v.v)
                over = z3.BoolVal(False) if equal else (j < c if fw else j >= n - c)
                sign = I(1) if equal else z3.If(less, I(0), I(2))
                return [("the outcome collected so far", z3.If(z3.Or(over, z3.BoolVal(equal)), t == sign, z3.Implies(passed(c), t == 1))),
                        ("an outcome", z3.And(t >= 0, t <= 2))]
            return {"fresh": lambda s: Alt(old.ty, u.p.fresh("acc", z3.IntSort()), {k: Agg(old.ty, k, ()) for k in range(3)}), "facts": facts}
        u.cell_hints.append(hint)
        args = [a, b] if byval else [Ref(st.new(a)), Ref(st.new(b))]
        for s, r in u.returns(u.call(st, args)):
            if name in ("cmp", "partial_cmp"):
                for s2, c in u.cases(s, r):
                    if name == "partial_cmp":
                        if c.v == 0:
                            u.never("dates are always comparable", s2)
                            continue
                        cs = u.cases(s2, c.f[0])
                    else:
                        cs = [(s2, c)]
                    for s3, o in cs:
                        d = u.p.discr(o.ty, o.v) if hasattr(u.p, "discr") else o.v - 1
                        d = o.v - 1
                        if equal:
                            u.prove("dates with equal components are equal", s3, z3.BoolVal(d == 0))
                        else:
                            u.prove("the most significant differing component decides", s3, z3.BoolVal(d != 0) if d == 0 else less if d < 0 else z3.Not(less))
                continue
            want = {"eq": z3.BoolVal(equal), "ne": z3.BoolVal(not equal)}.get(name)
            if want is None:
                lt = z3.BoolVal(False) if equal else less
                eq = z3.BoolVal(equal)
                want = {"lt": lt, "le": z3.Or(lt, eq), "gt": z3.Not(z3.Or(lt, eq)), "ge": z3.Not(lt)}[name]
            u.prove("equal exactly when all components are equal" if name in ("eq", "ne") else "agrees with the order", s, r.t == want)


def own_limit(u, name):
    u.find("interval", name, "date::Date", "interval::Interval")
    st = State()
    d = u.sym(u.p.T[u.arg_tys()[0]]["elem"], "date")
    h = st.new(d)
    for s, r in u.returns(u.call(st, [Ref(h)])):
        u.same("a date is its own limit", s, r, d)


def order(u):
    """the order so specified is a total order that agrees with equality"""
    u.find("interval", "eq", "date::Date", "core::cmp::PartialEq")
    C = z3.DeclareSort("Component")
    S = z3.ArraySort(z3.IntSort(), C)
    a, b, c = [u.const(x, S) for x in "abc"]
    i, j, l, n, m = [u.const(x, z3.IntSort()) for x in ("i", "j", "l", "n", "m")]
    for big in (True, False):
        w = "big-endian: " if big else "little-endian: "
        rk = lambda x, y: bi.rank(u.ex, z3.Select(x, y))
        lt = lambda x, y, q: z3.And(msd(x, y, n, q, big), rk(x, q) < rk(y, q))
        u.prove(w + "only one index is the most significant differing one", [msd(a, b, n, i, big), msd(a, b, n, j, big)], i == j)
        u.prove(w + "antisymmetric", [lt(a, b, i), lt(b, a, j)], z3.BoolVal(False))
        u.prove(w + "equal dates are not less", [all_eq(a, b, n), lt(a, b, i)], z3.BoolVal(False))
        q = (z3.If(i <= j, i, j) if big else z3.If(i >= j, i, j))
        u.prove(w + "transitive", [lt(a, b, i), lt(b, c, j)], lt(a, c, q))
        # existence of the most significant differing index, by induction on the number of components already seen equal
        k = z3.Int("k!ind")
        done = lambda x: z3.And(k >= 0, k < x) if big else z3.And(k < n, k >= n - x)
        eqs = lambda x: z3.ForAll([k], z3.Implies(done(x), z3.Select(a, k) == z3.Select(b, k)), patterns=[z3.Select(a, k)])
        at = m if big else n - 1 - m
        u.prove(w + "dates that differ have a most significant differing index (induction start)", [n >= 0], eqs(I(0)))
        u.prove(w + "dates that differ have a most significant differing index (induction step)", [0 <= m, m < n, eqs(m)],
                z3.Or(msd(a, b, n, at, big), eqs(m + 1)))
        u.prove(w + "dates that differ have a most significant differing index (end)", [n >= 0, eqs(n)], all_eq(a, b, n))
