"""Intervals and interval trees (P21, P23, P24, P25)."""
from common import *

INTERVAL = "interval::Interval"
NODE = "interval::node::IntervalSearchTreeNode"
TREE = "interval::tree::IntervalSearchTree"


def bound_sort(u):
    """the sort of the only associated bound type of the crate in terms of the current root's parameters"""
    c = set()
    for i in u.ex.insts.values():
        if i["body"]:
            for t in i["body"]["locals"]:
                if u.p.T[t]["k"] == "alias" and u.p.T[t]["s"].endswith("::Bound"):
                    c.add(u.p.T[t]["s"])
    if not c:
        raise Unsupported("bound type not recognised")
    srt = {str(u.p.pname(s)): u.p.pname(s) for s in c}
    if len(srt) > 1:
        raise Unsupported("several bound types: %s" % sorted(srt))
    return list(srt.values())[0]


def lo_term(u, t, bound):
    return z3.Function("lo<%s>" % t.sort(), t.sort(), bound)(t)


def hi_term(u, t, bound):
    return z3.Function("hi<%s>" % t.sort(), t.sort(), bound)(t)


def ends(u, t, bound):
    """ranks of the limits of an interval"""
    return bi.rank(u.ex, lo_term(u, t, bound)), bi.rank(u.ex, hi_term(u, t, bound))


def lo_hi_hook(u):
    """contract of user intervals: lo and hi are pure functions of the interval"""
    def h(ex, st, fn, args, dty, stack):
        if fn.get("trait") == INTERVAL and fn["name"] in ("lo", "hi") and fn.get("k") == "unresolved":
            x = bi.through(ex, st, args[0])
            ex.assumed["Interval::lo and hi of user types are pure functions and do not panic"] = 1
            f = lo_term if fn["name"] == "lo" else hi_term
            return [("ret", st, Sym(dty, f(u, ex.lower(st, x), u.p.sort(dty))))]
        return None
    return h


def ext_hook(u):
    """contracts of IntervalExt, which every interval implements by the default methods (checked by P21)"""
    roots = [i for n in ("contains", "intersects") for r, i in u.v.prog("interval").find(n, None, "IntervalExt")]

    def h(ex, st, fn, args, dty, stack):
        if fn.get("trait") == "interval::IntervalExt" and fn.get("k") == "unresolved":
            if len(roots) != 2 or u.v.prog("interval").T[roots[0]["self_ty"] or 0]["s"] not in ("Self",) and roots[0].get("self") not in ("Self", None):
                raise Unsupported("IntervalExt is implemented in several ways")
            a = ex.lower(st, bi.through(ex, st, args[0]))
            if fn["name"] == "contains":
                b = ex.lower(st, args[1])
                lo, hi = ends(u, a, b.sort())
                return [("ret", st, ex.mk_bool(z3.And(lo <= bi.rank(ex, b), bi.rank(ex, b) <= hi)))]
            if fn["name"] == "intersects":
                b = ex.lower(st, bi.through(ex, st, args[1]))
                bs = bound_sort(u)
                (alo, ahi), (blo, bhi) = ends(u, a, bs), ends(u, b, bs)
                r = u.const("intersects", z3.BoolSort())
                st.assume(z3.Implies(z3.And(alo <= ahi, blo <= bhi), r == z3.And(alo <= bhi, blo <= ahi)))
                return [("ret", st, ex.mk_bool(r))]
        return None
    return h
