"""P21: two intervals intersect exactly when they share a point."""
from props.interval import *

CRATES = ("interval",)


def check(v):
    v.unit("IntervalExt::contains", contains)
    v.unit("IntervalExt::intersects", intersects)
    v.unit("lemma overlap is sharing a point", shares)


def two(u, name):
    u.find("interval", name, None, "IntervalExt")
    u.hooks += [lo_hi_hook(u), ext_hook(u)]
    st = State()
    t = u.p.T[u.arg_tys()[0]]["elem"]
    a = u.sym(t, "a")
    return st, a, st.new(a)


def contains(u):
    st, a, la = two(u, "contains")
    b = u.sym(u.arg_tys()[1], "bound")
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(la), b])):
        lo, hi = ends(u, a.t, b.t.sort())
        u.prove("contained exactly when neither below the lower nor above the upper limit", s, r.t == z3.And(lo <= bi.rank(u.ex, b.t), bi.rank(u.ex, b.t) <= hi))


def intersects(u):
    st, a, la = two(u, "intersects")
    t = u.p.T[u.arg_tys()[1]]["elem"]
    b = u.sym(t, "b")
    bound = bound_sort(u)
    alo, ahi = ends(u, a.t, bound)
    blo, bhi = ends(u, b.t, bound)
    st.assume(alo <= ahi, blo <= bhi)
    u.satisfiable(st)
    for s, r in u.returns(u.call(st, [Ref(la), Ref(st.new(b))])):
        u.prove("intersecting exactly when neither lies entirely before the other", s, r.t == z3.And(alo <= bhi, blo <= ahi))


def shares(u):
    u.find("interval", "intersects", None, "IntervalExt")
    alo, ahi, blo, bhi, x, y = [u.const(n, z3.IntSort()) for n in ("alo", "ahi", "blo", "bhi", "x", "y")]
    over = z3.And(alo <= bhi, blo <= ahi)
    pc = [alo <= ahi, blo <= bhi]
    u.prove("a shared point means overlap", pc + [alo <= x, x <= ahi, blo <= x, x <= bhi], over)
    w = z3.If(alo <= blo, blo, alo)
    u.prove("overlap means the greater lower limit is shared", pc + [over], z3.And(alo <= w, w <= ahi, blo <= w, w <= bhi))
    u.prove("it does not matter which one is asked", pc, over == z3.And(blo <= ahi, alo <= bhi))
