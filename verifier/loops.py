"""Loops: which way of reasoning about a loop applies is tried out in turn.

1. the invariant named by the unit under proof, if it names one for this loop;
2. a loop that changes nothing before it leaves: exact, from one step at an arbitrary position;
3. a loop whose every changed cell either has a meaning the unit gives for cells of its kind (proved initially and for
   one arbitrary step) or is a vector to which each step appends one value given by a formula of the position: exact.
An attempt whose obligations (init, step) are not discharged, or which does not apply, is withdrawn with everything it
recorded; the next one starts from the state before the loop."""
import re
import z3
import builtins_rs as b
from core import *

AUX = re.compile(r" (init|step): ")


class AccVec(Val):
    """a vector about which only what is appended to it is known"""

    def __init__(self, ty, items=()):
        self.ty, self.items = ty, tuple(items)

    def __repr__(self):
        return "appended%r" % (self.items,)


def attempts(ex, st, ways):
    first = None
    for way in ways:
        mark, ax = len(ex.s.obs), len(ex.unit.concats)
        cells = dict(ex.unit.loop_cells)
        ex.unit.attempting += 1
        try:
            res = list(way(st.clone()))
            bad = [o for o in ex.s.obs[mark:] if AUX.search(o.name) and o.status != "proved"]
            if not bad:
                return res
            err = Unsupported("loop contract does not fit: %s" % bad[0].name)
        except Unsupported as e:
            err = e
        finally:
            ex.unit.attempting -= 1
        if __import__("os").environ.get("DBG"): import traceback; traceback.print_exception(err)
        first = first or err
        del ex.s.obs[mark:]
        del ex.unit.concats[ax:]
        ex.unit.loop_cells = cells
    raise first


# ---------------------------------------------------------------- what a step changes

def diff(ex, st, old, new, path):
    if old is new:
        return
    if type(old) is type(new):
        if isinstance(old, Agg) and old.v == new.v and len(old.f) == len(new.f) and old.v is not None:
            for n in range(len(old.f)):
                yield from diff(ex, st, old.f[n], new.f[n], path + (("f", old.v, n),))
            return
        if isinstance(old, LockV) and (old.r, old.w) == (new.r, new.w) and old.poison.eq(new.poison):
            yield from diff(ex, st, old.v, new.v, path + (("lock",),))
            return
    if isinstance(old, Sym) and isinstance(new, Agg) and new.v is not None and len(new.f) == len(ex.p.fields(old.ty, new.v)) and not ex.p.is_enum(old.ty):
        for n in range(len(new.f)):
            yield from diff(ex, st, ex.get1(old, ("f", new.v, n)), new.f[n], path + (("f", new.v, n),))
        return
    if not ex.val_eq(st, old, new):
        yield path


def changed(ex, base, st, skip):
    for loc, v in base.heap.items():
        if loc in skip or loc not in st.heap:
            continue
        for p in diff(ex, st, v, st.heap[loc], ()):
            yield (loc, p)


def subst(v, pairs, locs):
    """the value at another position"""
    t = lambda x: z3.simplify(z3.substitute(x, *pairs)) if z3.is_expr(x) else x
    go = lambda x: subst(x, pairs, locs)
    if isinstance(v, Sym):
        return Sym(v.ty, t(v.t))
    if isinstance(v, Agg):
        return Agg(v.ty, v.v, [go(x) for x in v.f], v.key)
    if isinstance(v, BoxV):
        return BoxV(v.ty, go(v.v))
    if isinstance(v, OnceV):
        return OnceV(t(v.init), None if v.v is None else go(v.v), v.ghost)
    if isinstance(v, Ref):
        if v.loc not in locs:
            raise Unsupported("appended value refers to something made in the loop")
        return Ref(v.loc, tuple(tuple(t(y) for y in e) for e in v.path))
    if v is UNINIT or isinstance(v, (StrV, FnV)):
        return v
    raise Unsupported("appended value %r" % (v,))


def terms(v):
    if isinstance(v, Sym):
        yield v.t
    elif isinstance(v, Agg):
        for x in v.f:
            yield from terms(x)
    elif isinstance(v, BoxV):
        yield from terms(v.v)
    elif isinstance(v, OnceV):
        if z3.is_expr(v.init):
            yield v.init
        if v.v is not None:
            yield from terms(v.v)
    elif isinstance(v, Ref):
        for e in v.path:
            for y in e:
                if z3.is_expr(y):
                    yield y


def tally(ex, v):
    return isinstance(v, Sym) and ex.p.T[v.ty]["k"] in ("int", "uint", "bool")


def anything(ex, st, cells, c=None, steady=()):
    """numbers that a loop keeps for itself: any value, or what is reached from the first one in c steps of at most one"""
    from execu import rng
    for a in cells:
        v = ex.load(st, a)
        x = ex.p.fresh("tally", v.t.sort())
        if ex.p.T[v.ty]["k"] != "bool":
            lo, hi = rng(ex.p.T[v.ty])
            st.assume(x >= lo, x <= hi)
            if a in steady:
                st.assume(x - v.t <= c, v.t - x <= c, c < 1 << 63)
                ex.assumed["no loop makes 2^63 rounds"] = 1
        ex.store(st, a, Sym(v.ty, x))
        ex.unit.weak = ex.unit.vague = True


def steady(ex, st, run, cells):
    """which of the numbers a round changes by one at most"""
    s0 = st.clone()
    anything(ex, s0, cells)
    ok = [a for a in cells if ex.p.T[ex.load(s0, a).ty]["k"] != "bool"]
    mark = len(ex.s.obs)
    was, ex.probing = ex.probing, True
    try:
        for s in run(s0.clone()) if ok else ():
            for a in list(ok):
                d = ex.load(s, a).t - ex.load(s0, a).t
                if ex.s.feasible(s.pc + (z3.Or(d > 1, d < -1),)):
                    ok.remove(a)
    finally:
        ex.probing = was
    del ex.s.obs[mark:]
    return ok


def tallies(ex, st, run, skip, inv):
    """the numbers changed by a step that the invariant does not speak of; run(state) gives the states after it"""
    known = [k for k, _ in inv["cells"] if not isinstance(k[0], str)]
    out, mark = [], len(ex.s.obs)
    was, ex.probing = ex.probing, True
    try:
        for s in run(st.clone()):
            for a in changed(ex, st, s, skip):
                if not any(a[0] == k[0] and a[1][:len(k[1])] == k[1] for k in known) and a not in out and tally(ex, ex.load(st, a)):
                    out.append(a)
    finally:
        ex.probing = was
    del ex.s.obs[mark:]
    return out


def exact(ex, st, it, n, run, skip, where, counted=False):
    """run(state, position) yields ("back", state, _) for a completed step and ("out", state, result) otherwise"""
    import builtins_more as bm
    p = ex.p
    j = p.fresh("j", z3.IntSort())
    s0 = st.clone()
    s0.assume(j >= 0, j < n)
    cells = []
    mark = len(ex.s.obs)
    possible = ex.s.feasible(s0.pc)
    if possible:
        was, ex.probing = ex.probing, True
        try:
            probe = list(run(s0.clone(), j))
        finally:
            ex.probing = was
        for kind, s, r in probe:
            if kind == "back":
                for a in changed(ex, s0, s, skip):
                    if not any(a[0] == x[0] and a[1][:len(x[1])] == x[1] for x in cells):
                        cells = [x for x in cells if not (a[0] == x[0] and x[1][:len(a[1])] == a[1])] + [a]
    del ex.s.obs[mark:]
    if possible and not cells:
        raise Unsupported("loop changes state its invariant does not describe")
    hints, pushes, free = [], [], []
    for a in cells:
        old = ex.load(st, a)
        h = next((y for y in (f(ex, st, it, a, old) for f in ex.unit.cell_hints) if y is not None), None)
        if h is not None:
            hints.append((a, h))
        elif isinstance(old, (Sym, LazyVec)) and p.adt_path(old.ty) == "alloc::vec::Vec":
            pushes.append((a, old))
        elif tally(ex, old):
            free.append(a)
        else:
            raise Unsupported("loop changes state its invariant does not describe")

    even = steady(ex, s0, lambda s: [x for kind, x, _ in run(s, j) if kind == "back"], free)

    def place(s, i):
        anything(ex, s, free, i, even)
        for a, h in hints:
            if callable(h):
                ex.store(s, a, h(i))
            else:
                v = h["fresh"](s)
                ex.store(s, a, v)
                s.assume(*[f for _, f in h["facts"](s, v, i)])
    c = p.fresh("c", z3.IntSort())
    fresh_mark = next(p.fresh_n)
    hd = st.clone()
    hd.assume(c >= 0, c < n)
    for a, h in hints:
        if callable(h):
            ex.check_eq(st, ex.load(st, a), h(z3.IntVal(0)), where + " init: cell")
        else:
            for nm, f in h["facts"](st, ex.load(st, a), z3.IntVal(0)):
                ex.s.prove(where + " init: " + nm, st.pc, f)
    place(hd, c)
    k0 = len(hd.pc)
    for a, old in pushes:
        ex.store(hd, a, AccVec(old.ty))
    base = hd.clone()
    inv = {"cells": [(a, None) for a, _ in hints + pushes] + [(a, None) for a in free], "facts": []}
    items = {}
    go = []
    mark = len(ex.s.obs)
    if possible:
        for kind, s, r in run(hd.clone(), c):
            if kind != "back":
                continue
            for a, h in hints:
                if callable(h):
                    ex.check_eq(s, ex.load(s, a), h(c + 1), where + " step: cell")
                else:
                    for nm, f in h["facts"](s, ex.load(s, a), c + 1):
                        ex.s.prove(where + " step: " + nm, s.pc, f)
            ex.frame_check(base, s, inv, skip)
            for a, old in pushes:
                v = ex.load(s, a)
                if not isinstance(v, AccVec) or len(v.items) != 1:
                    raise Unsupported("loop does not append one value per step")
                x = v.items[0]
                if bm.consts_after(fresh_mark, list(terms(x))):
                    raise Unsupported("appended value is not described by a formula")
                if a in items and not ex.val_eq(s, x, items[a][1]):
                    raise Unsupported("appended value depends on the path taken")
                items[a] = (s, x)
            cs = list(s.pc[k0:])
            go.append(None if bm.consts_after(fresh_mark, cs) else bm.conj(cs))
    # obligations of the body itself stay; they are met again below on the way out
    aux = [o for o in ex.s.obs[mark:] if AUX.search(o.name)]
    ex.s.obs[mark:] = aux
    out = st.clone()
    out.assume(c >= 0, c <= n)
    if not go:
        out.assume(c == 0)
    elif None not in go:
        passed = z3.simplify(z3.Or(*go))
        if not z3.is_true(passed):
            ex.unit.weak = True
            i = z3.Int("i!pass")
            f = z3.substitute(passed, (c, i))
            if counted:
                out.assume(z3.Implies(c > 0, z3.substitute(passed, (c, c - 1))))
            if not hints:
                out.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), f)))
    place(out, c)
    for a, old in pushes:
        if a not in items:
            continue
        s, x = items[a]
        ex.store(out, a, appended(ex, out, it, old, s, x, c, set(st.heap)))
    for kind, s, r in run(out, c):
        if kind != "back":
            yield r


def appended(ex, st, it, old, s, x, c, locs):
    p = ex.p
    et = p.T[old.ty]["args"][0]
    t = None
    if not isinstance(old, LazyVec):
        try:
            t = z3.simplify(ex.lower(s, x))
        except Unsupported:
            t = None
    if t is None:
        if b.conc(z3.simplify(b.it_count(ex, st, old.it) if isinstance(old, LazyVec) else p.vec_len(old.t))) != 0:
            raise Unsupported("appends to a vector which is not empty")

        def item(ex, s, i):
            return subst(x, [(c, i)], locs)
        return LazyVec(old.ty, IterV("seq", mode="opaque", item=item, lo=z3.IntVal(0), hi=c, ety=et))
    base = b.it_base(it)
    w = None
    if base.kind == "seq" and b.conc(base.p["lo"]) == 0:
        src = None
        if base.p["mode"] == "val":
            src = base.p["vec"]
        elif base.p["mode"] == "ref":
            v = ex.load(st, base.p["base"].addr())
            src = v.t if isinstance(v, Sym) and p.adt_path(v.ty) == "alloc::vec::Vec" else None
        if src is not None and t.eq(z3.simplify(z3.Select(p.vec_arr(src), c))):
            w = p.vec_mk(p.vec_arr(src), c)
    if w is None:
        k = z3.Int("k!app")
        new = p.vec_mk(z3.Lambda([k], z3.substitute(t, (c, k))), c)
        w = p.fresh("appended", new.sort())
        st.assume(w == new, p.vec_len(w) == c)
    r = b.concat(ex, st, old.t, w)
    ex.unit.vec_fact(ex, st, "split", r, old.t, w)
    return Sym(old.ty, r)
