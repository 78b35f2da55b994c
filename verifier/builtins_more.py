"""More contracts of the standard library: searches, map entries, vector surgery, further iterator adaptors.

The deciders of the properties hold for the code as it is without most of these; they are here so that other ways of
writing the same code, and changes of it, are still decided by the verifier."""
import z3
import builtins_rs as b
from core import *

I = z3.IntVal
NOTHING = {"cells": [], "facts": []}
ENTRY = "alloc::collections::btree::map::entry::"


# ---------------------------------------------------------------- searches

def consts_after(mark, fs):
    """constants made after the fresh-name counter stood at mark"""
    seen, todo, out = set(), list(fs), {}
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name().rsplit("!", 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) > mark:
                    out[t.decl().name()] = t
            todo += t.children()
    return out


def conj(cs):
    return z3.And(*cs) if cs else z3.BoolVal(True)


def search(ex, st, it, body, stack, name):
    """A loop which stops at the first item its body breaks at and changes nothing before: exact, for any number of
    items. Yields what drive yields."""
    n = b.it_count(ex, st, it)
    j = ex.p.fresh("j", z3.IntSort())
    mark = next(ex.p.fresh_n)
    s0 = st.clone()
    s0.assume(j >= 0, j < n)
    k0 = len(s0.pc)
    base = s0.clone()
    go = []
    hit = False
    if not ex.s.feasible(s0.pc):
        yield ("done", st, None)
        return
    for k, s, x, _ in b.step(ex, s0, b.it_advance(ex, it, j), stack):
        if k == "end":
            raise Unsupported("%s: iterator shorter than its length" % name)
        ex.drive_pos = j
        outs = [("cont", s, None)] if k == "skip" else body(s, x) if k == "item" else [(k, s, x)]
        for kk, s2, v in outs:
            if kk != "cont":
                hit = True
                continue
            ex.frame_check(base, s2, NOTHING, set())
            cs = list(s2.pc[k0:])
            if consts_after(mark, cs):
                raise Unsupported("%s: the items passed over are not described by a formula" % name)
            go.append(conj(cs))
    passed = z3.simplify(z3.Or(*go)) if go else z3.BoolVal(False)
    if not z3.is_true(passed) and go:
        ex.unit.weak = True

    def before(w):
        i = z3.Int("i!pass")
        f = z3.substitute(passed, (j, i))
        return z3.BoolVal(True) if z3.is_true(f) else z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w), f))
    s1 = st.clone()
    s1.assume(before(n))
    if not go:
        s1.assume(n <= 0)
    if ex.s.feasible(s1.pc):
        yield ("done", s1, None)
    if not hit:
        return
    w = ex.p.fresh("w", z3.IntSort())
    s2 = st.clone()
    s2.assume(w >= 0, w < n, before(w))
    if not go:
        s2.assume(w == 0)
    for k, s, x, _ in b.step(ex, s2, b.it_advance(ex, it, w), stack):
        if k == "skip":
            continue
        ex.drive_pos = w
        outs = body(s, x) if k == "item" else [(k, s, x)]
        for kk, s3, v in outs:
            if kk == "cont":
                continue
            if ex.s.feasible(s3.pc):
                yield (kk, s3, v)


def c_position(ex, st, fn, args, dty, stack):
    it = b.consume_src(ex, st, args[0], stack)
    need_len(it, "position")
    floc = st.new(args[1])

    def body(s, x):
        at = ex.drive_pos
        for k, s2, v in ex.call_value(s, b.Ref(floc), [x], ex.p.bys.get("bool"), stack):
            if k != "ret":
                yield (k, s2, v)
                continue
            for s3, hit in ex.fork(s2, v.t):
                yield ("break", s3, at) if hit else ("cont", s3, None)
    for k, s, v in b.drive(ex, st, it, body, stack, "position"):
        if k == "done":
            yield ("ret", s, b.opt(ex, dty))
        elif k == "break":
            yield ("ret", s, b.opt(ex, dty, ex.mk_int(v)))
        else:
            yield (k, s, v)


def same_len(it):
    """does the chain yield one item for each element of its base?"""
    k = it.kind
    if k in ("seq", "empty", "given"):
        return True
    if k in ("zip", "chain"):
        return same_len(it.p["a"]) and same_len(it.p["b"])
    if k in ("rev", "map", "cloned", "enumerate", "inspect", "refs"):
        return same_len(it.p["it"])
    return False


def need_len(it, what):
    if not same_len(it):
        raise Unsupported("%s of a filtered iterator" % what)


def pure_chain(it):
    if it.kind in ("seq", "empty"):
        return True
    if it.kind in ("zip", "chain"):
        return pure_chain(it.p["a"]) and pure_chain(it.p["b"])
    return it.kind in ("rev", "cloned", "enumerate", "refs") and pure_chain(it.p["it"])


def pure_steps(ex, st, it, stack, what):
    """no step of the iterator, at any position, changes anything or fails"""
    if pure_chain(it):
        return
    j = ex.p.fresh("j", z3.IntSort())
    s0 = st.clone()
    s0.assume(j >= 0, j < b.it_count(ex, st, it))
    if not ex.s.feasible(s0.pc):
        return
    base = s0.clone()
    for k, s, x, _ in b.step(ex, s0, b.it_advance(ex, it, j), stack):
        if k == "end":
            raise Unsupported("%s: iterator shorter than its length" % what)
        if k not in ("item", "skip"):
            if ex.s.feasible(s.pc):
                raise Unsupported("%s: a step may fail" % what)
            continue
        ex.frame_check(base, s, NOTHING, set())


def items_count(ex, st, it, stack):
    n = b.it_count(ex, st, it)
    if same_len(it):
        pure_steps(ex, st, it, stack, "count")
        return b.ret(st, ex.mk_int(n))
    return filtered_count(ex, st, it, n, stack)


def filtered_count(ex, st, it, n, stack):
    pure_steps(ex, st, it, stack, "count")

    def body(s, x):
        yield ("break", s, None)
    out = []
    for k, s, v in b.drive(ex, st, it, body, stack, "count"):
        if k == "done":
            out.append(("ret", s, ex.mk_int(I(0))))
        elif k == "break":
            c = ex.p.fresh("count", z3.IntSort())
            s.assume(c >= 1, c <= n)
            ex.unit.weak = True
            out.append(("ret", s, ex.mk_int(c)))
        else:
            out.append((k, s, v))
    return out


def c_count(ex, st, fn, args, dty, stack):
    return items_count(ex, st, b.to_iter(ex, st, args[0], stack), stack)


def at_position(ex, st, it, pos, n, dty, stack):
    """Some(item at pos) when pos < n"""
    for s, ok in ex.fork(st, z3.And(pos >= 0, pos < n)):
        if not ok:
            yield ("ret", s, b.opt(ex, dty))
            continue
        for k, s2, x, _ in b.step(ex, s, b.it_advance(ex, it, pos), stack):
            if k == "item":
                yield ("ret", s2, b.opt(ex, dty, x))
            elif k in ("panic", "abort"):
                yield (k, s2, x)
            elif k == "skip":
                raise Unsupported("position in a filtered iterator")


def filtered_last(ex, st, it, dty, stack):
    """steps without effects: the last item is the first one met from the other end"""
    pure_steps(ex, st, it, stack, "last")

    def body(s, x):
        yield ("break", s, x)
    for k, s, v in b.drive(ex, st, b.IterV("rev", it=it), body, stack, "last"):
        if k in ("done", "break"):
            yield ("ret", s, b.opt(ex, dty) if k == "done" else b.opt(ex, dty, v))
        else:
            yield (k, s, v)


def filtered_next(ex, st, a, it, dty, stack, back):
    src = b.IterV("rev", it=it) if back else it

    def body(s, x):
        yield ("break", s, (x, ex.drive_pos))
    for k, s, v in b.drive(ex, st, src, body, stack, "next"):
        if k == "done":
            ex.store(s, a, b.it_advance(ex, it, b.it_count(ex, s, it), back))
            yield ("ret", s, b.opt(ex, dty))
        elif k == "break":
            x, at = v
            ex.store(s, a, b.it_advance(ex, it, z3.simplify(at + 1), back))
            if isinstance(x, Agg) and x.ty is None and dty is not None:
                x = Agg(ex.p.T[dty]["args"][0], x.v, x.f, x.key)
            yield ("ret", s, b.opt(ex, dty, x))
        else:
            yield (k, s, v)


def c_last(ex, st, fn, args, dty, stack):
    it = b.to_iter(ex, st, args[0], stack)
    n = b.it_count(ex, st, it)
    if not same_len(it):
        return filtered_last(ex, st, it, dty, stack)
    pure_steps(ex, st, it, stack, "last")
    return at_position(ex, st, it, z3.simplify(n - 1), n, dty, stack)


def c_nth(ex, st, fn, args, dty, stack):
    it = b.consume_src(ex, st, args[0], stack)
    if not pure_chain(it):
        raise Unsupported("nth of a chain with side effects or filters")
    return at_position(ex, st, it, args[1].t, b.it_count(ex, st, it), dty, stack)


def c_skip(ex, st, fn, args, dty, stack):
    it = b.to_iter(ex, st, args[0], stack)
    if not pure_chain(it):
        raise Unsupported("skip on a chain with side effects or filters")
    n, k = b.it_count(ex, st, it), args[1].t
    return [("ret", s, b.it_advance(ex, it, k if c else n)) for s, c in ex.fork(st, k <= n)]


def c_take(ex, st, fn, args, dty, stack):
    it = b.to_iter(ex, st, args[0], stack)
    if not pure_chain(it):
        raise Unsupported("take on a chain with side effects or filters")
    n, k = b.it_count(ex, st, it), args[1].t
    return [("ret", s, b.it_advance(ex, it, z3.simplify(n - k), True) if c else it) for s, c in ex.fork(st, k <= n)]


def c_exact_len(ex, st, fn, args, dty, stack):
    it = b.through(ex, st, args[0])
    if not isinstance(it, b.IterV):
        raise Unsupported("length of %r" % (it,))
    need_len(it, "length")
    return b.ret(st, ex.mk_int(b.it_count(ex, st, it)))


def c_try_fold(ex, st, fn, args, dty, stack):
    it = b.consume_src(ex, st, args[0], stack)
    acc = st.new(args[1])
    floc = st.new(args[2])
    good = {"core::result::Result": 0, "core::option::Option": 1}.get(ex.p.adt_path(dty))
    if good is None:
        raise Unsupported("try_fold over " + ex.p.T[dty]["s"])

    def body(s, x):
        for k, s2, v in ex.call_value(s, b.Ref(floc), [s.heap[acc], x], dty, stack):
            if k != "ret":
                yield (k, s2, v)
                continue
            loc = s2.new(v)
            for s3, a in ex.variants(s2, (loc, ())):
                if a.v == good:
                    s3.heap[acc] = a.f[0]
                    yield ("cont", s3, None)
                else:
                    yield ("break", s3, a)
    ex.unit.loop_cells = {"acc": (acc, ())}
    for k, s, v in b.drive(ex, st, it, body, stack, "try_fold"):
        if k == "done":
            yield ("ret", s, Agg(dty, good, (s.heap[acc],)))
        elif k == "break":
            yield ("ret", s, v)
        else:
            yield (k, s, v)


# ---------------------------------------------------------------- map entries

class EntryV(Val):
    """the entry of key kv (term k) in the map at addr"""

    def __init__(self, addr, mty, k, kv):
        self.addr, self.mty, self.k, self.kv = addr, mty, k, kv

    def __repr__(self):
        return "entry(%s)" % self.k

    def ref(self):
        return Ref(self.addr[0], self.addr[1] + (("mapv", self.k),))


def map_entry(ex, st, fn, args, dty, stack):
    a, m = b.map_at(ex, st, args[0])
    k = ex.lower(st, args[1])
    e = EntryV(a, m.ty, k, args[1])
    out = []
    for s, some in ex.fork(st, b.is_some(b.map_sel(m.t, k))):
        variant = [n for n, x in enumerate(ex.p.adts[dty]["variants"]) if x["name"] == ("Occupied" if some else "Vacant")][0]
        out.append(("ret", s, Agg(dty, variant, (e,))))
    return out


def entry_set(ex, st, e, v):
    m = ex.load(st, e.addr)
    x = ex.lower(st, v)
    o = b.map_sel(m.t, e.k)
    ex.store(st, e.addr, Sym(m.ty, z3.Store(m.t, e.k, m.t.sort().range().constructor(1)(x))))
    return Sym(ex.p.T[m.ty]["args"][1], b.unsome(o))


def entry_del(ex, st, e):
    m = ex.load(st, e.addr)
    o = b.map_sel(m.t, e.k)
    ex.store(st, e.addr, Sym(m.ty, z3.Store(m.t, e.k, m.t.sort().range().constructor(0)())))
    return Sym(ex.p.T[m.ty]["args"][1], b.unsome(o))


def entry_call(ex, st, fn, args, dty, stack):
    path, name = fn["path"], fn["name"]
    x = b.through(ex, st, args[0])
    if isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], EntryV):
        e, full = x.f[0], ex.p.adts[x.ty]["variants"][x.v]["name"] == "Occupied"
    elif isinstance(x, EntryV):
        e, full = x, "OccupiedEntry" in path
    else:
        return None
    ex.assumed[path] = 1
    vty = ex.p.T[e.mty]["args"][1]
    if "::Entry::" in path:
        if name in ("or_insert", "or_default", "or_insert_with", "or_insert_with_key"):
            if full:
                return [("ret", s, e.ref()) for k, s in (ex.drop_value(st, args[1], stack) if name == "or_insert" else [("ok", st)])]
            if name == "or_insert":
                outs = [("ret", st, args[1])]
            elif name == "or_default":
                outs = [("ret", st, b.default_value(ex, st, vty))]
            elif name == "or_insert_with":
                outs = ex.call_value(st, args[1], [], vty, stack)
            else:
                outs = ex.call_value(st, args[1], [Ref(st.new(e.kv))], vty, stack)
            res = []
            for k, s, v in outs:
                if k == "ret":
                    entry_set(ex, s, e, v)
                    v = e.ref()
                res.append((k, s, v))
            return res
        if name == "and_modify":
            if not full:
                return b.ret(st, args[0])
            return [(k, s, args[0] if k == "ret" else v) for k, s, v in ex.call_value(st, args[1], [e.ref()], ex.p.bys.get("()"), stack)]
        if name == "key":
            return b.ret(st, Ref(st.new(e.kv)))
        if name == "insert_entry":
            entry_set(ex, st, e, args[1])
            return b.ret(st, e)
    elif name in ("get", "get_mut", "into_mut"):
        return b.ret(st, e.ref())
    elif name == "insert":
        old = entry_set(ex, st, e, args[1])
        return b.ret(st, old if full else e.ref())
    elif name == "insert_entry":
        entry_set(ex, st, e, args[1])
        return b.ret(st, e)
    elif name == "remove":
        return b.ret(st, entry_del(ex, st, e))
    elif name == "remove_entry":
        return b.ret(st, Agg(dty, 0, (Sym(ex.p.T[e.mty]["args"][0], e.k), entry_del(ex, st, e))))
    elif name == "key":
        return b.ret(st, Ref(st.new(e.kv)))
    elif name == "into_key":
        return b.ret(st, e.kv)
    return None


def map_retain(ex, st, fn, args, dty, stack):
    a, m = b.map_at(ex, st, args[0])
    kty, vty = ex.p.T[m.ty]["args"][:2]
    floc = st.new(args[1])
    k = ex.p.fresh("k", m.t.sort().domain())
    mark = next(ex.p.fresh_n)
    s0 = st.clone()
    s0.assume(b.is_some(b.map_sel(m.t, k)))
    k0 = len(s0.pc)
    base = s0.clone()
    stay = []
    if ex.s.feasible(s0.pc):
        kr, vr = Ref(s0.new(Sym(kty, k))), Ref(a[0], a[1] + (("mapv", k),))
        for kk, s, y in ex.call_value(s0, Ref(floc), [kr, vr], ex.p.bys.get("bool"), stack):
            if kk != "ret":
                raise Unsupported("retain with a predicate that panics")
            ex.frame_check(base, s, NOTHING, set())
            cs = list(s.pc[k0:]) + [y.t]
            if consts_after(mark, cs):
                raise Unsupported("retain: the predicate is no formula")
            stay.append(conj(cs))
    q = z3.Const("k!retain", m.t.sort().domain())
    p = z3.substitute(z3.simplify(z3.Or(*stay)) if stay else z3.BoolVal(False), (k, q))
    c = ex.p.fresh("kept", m.t.sort())
    none = m.t.sort().range().constructor(0)()
    is_s = m.t.sort().range().recognizer(1)
    st.assume(z3.ForAll([q], z3.Select(c, q) == z3.If(z3.And(is_s(z3.Select(m.t, q)), p), z3.Select(m.t, q), none), patterns=[z3.Select(c, q)]))
    ex.store(st, a, Sym(m.ty, c))
    return b.ret(st, ex.unit_val())


def keys_fn(m):
    f = z3.Function("keys<%s>" % m.sort(), m.sort(), z3.ArraySort(z3.IntSort(), m.sort().domain()))
    return f(m)


def map_entries(ex, st, m):
    """(keys, values, number) of a map, in key order"""
    arr, n = b.vals_fn(ex, m)
    ks = keys_fn(m)
    i, j = z3.Int("i!ent"), z3.Int("j!ent")
    vs = m.sort().range()
    q = z3.Const("k!ent", m.sort().domain())
    at = z3.Function("keypos<%s>" % m.sort(), m.sort(), m.sort().domain(), z3.IntSort())
    st.assume(n >= 0,
              z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(m, z3.Select(ks, i)) == vs.constructor(1)(z3.Select(arr, i))),
                        patterns=[z3.Select(ks, i)]),
              z3.ForAll([q], z3.Implies(vs.recognizer(1)(z3.Select(m, q)), z3.And(at(m, q) >= 0, at(m, q) < n, z3.Select(ks, at(m, q)) == q)),
                        patterns=[z3.Select(m, q)]),
              z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), b.rank(ex, z3.Select(ks, i)) < b.rank(ex, z3.Select(ks, j))),
                        patterns=[z3.MultiPattern(z3.Select(ks, i), z3.Select(ks, j))]))
    return ks, arr, n


def map_iter(what):
    def f(ex, st, fn, args, dty, stack):
        v = args[0]
        if isinstance(v, Ref):
            a, m = b.map_at(ex, st, v)
        else:
            m = v
        kty, vty = ex.p.T[m.ty]["args"][:2]
        ks, arr, n = map_entries(ex, st, m.t)
        own = what.startswith("into")

        def item(ex, s, i):
            k = Sym(kty, z3.simplify(z3.Select(ks, i)))
            x = Sym(vty, z3.simplify(z3.Select(arr, i)))
            if not own:
                k, x = Ref(s.new(k)), Ref(s.new(x))
            if what.endswith("keys"):
                return k
            if what.endswith("values"):
                return x
            return Agg(None, 0, (k, x))
        return b.ret(st, IterV("seq", mode="opaque", item=item, lo=I(0), hi=n))
    return f


def map_get_key_value(ex, st, fn, args, dty, stack):
    a, m = b.map_at(ex, st, args[0])
    k = b.key_of(ex, st, args[1])
    kty = ex.p.T[m.ty]["args"][0]

    def some(s):
        return Agg(ex.p.T[dty]["args"][0], 0, (Ref(s.new(Sym(kty, k))), Ref(a[0], a[1] + (("mapv", k),))))
    return b.fork_opt(ex, st, dty, b.is_some(b.map_sel(m.t, k)), some)


def map_remove_entry(ex, st, fn, args, dty, stack):
    m = b.map_at(ex, st, args[0])[1]
    k = b.key_of(ex, st, args[1])
    out = []
    for kk, s, v in b.map_remove(ex, st, fn, args, dty, stack):
        if kk == "ret" and v.v == 1:
            v = Agg(dty, 1, (Agg(ex.p.T[dty]["args"][0], 0, (Sym(ex.p.T[m.ty]["args"][0], k), v.f[0])),))
        out.append((kk, s, v))
    return out


def map_append(ex, st, fn, args, dty, stack):
    a, m = b.map_at(ex, st, args[0])
    a2, m2 = b.map_at(ex, st, args[1])
    return map_join(ex, st, a, m, m2, a2)


def map_join(ex, st, a, m, m2, a2=None):
    q = z3.Const("k!app", m.t.sort().domain())
    is_s = m.t.sort().range().recognizer(1)
    c = ex.p.fresh("joined", m.t.sort())
    st.assume(z3.ForAll([q], z3.Select(c, q) == z3.If(is_s(z3.Select(m2.t, q)), z3.Select(m2.t, q), z3.Select(m.t, q)), patterns=[z3.Select(c, q)]))
    ex.store(st, a, Sym(m.ty, c))
    if a2 is not None:
        ex.store(st, a2, b.empty_map(ex, m.ty))
    return b.ret(st, ex.unit_val())


def map_extend(ex, st, fn, args, dty, stack):
    a, m = b.map_at(ex, st, args[0])
    w = args[1]
    if isinstance(w, Sym) and w.t.sort() == m.t.sort():
        return map_join(ex, st, a, m, w)
    it = b.to_iter(ex, st, w, stack)
    loc = st.new(m)
    out = []
    for k, s, v in b.map_extend_loop(ex, st, loc, it, m.ty, stack):
        if k == "ret":
            ex.store(s, a, s.heap[loc])
            v = ex.unit_val()
        out.append((k, s, v))
    return out


# ---------------------------------------------------------------- vectors

def rebuilt(ex, st, name, arr, n):
    """fresh vector equal to the given elements"""
    new = ex.p.vec_mk(arr, z3.simplify(n))
    c = ex.p.fresh(name, new.sort())
    st.assume(c == new, ex.p.vec_len(c) == n)
    return c


def vec_term(ex, st, v):
    if isinstance(v, LazyVec):
        raise Unsupported("surgery on a lazy vector")
    return b.vec_of(ex, st, v)


def vec_insert(ex, st, fn, args, dty, stack):
    a, v = b.vec_at(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    i, x = args[1].t, ex.lower(st, args[2])
    out = []
    for s, ok in ex.fork(st, z3.And(i >= 0, i <= n)):
        if not ok:
            out.append(("panic", s, None))
            continue
        j = z3.Int("j!ins")
        c = rebuilt(ex, s, "inserted", z3.Lambda([j], z3.If(j < i, z3.Select(arr, j), z3.If(j == i, x, z3.Select(arr, j - 1)))), n + 1)
        ex.store(s, a, Sym(v.ty, c))
        ex.unit.vec_fact(ex, s, "push", c, v.t, x)
        out.append(("ret", s, ex.unit_val()))
    return out


def vec_swap_remove(ex, st, fn, args, dty, stack):
    a, v = b.vec_at(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    i = args[1].t
    out = []
    for s, ok in ex.fork(st, z3.And(i >= 0, i < n)):
        if not ok:
            out.append(("panic", s, None))
            continue
        x = z3.simplify(z3.Select(arr, i))
        c = ex.p.vec_mk(z3.Store(arr, i, z3.Select(arr, n - 1)), z3.simplify(n - 1))
        ex.store(s, a, Sym(v.ty, c))
        ex.unit.vec_fact(ex, s, "remove", c, v.t, x)
        out.append(("ret", s, Sym(et, x)))
    return out


def vec_truncate(ex, st, fn, args, dty, stack):
    a, v = b.vec_at(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    k = args[1].t if fn["name"] == "truncate" else I(0)
    out = []
    for s, less in ex.fork(st, k < n):
        if less:
            l = ex.p.vec_mk(arr, k)
            r = b.subvec(ex, s, arr, k, n - k)
            ex.store(s, a, Sym(v.ty, l))
            ex.unit.vec_fact(ex, s, "split", v.t, l, r)
        out.append(("ret", s, ex.unit_val()))
    return out


def vec_reverse(ex, st, fn, args, dty, stack):
    a, v = b.vec_at(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    j = z3.Int("j!rev")
    c = rebuilt(ex, st, "reversed", z3.Lambda([j], z3.Select(arr, n - 1 - j)), n)
    if ex.unit.vecf:
        raise Unsupported("reverse: no multiset fact")
    ex.store(st, a, Sym(v.ty, c))
    return b.ret(st, ex.unit_val())


def slice_rotate(right):
    def f(ex, st, fn, args, dty, stack):
        a, v = b.vec_at(ex, st, args[0])
        arr, n, et = vec_term(ex, st, v)
        k = args[1].t
        if ex.unit.vecf:
            raise Unsupported("rotate: no multiset fact")
        out = []
        for s, ok in ex.fork(st, z3.And(k >= 0, k <= n)):
            if ok:
                j = z3.Int("j!rot")
                m = z3.simplify(n - k) if right else k       # the first m elements go to the end
                c = rebuilt(ex, s, "rotated", z3.Lambda([j], z3.If(j < n - m, z3.Select(arr, j + m), z3.Select(arr, j - (n - m)))), n)
                ex.store(s, a, Sym(v.ty, c))
            out.append(("ret", s, ex.unit_val()) if ok else ("panic", s, None))
        return out
    return f


def slice_swap(ex, st, fn, args, dty, stack):
    a, v = b.vec_at(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    i, j = args[1].t, args[2].t
    if ex.unit.vecf:
        raise Unsupported("swap: no multiset fact")
    out = []
    for s, ok in ex.fork(st, z3.And(i >= 0, i < n, j >= 0, j < n)):
        if ok:
            ex.store(s, a, Sym(v.ty, ex.p.vec_mk(z3.Store(z3.Store(arr, i, z3.Select(arr, j)), j, z3.Select(arr, i)), n)))
        out.append(("ret", s, ex.unit_val()) if ok else ("panic", s, None))
    return out


def vec_splice(ex, st, fn, args, dty, stack):
    """the removed elements; the replacement takes their place at once (nothing else can look in between)"""
    a, v = b.vec_at(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    lo, hi = b.range_of(ex, st, args[1], n)
    w = args[2]
    if isinstance(w, (Sym, IterV, LazyVec)):
        it = b.to_iter(ex, st, w, stack)
    else:
        raise Unsupported("splice with %r" % (w,))
    if not (it.kind == "seq" and it.p["mode"] == "val" and b.conc(it.p["lo"]) == 0):
        raise Unsupported("splice with a computed replacement")
    warr, m = ex.p.vec_arr(it.p["vec"]), it.p["hi"]
    wt = ex.p.vec_mk(warr, m)
    out = []
    for s, ok in ex.fork(st, z3.And(lo >= 0, lo <= hi, hi <= n)):
        if not ok:
            out.append(("panic", s, None))
            continue
        head = ex.p.vec_mk(arr, z3.simplify(lo))
        d = b.subvec(ex, s, arr, lo, z3.simplify(hi - lo))
        tail = b.subvec(ex, s, arr, hi, z3.simplify(n - hi))
        front = b.concat(ex, s, head, wt)
        c = b.concat(ex, s, front, tail)
        ex.store(s, a, Sym(v.ty, c))
        if ex.unit.vecf:
            raise Unsupported("splice: no multiset fact")
        out.append(("ret", s, IterV("seq", mode="val", vec=d, lo=I(0), hi=z3.simplify(hi - lo), ety=et, vty=v.ty)))
    return out


def extend_from_slice(ex, st, fn, args, dty, stack):
    src = b.through(ex, st, args[1])
    return b.vec_extend(ex, st, {**fn, "name": "extend"}, [args[0], src], dty, stack)


def slice_contains(ex, st, fn, args, dty, stack):
    it = b.to_iter(ex, st, args[0], stack)
    y = b.through(ex, st, args[1])

    def body(s, x):
        e = ex.eq_term(s, b.through(ex, s, x), y)
        if e is None:
            raise Unsupported("contains of %r" % (y,))
        for s3, hit in ex.fork(s, e):
            yield ("break", s3, None) if hit else ("cont", s3, None)
    ex.assumed["comparison of user types is lawful (total order consistent with equality) and does not panic"] = 1
    for k, s, v in search(ex, st, it, body, stack, "contains"):
        yield ("ret", s, ex.mk_bool(k == "break")) if k in ("done", "break") else (k, s, v)


def to_vec(ex, st, fn, args, dty, stack):
    v = b.through(ex, st, args[0])
    arr, n, et = vec_term(ex, st, v)
    return b.ret(st, Sym(dty, ex.p.vec_mk(arr, n)))


def str_is_empty(ex, st, fn, args, dty, stack):
    v = b.through(ex, st, args[0])
    if isinstance(v, StrV):
        return b.ret(st, ex.mk_bool(v.s == ""))
    if not b.strlike(ex, v):
        raise Unsupported("text expected, got %r" % (v,))
    return b.ret(st, ex.mk_bool(v.t == b.literal("", v.t.sort())))


def vec_reserve(ex, st, fn, args, dty, stack):
    return b.ret(st, ex.unit_val())


def c_rposition(ex, st, fn, args, dty, stack):
    it = b.consume_src(ex, st, args[0], stack)
    n = b.it_count(ex, st, it)
    out = []
    for k, s, v in c_position(ex, st, fn, [IterV("rev", it=it), args[1]], dty, stack):
        if k == "ret" and v.v == 1:
            v = Agg(v.ty, 1, (ex.mk_int(z3.simplify(n - 1 - v.f[0].t)),))
        out.append((k, s, v))
    return out


def lexicographic(ex, st, x, y, dty, stack, name):
    """the first differing item decides, then the length"""
    p = ex.p
    oty = dty if name == "cmp" else next((i for i, t in enumerate(p.T) if t["k"] == "adt" and t["path"] == "core::cmp::Ordering"), None)
    if name == "partial_cmp":
        oty = p.T[dty]["args"][0]
    for i in (x, y):
        need_len(i, "comparison")
    n, m = b.it_count(ex, st, x), b.it_count(ex, st, y)

    def body(s, item):
        u, w = (b.through(ex, s, f) for f in item.f)
        r = b.compare(ex, s, {"path": "core::cmp::Ord::cmp"}, [Ref(s.new(u)), Ref(s.new(w))], oty, stack, "cmp")
        if r is None:
            raise Unsupported("comparison of %r and %r" % (u, w))
        for k, s2, o in r:
            if k != "ret":
                yield (k, s2, o)
            elif o.v == 1:
                yield ("cont", s2, None)
            else:
                yield ("break", s2, o)

    def give(s, o):
        d = o - 1
        if name == "cmp":
            return Agg(dty, o, ())
        if name == "partial_cmp":
            return Agg(dty, 1, (Agg(oty, o, ()),))
        return ex.mk_bool(z3.BoolVal({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[name]))
    for k, s, v in b.drive(ex, st, IterV("zip", a=x, b=y), body, stack, "lexicographic " + name):
        if k == "break":
            yield ("ret", s, give(s, v.v))
        elif k == "done":
            for o, c in ((0, n < m), (1, n == m), (2, n > m)):
                s2 = s.clone()
                s2.assume(z3.simplify(c))
                if ex.s.feasible(s2.pc):
                    yield ("ret", s2, give(s2, o))
        else:
            yield (k, s, v)


def c_lex(name):
    def f(ex, st, fn, args, dty, stack):
        x = b.to_iter(ex, st, args[0], stack)
        y = b.c_into_iter(ex, st, fn, [args[1]], dty, stack) if not isinstance(args[1], b.IterV) else None
        y = args[1] if y is None else y[0][2]
        return lexicographic(ex, st, x, y, dty, stack, name)
    return f


def slice_compare(name):
    def f(ex, st, fn, args, dty, stack):
        x, y = (b.to_iter(ex, st, a, stack) for a in args)
        return lexicographic(ex, st, x, y, dty, stack, name)
    return f


def array_compare(name):
    """only for [T; N] as a whole"""
    def f(ex, st, fn, args, dty, stack):
        x, y = (b.to_iter(ex, st, a, stack) for a in args)
        return lexicographic(ex, st, x, y, dty, stack, name)
    return f


def try_lock(kind):
    """like the blocking form, or refused because some other thread (or this one) is using the lock"""
    def f(ex, st, fn, args, dty, stack):
        a, l = b.lock_at(ex, st, args[0])
        et = ex.p.T[dty]["args"][1]
        names = [v["name"] for v in ex.p.adts[et]["variants"]]
        refused = Agg(dty, 1, (Agg(et, names.index("WouldBlock"), ()),))
        out = [("ret", st.clone(), refused)]
        if l.w or (kind == "w" and l.r > 0):
            return out
        s0 = st.clone()
        for s, p in ex.fork(s0, l.poison):
            ex.store(s, a, LockV(l.v, z3.BoolVal(p), l.r + (kind == "r"), kind == "w"))
            g = b.GuardV(a[0], a[1], kind + ("p" if s.panicking else ""))
            if p:
                pt = ex.p.fields(et, names.index("Poisoned"))[0]
                pn = len(ex.p.fields(pt, 0))
                if pn != 1:
                    raise Unsupported("poison error not recognised")
                out.append(("ret", s, Agg(dty, 1, (Agg(et, names.index("Poisoned"), (Agg(pt, 0, (g,)),)),))))
            else:
                out.append(("ret", s, Agg(dty, 0, (g,))))
        return out
    return f


def split_end(last):
    def f(ex, st, fn, args, dty, stack):
        a, v = b.vec_at(ex, st, args[0])
        arr, n, et = vec_term(ex, st, v)
        out = []
        for s, some in ex.fork(st, n > 0):
            if not some:
                out.append(("ret", s, b.opt(ex, dty)))
                continue
            tt = ex.p.T[dty]["args"][0]
            at = z3.simplify(n - 1) if last else I(0)
            rest = ex.p.vec_mk(arr, z3.simplify(n - 1)) if last else b.subvec(ex, s, arr, I(1), z3.simplify(n - 1))
            out.append(("ret", s, b.opt(ex, dty, Agg(tt, 0, (Ref(a[0], a[1] + (("ix", at),)), Ref(s.new(Sym(v.ty, rest))))))))
        return out
    return f


def text_fn(name):
    """a text computed from a text; nothing is said about it but that it depends on nothing else"""
    def f(ex, st, fn, args, dty, stack):
        v = b.through(ex, st, args[0])
        if isinstance(v, StrV):
            py = {"trim": v.s.strip(), "trim_start": v.s.lstrip(), "trim_end": v.s.rstrip()}
            if name in py:
                return b.ret(st, StrV(py[name]))
            raise Unsupported("%s of a literal" % name)
        if not b.strlike(ex, v):
            raise Unsupported("text expected, got %r" % (v,))
        g = z3.Function("str::" + name, v.t.sort(), v.t.sort())
        if ex.p.T[dty]["k"] == "ref":
            return b.ret(st, Ref(st.new(Sym(ex.p.T[dty]["elem"], g(v.t)))))
        if ex.p.sort(dty) != v.t.sort():
            raise Unsupported("%s of a text" % name)
        return b.ret(st, Sym(dty, g(v.t)))
    return f


VEC, SL, BT, BT1, VEC1 = b.VEC, b.SL, b.BT, b.BT1, b.VEC1
MPATH = "alloc::collections::btree::map::BTreeMap<K, V, A>"

b.PATHS.update({
    BT + "entry": map_entry, BT + "retain": map_retain, BT + "iter": map_iter("iter"), BT + "keys": map_iter("keys"),
    BT + "into_values": map_iter("into_values"), BT + "into_keys": map_iter("into_keys"), BT + "get_key_value": map_get_key_value,
    BT + "remove_entry": map_remove_entry, BT + "append": map_append,
    VEC + "insert": vec_insert, VEC + "swap_remove": vec_swap_remove, VEC + "truncate": vec_truncate, VEC + "clear": vec_truncate,
    VEC + "splice": vec_splice, VEC + "extend_from_slice": extend_from_slice, VEC + "as_mut_slice": b.vec_same,
    SL + "reverse": vec_reverse, SL + "swap": slice_swap, SL + "iter_mut": b.slice_iter, SL + "get_mut": b.vec_get,
    SL + "first_mut": b.vec_last, SL + "last_mut": b.vec_last, SL + "contains": slice_contains, SL + "to_vec": to_vec,
    SL + "rotate_left": slice_rotate(False), SL + "rotate_right": slice_rotate(True), "alloc::slice::<impl [T]>::to_vec": to_vec,
    "alloc::slice::<impl [T]>::into_vec": to_vec,
})
b.PATHS.update({
    "alloc::string::String::is_empty": str_is_empty, "core::str::<impl str>::is_empty": str_is_empty,
    "alloc::string::String::as_str": lambda ex, st, fn, a, d, k: b.ret(st, a[0]),
})
b.ITERS.update({"position": c_position, "count": c_count, "last": c_last, "nth": c_nth, "skip": c_skip, "take": c_take,
                "try_fold": c_try_fold})
b.ITERS.update({"rposition": c_rposition, **{n: c_lex(n) for n in ("cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge")}})
b.PATHS.update({VEC + n: vec_reserve for n in ("reserve", "reserve_exact", "shrink_to_fit", "shrink_to")})
b.PATHS.update({b.RW + "try_read": try_lock("r"), b.RW + "try_write": try_lock("w"), SL + "split_last": split_end(True), SL + "split_first": split_end(False)})
b.PATHS.update({"core::str::<impl str>::" + n: text_fn(n) for n in ("trim", "trim_start", "trim_end", "trim_left", "trim_right")})
b.PATHS.update({"alloc::str::<impl str>::" + n: text_fn(n) for n in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")})
b.SLICE_ORD = {"compare": slice_compare("cmp"), "partial_compare": slice_compare("partial_cmp")}
HM = "std::collections::hash::map::HashMap::<K, V, S, A>::"
for _n in ("get", "get_mut", "contains_key", "insert", "remove", "len", "is_empty", "clear", "entry", "get_key_value", "remove_entry"):
    b.PATHS[HM + _n] = b.PATHS[BT + _n]
b.PATHS["std::collections::hash::map::HashMap::<K, V>::new"] = b.PATHS[BT1 + "new"]
b.PATHS["std::collections::hash::map::HashMap::<K, V>::with_capacity"] = b.PATHS[BT1 + "new"]
DQ = "alloc::collections::vec_deque::VecDeque::<T, A>::"
b.PATHS.update({DQ + "push_back": b.vec_push, DQ + "pop_back": b.vec_pop, DQ + "pop_front": b.deque_pop_front,
                DQ + "push_front": lambda ex, st, fn, a, d, k: vec_insert(ex, st, fn, [a[0], ex.mk_int(0), a[1]], d, k),
                DQ + "len": b.vec_len, DQ + "is_empty": b.vec_is_empty, DQ + "clear": vec_truncate,
                "alloc::collections::vec_deque::VecDeque::<T>::new": b.vec_new, "alloc::collections::vec_deque::VecDeque::<T>::with_capacity": b.vec_new})


def seq_from(ex, st, fn, args, dty, stack):
    """a sequence made of an array or of another sequence"""
    v = b.through(ex, st, args[0])
    arr, n, et = b.vec_of(ex, st, v)
    if not (isinstance(v, Agg) or z3.is_int_value(n)):
        return b.ret(st, Sym(dty, ex.p.vec_mk(arr, n)))
    cur = b.empty_vec(ex, st, dty).t
    for i in range(b.conc(n)):
        nx = ex.p.vec_mk(arr, b.I(i + 1))
        ex.unit.vec_fact(ex, st, "push", nx, cur, z3.simplify(z3.Select(arr, i)))
        cur = nx
    return b.ret(st, Sym(dty, cur))


b.PATHS.update({"<alloc::collections::vec_deque::VecDeque<T> as core::convert::From<[T; N]>>::from": seq_from,
                "<alloc::collections::vec_deque::VecDeque<T, A> as core::convert::From<alloc::vec::Vec<T, A>>>::from": seq_from,
                "<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from": seq_from})


# ---------------------------------------------------------------- ranges of a map: the first and the last entry of one

def bounds_of(ex, st, v):
    """((kind, term) of the lower, (kind, term) of the upper) limit; kind: "in", "ex" or None"""
    p = ex.p
    k = lambda x: b.key_of(ex, st, x)
    if isinstance(v, Agg) and v.ty is not None:
        t = p.T[v.ty]
        path = t.get("path", "")
        if path.endswith("ops::range::RangeInclusive"):
            return ("in", k(v.f[0])), ("in", k(v.f[1]))
        if path.endswith("ops::range::Range"):
            return ("in", k(v.f[0])), ("ex", k(v.f[1]))
        if path.endswith("ops::range::RangeTo"):
            return (None, None), ("ex", k(v.f[0]))
        if path.endswith("ops::range::RangeToInclusive"):
            return (None, None), ("in", k(v.f[0]))
        if path.endswith("ops::range::RangeFrom"):
            return ("in", k(v.f[0])), (None, None)
        if path.endswith("ops::range::RangeFull"):
            return (None, None), (None, None)
        if t["k"] == "tuple" and len(v.f) == 2 and all(isinstance(x, Agg) for x in v.f):
            return tuple((("in", "ex", None)[x.v], k(x.f[0]) if x.f else None) for x in v.f)
    raise Unsupported("bounds %r" % (v,))


def map_range(ex, st, fn, args, dty, stack):
    a, m = b.map_at(ex, st, args[0])
    lo, hi = bounds_of(ex, st, args[1])
    it = IterV("maprange", base=a, map=m, lo=lo, hi=hi)
    if lo[0] is None or hi[0] is None:
        return b.ret(st, it)
    x, y = b.rank(ex, lo[1]), b.rank(ex, hi[1])
    ok = x < y if (lo[0], hi[0]) == ("ex", "ex") else x <= y
    return [("ret", s, it) if good else ("panic", s, None) for s, good in ex.fork(st, ok)]


def range_end(ex, st, a, it, dty, back):
    """the entry at one end of a range: what is at the limit itself if there is one, otherwise one further in"""
    p = ex.p
    m, lo, hi = it.p["map"], it.p["lo"], it.p["hi"]
    kty = p.T[m.ty]["args"][0]
    has = lambda k: b.is_some(b.map_sel(m.t, k))
    k = p.fresh("entry", m.t.sort().domain())
    r = b.rank(ex, k)
    inside, none = [has(k)], []
    for (kind, t), other, f in ((lo, hi, lambda x, y: x < y), (hi, lo, lambda x, y: y < x)):
        if kind is None:
            continue
        inside.append(z3.Or(f(b.rank(ex, t), r), r == b.rank(ex, t)) if kind == "in" else f(b.rank(ex, t), r))
        if kind == "in" and (other[0] in (None, "in") or not other[1].eq(t)):
            within = z3.BoolVal(True) if other[0] is None else f(b.rank(ex, t), b.rank(ex, other[1])) if other[0] == "ex" \
                else z3.Or(f(b.rank(ex, t), b.rank(ex, other[1])), b.rank(ex, t) == b.rank(ex, other[1]))
            none.append(z3.Not(z3.And(has(t), within)))
            if (t is lo[1]) != back:
                inside.append(z3.Implies(z3.And(has(t), within), k == t))
    s1 = st.clone()
    s1.assume(*inside)
    ex.store(s1, a, IterV("spent"))
    x = Agg(p.T[dty]["args"][0], 0, (Ref(s1.new(Sym(kty, k))), Ref(it.p["base"][0], it.p["base"][1] + (("mapv", k),))))
    st.assume(*none)
    ex.store(st, a, IterV("spent"))
    return [("ret", s1, b.opt(ex, dty, x)), ("ret", st, b.opt(ex, dty))]


b.PATHS[BT + "range"] = b.PATHS[BT + "range_mut"] = map_range


def int_pick(least):
    def f(ex, st, fn, args, dty, stack):
        x, y = args[0].t, args[1].t
        return b.ret(st, Sym(dty, z3.simplify(z3.If(x <= y, x, y) if least else z3.If(x <= y, y, x))))
    return f


b.PATHS["core::intrinsics::integer_min"], b.PATHS["core::intrinsics::integer_max"] = int_pick(True), int_pick(False)
