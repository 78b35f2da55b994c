"""Contracts of the standard library (assumed) and of operations on opaque user types (assumed lawful).

Everything here is part of the trusted base; each use is recorded in Exec.assumed.
"""
import z3
from core import *

I = z3.IntVal
LOCK = (("lock",),)


def ret(st, v):
    return [("ret", st, v)]


def conc(t):
    from execu import conc as c
    return c(t)


# ---------------------------------------------------------------- helpers on types and values

def opt(ex, dty, v=None):
    """Option value of type dty"""
    return Agg(dty, 0, ()) if v is None else Agg(dty, 1, (v,))


def fork_opt(ex, st, dty, cond, some):
    """Some(some(st)) when cond, else None"""
    out = []
    for s2, b in ex.fork(st, cond):
        out.append(("ret", s2, opt(ex, dty, some(s2)) if b else opt(ex, dty)))
    return out


def lift(ex, ty, term):
    return Sym(ty, term)


def addr_of(v):
    if not isinstance(v, Ref):
        raise Unsupported("expected a reference, got %r" % (v,))
    return v.addr()


def through(ex, st, v):
    """follows references to the value"""
    while isinstance(v, Ref):
        v = ex.load(st, v.addr())
    return v


def deep_addr(ex, st, v):
    """address of the innermost non-reference value"""
    a = None
    while isinstance(v, Ref):
        a = v.addr()
        v = ex.load(st, a)
    return a, v


def tyname(ex, ty):
    return ex.p.T[ty]["s"]


def default_value(ex, st, ty):
    p = ex.p
    t = p.T[ty]
    k = t["k"]
    if k == "bool":
        return ex.mk_bool(False)
    if k in ("int", "uint"):
        return Sym(ty, I(0))
    if k == "ref" and p.T[t["elem"]]["k"] == "slice":
        n = p.fresh("empty", p.sort(t["elem"]))
        return Ref(st.new(Sym(t["elem"], p.vec_mk(p.vec_arr(n), I(0)))))
    if k == "tuple":
        return Agg(ty, 0, [default_value(ex, st, a) for a in t["args"]])
    if k == "adt":
        path = t["path"]
        if path == "core::option::Option":
            return Agg(ty, 0, ())
        if path == "core::marker::PhantomData":
            return Agg(ty, 0, ())
        if path in VECS:
            return empty_vec(ex, st, ty)
        if path in MAPS:
            return empty_map(ex, ty)
        if path == "alloc::rcs::arc::Arc":
            loc = st.new(default_value(ex, st, t["args"][0]))
            st.arcs[loc] = 1
            return ArcV(ty, loc)
        if path == "std::sync::poison::rwlock::RwLock":
            return LockV(default_value(ex, st, t["args"][0]), z3.BoolVal(False))
        if path == "std::sync::once_lock::OnceLock":
            return OnceV(False, None)
        if path == "alloc::boxed::Box":
            return BoxV(ty, default_value(ex, st, t["args"][0]))
        # a type of the crate: its own implementation of Default
        for key, i in ex.insts.items():
            if i["local"] and i["name"] == "default" and i["trait"] == "core::default::Default" and i["self_ty"] == ty and i["body"] is not None:
                outs = list(ex.run_fn(st.clone(), key, [], ()))
                if len(outs) == 1 and outs[0][0] == "ret":
                    for x in st.__slots__:
                        setattr(st, x, getattr(outs[0][1], x))
                    return outs[0][2]
                break
    raise Unsupported("default of " + t["s"])


def empty_map(ex, ty):
    p = ex.p
    so = p.sort(ty)
    vs = so.range()
    return Sym(ty, z3.K(so.domain(), vs.constructor(0)()))


def empty_vec(ex, st, ty):
    p = ex.p
    try:
        es = p.sort(p.T[ty]["args"][0])
    except Unsupported:
        return LazyVec(ty, IterV("empty"))
    v = Sym(ty, p.vec_mk(z3.Const("noelems<%s>" % es, z3.ArraySort(z3.IntSort(), es)), I(0)))
    ex.unit.vec_fact(ex, st, "empty", v.t)
    return v


def vec_of(ex, st, v):
    """(array, length, element type) of a Vec, slice or array value"""
    p = ex.p
    if isinstance(v, Sym):
        t = p.T[v.ty]
        if t["k"] == "array":
            return v.t, array_len(ex, st, t), t["elem"]
        et = t["elem"] if t["k"] == "slice" else t["args"][0]
        n = p.vec_len(v.t)
        if not z3.is_int_value(n):
            ex.assumed["a collection holds at most isize::MAX elements"] = 1
            st.assume(*[c for c in (n >= 0, n < 2 ** 63) if not any(c.eq(x) for x in st.pc)])
        return p.vec_arr(v.t), n, et
    if isinstance(v, Agg) and v.ty is not None and p.T[v.ty]["k"] == "array":
        et = p.T[v.ty]["elem"]
        a = z3.Const("noelems<%s>" % p.sort(et), z3.ArraySort(z3.IntSort(), p.sort(et)))
        for i, x in enumerate(v.f):
            a = z3.Store(a, i, ex.lower(st, x))
        return a, I(len(v.f)), et
    raise Unsupported("sequence expected, got %r" % (v,))


def array_len(ex, st, t):
    s = t["len"]
    if s.isdigit():
        return I(int(s))
    n = z3.Int("const " + s)
    st.assume(n >= 0, n < 2 ** 64)
    return n


def slice_len(ex, st, v):
    a, x = deep_addr(ex, st, v)
    return vec_of(ex, st, x)[1]


def rank(ex, t):
    so = t.sort()
    if so == z3.IntSort():
        return t
    return z3.Function("rank<%s>" % so, so, z3.IntSort())(t)


def rank_axiom(t):
    """ranks are injective: user orders are total and consistent with equality"""
    if z3.is_app(t) and t.decl().name().startswith("rank<") and t.num_args() == 1:
        so = t.arg(0).sort()
        un = z3.Function("un" + t.decl().name(), z3.IntSort(), so)
        yield un(t) == t.arg(0)


def idof(ex, node_t, id_sort):
    f = z3.Function("idof<%s>" % node_t.sort(), node_t.sort(), id_sort)
    return f(node_t)


def typeid(ex, ty):
    s = tyname(ex, ty)
    c = z3.Const("typeid " + s, ex.p.pname("core::any::TypeId"))
    return c


def has_param(p, ty, seen=None):
    t = p.T[ty]
    if t["k"] in ("param", "alias"):
        return True
    subs = [a for a in t.get("args", []) if isinstance(a, int)] + ([t["elem"]] if "elem" in t else []) + t.get("upvars", [])
    if any(isinstance(a, dict) for a in t.get("args", [])):
        return True
    return any(has_param(p, a) for a in subs)


def typeid_axiom(p):
    def ax(t):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("typeid "):
            n = t.decl().name()[7:]
            i = p.bys.get(n)
            if i is not None and not has_param(p, i):
                num = z3.Function("typeidnum", t.sort(), z3.IntSort())
                yield num(t) == i
    return ax


def dyn_tid(ex, v):
    if isinstance(v, DynV):
        return typeid(ex, v.ty)
    if isinstance(v, Sym):
        f = z3.Function("typeidof<%s>" % v.t.sort(), v.t.sort(), ex.p.pname("core::any::TypeId"))
        return f(v.t)
    raise Unsupported("type id of %r" % (v,))


def dyncast(ex, v, ty):
    so = ex.p.sort(ty)
    return z3.Function("cast<%s>" % so, v.t.sort(), so)(v.t)


def dyn_term(ex, st, v):
    inner = ex.lower(st, v.v)
    so = ex.p.pname(ex.p.T[v.dty]["s"])
    t = z3.Function("dyn<%s>" % ex.p.T[v.ty]["s"], inner.sort(), so)(inner)
    ex.unit.dyn_seen[t.get_id()] = v
    keep.append(t)
    return t


def unsize(ex, st, v, rv):
    p = ex.p
    t = p.T[rv["ty"]]
    if t["k"] == "adt" and t["path"] == "alloc::boxed::Box":
        return BoxV(rv["ty"], DynV(t["args"][0], rv["dyn"]["src"], v.v if isinstance(v, BoxV) else Sym(rv["dyn"]["src"], v.t), rv["dyn"]["methods"]))
    raise Unsupported("unsizing to " + t["s"])


# ---------------------------------------------------------------- locks

def lock_at(ex, st, v):
    a, x = deep_addr(ex, st, v)
    if not isinstance(x, LockV):
        raise Unsupported("lock expected, got %r" % (x,))
    return a, x


def result_tys(ex, dty):
    """(ok type, err type)"""
    t = ex.p.T[dty]
    return t["args"][0], t["args"][1]


def poison_err(ex, dty, g):
    ety = result_tys(ex, dty)[1]
    fs = ex.p.fields(ety)
    return Agg(ety, 0, [g] + [UNINIT] * (len(fs) - 1))


def rw_acquire(kind):
    def f(ex, st, fn, args, dty, stack):
        a, l = lock_at(ex, st, args[0])
        ex.unit.lock_op(ex, st, a, kind)
        if l.w or (kind == "w" and l.r > 0):
            return [("abort", st, "deadlock: %s lock taken while this thread already holds the lock" % ("write" if kind == "w" else "read"))]
        out = []
        for s2, p in ex.fork(st, l.poison):
            nl = LockV(l.v, z3.BoolVal(p), l.r + (kind == "r"), kind == "w")
            ex.store(s2, a, nl)
            g = GuardV(a[0], a[1], kind + ("p" if s2.panicking else ""))
            out.append(("ret", s2, Agg(dty, 1, (poison_err(ex, dty, g),)) if p else Agg(dty, 0, (g,))))
        return out
    return f


def unlock(ex, st, g):
    a = (g.loc, g.path)
    l = ex.load(st, a)
    if not isinstance(l, LockV):
        raise Unsupported("guard of a moved lock")
    poison = l.poison
    if g.kind == "w" and st.panicking:
        poison = z3.BoolVal(True)
    if g.kind[0] == "r":
        ex.store(st, a, LockV(l.v, poison, l.r - 1, l.w))
    else:
        ex.store(st, a, LockV(l.v, poison, l.r, False))


def lock_into_inner(ex, st, fn, args, dty, stack):
    l = args[0]
    if not isinstance(l, LockV):
        raise Unsupported("into_inner of %r" % (l,))
    out = []
    for s2, p in ex.fork(st, l.poison):
        out.append(("ret", s2, Agg(dty, 1, (poison_err(ex, dty, l.v),)) if p else Agg(dty, 0, (l.v,))))
    return out


def guard_deref(ex, st, fn, args, dty, stack):
    g = through(ex, st, args[0])
    if not isinstance(g, GuardV):
        raise Unsupported("guard expected, got %r" % (g,))
    return ret(st, Ref(g.loc, g.path + LOCK))


def lock_get_mut(ex, st, fn, args, dty, stack):
    a, l = lock_at(ex, st, args[0])
    out = []
    for s2, p in ex.fork(st, l.poison):
        r = Ref(a[0], a[1] + LOCK)
        out.append(("ret", s2, Agg(dty, 1, (poison_err(ex, dty, r),)) if p else Agg(dty, 0, (r,))))
    return out


def is_poisoned(ex, st, fn, args, dty, stack):
    a, l = lock_at(ex, st, args[0])
    return ret(st, ex.mk_bool(l.poison))


def clear_poison(ex, st, fn, args, dty, stack):
    a, l = lock_at(ex, st, args[0])
    ex.store(st, a, LockV(l.v, z3.BoolVal(False), l.r, l.w))
    return ret(st, ex.unit_val())


# ---------------------------------------------------------------- Arc

def resolve_arc(ex, st, v):
    """list of (state, ArcV)"""
    if isinstance(v, ArcV):
        return [(st, v)]
    if not isinstance(v, Sym):
        raise Unsupported("Arc expected, got %r" % (v,))
    out = []
    states = [st]
    for loc, c in st.ptrs:
        if c.sort() != v.t.sort():
            continue
        nxt = []
        for s in states:
            for s2, b in ex.fork(s, c == v.t):
                if b:
                    out.append((s2, ArcV(v.ty, loc)))
                else:
                    nxt.append(s2)
        states = nxt
    for s in states:
        loc = s.new(ex.unit.havoc(ex, s, ex.p.T[v.ty]["args"][0], "pointee"))
        s.ptrs = s.ptrs + ((loc, v.t),)
        out.append((s, ArcV(v.ty, loc)))
    return out


def arc_new(ex, st, fn, args, dty, stack):
    loc = st.new(args[0])
    st.arcs[loc] = 1
    return ret(st, ArcV(dty, loc))


def arc_clone(ex, st, fn, args, dty, stack):
    v = through(ex, st, args[0])
    if isinstance(v, Sym):
        return ret(st, v)
    if v.loc in st.arcs:
        n = st.arcs[v.loc]
        st.arcs[v.loc] = n + 1
    return ret(st, v)


def arc_deref(ex, st, fn, args, dty, stack):
    v = through(ex, st, args[0])
    return [("ret", s, Ref(a.loc)) for s, a in resolve_arc(ex, st, v)]


def arc_into_inner(ex, st, fn, args, dty, stack):
    v = args[0]
    if not isinstance(v, ArcV) or v.loc not in st.arcs:
        raise Unsupported("into_inner of a shared Arc")
    n = st.arcs[v.loc]
    n = n if z3.is_expr(n) else I(n)
    out = []
    for s2, one in ex.fork(st, n == 1):
        s2.arcs[v.loc] = z3.simplify(n - 1)
        if one:
            out.append(("ret", s2, opt(ex, dty, s2.heap[v.loc])))
        else:
            out.append(("ret", s2, opt(ex, dty)))
    return out


def arc_get_mut(ex, st, fn, args, dty, stack):
    """&mut to what an Arc that nobody else holds refers to"""
    v = through(ex, st, args[0])
    if not isinstance(v, ArcV) or v.loc not in st.arcs:
        raise Unsupported("get_mut of a shared Arc")
    n = st.arcs[v.loc]
    n = n if z3.is_expr(n) else I(n)
    return [("ret", s2, opt(ex, dty, Ref(v.loc)) if one else opt(ex, dty)) for s2, one in ex.fork(st, n == 1)]


def arc_try_unwrap(ex, st, fn, args, dty, stack):
    v = args[0]
    if not isinstance(v, ArcV) or v.loc not in st.arcs:
        raise Unsupported("try_unwrap of a shared Arc")
    n = st.arcs[v.loc]
    n = n if z3.is_expr(n) else I(n)
    out = []
    for s2, one in ex.fork(st, n == 1):
        if one:
            s2.arcs[v.loc] = 0
            out.append(("ret", s2, Agg(dty, 0, (s2.heap[v.loc],))))
        else:
            out.append(("ret", s2, Agg(dty, 1, (v,))))
    return out


def arc_count(ex, st, fn, args, dty, stack):
    v = through(ex, st, args[0])
    n = st.arcs.get(v.loc) if isinstance(v, ArcV) else None
    if n is None:
        # others may hold it, and come and go
        n = ex.p.fresh("holders", z3.IntSort())
        st.assume(n >= 1, n < 1 << 63)
    return ret(st, ex.mk_int(n if z3.is_expr(n) else I(n)))


def arc_ptr_eq(ex, st, fn, args, dty, stack):
    a, b = through(ex, st, args[0]), through(ex, st, args[1])
    return ret(st, ex.mk_bool(ex.lower(st, a) == ex.lower(st, b)))


# ---------------------------------------------------------------- OnceLock

def once_at(ex, st, v):
    a, x = deep_addr(ex, st, v)
    if isinstance(x, Sym) and ex.p.adt_path(x.ty) == "std::sync::once_lock::OnceLock":
        x = OnceV(is_some(x.t), Sym(ex.p.T[x.ty]["args"][0], unsome(x.t)))
        ex.store(st, a, x)
    if not isinstance(x, OnceV):
        raise Unsupported("OnceLock expected, got %r" % (x,))
    return a, x


def once_fork(ex, st, a):
    """(state, initialised?) with the value made definite"""
    out = []
    for s in ex.unit.interfere(ex, st, a):
        o = ex.load(s, a)
        if isinstance(o.init, bool):
            out.append((s, o.init))
            continue
        for s2, b in ex.fork(s, o.init):
            ex.store(s2, a, OnceV(b, o.v if b else None, o.ghost))
            out.append((s2, b))
    return out


def once_get(ex, st, fn, args, dty, stack):
    a, _ = once_at(ex, st, args[0])
    return [("ret", s, opt(ex, dty, Ref(a[0], a[1] + (("once",),))) if b else opt(ex, dty)) for s, b in once_fork(ex, st, a)]


def once_set(ex, st, fn, args, dty, stack):
    a, _ = once_at(ex, st, args[0])
    out = []
    for s, b in once_fork(ex, st, a):
        if b:
            out.append(("ret", s, Agg(dty, 1, (args[1],))))
        else:
            o = ex.load(s, a)
            ex.store(s, a, OnceV(True, args[1], o.ghost))
            s.event("once-set", Ref(*a), args[1])
            out.append(("ret", s, Agg(dty, 0, (ex.unit_val(),))))
    return out


def once_get_or_init(ex, st, fn, args, dty, stack):
    a, _ = once_at(ex, st, args[0])
    r = Ref(a[0], a[1] + (("once",),))
    for s, b in once_fork(ex, st, a):
        if b:
            yield ("ret", s, r)
            continue
        vty = None
        t = ex.p.T[dty]
        vty = t["elem"] if t["k"] == "ref" else None
        for k, s2, v in ex.call_value(s, args[1], [], vty, stack):
            if k == "ret":
                o = ex.load(s2, a)
                if o.init is not False:
                    yield ("abort", s2, "re-entrant initialisation of a OnceLock")
                    continue
                ex.store(s2, a, OnceV(True, v, o.ghost))
                s2.event("once-set", Ref(*a), v)
                yield ("ret", s2, r)
            else:
                yield (k, s2, v)


def once_take(ex, st, fn, args, dty, stack):
    a, _ = once_at(ex, st, args[0])
    out = []
    for s, b in once_fork(ex, st, a):
        o = ex.load(s, a)
        ex.store(s, a, OnceV(False, None, o.ghost))
        out.append(("ret", s, opt(ex, dty, o.v) if b else opt(ex, dty)))
    return out


def once_into_inner(ex, st, fn, args, dty, stack):
    loc = st.new(args[0])
    out = []
    for s, b in once_fork(ex, st, (loc, ())):
        o = ex.load(s, (loc, ()))
        out.append(("ret", s, opt(ex, dty, o.v) if b else opt(ex, dty)))
    return out


def once_clone(ex, st, fn, args, dty, stack):
    a, _ = once_at(ex, st, args[0])
    out = []
    for s, b in once_fork(ex, st, a):
        o = ex.load(s, a)
        out.append(("ret", s, OnceV(b, clone_value(ex, s, o.v) if b else None, o.ghost)))
    return out


def clone_value(ex, st, v):
    """Clone of a value: user clones are assumed to equal the original"""
    if isinstance(v, (Sym, StrV, Opaque, FnV, Ref)):
        return v
    if isinstance(v, Agg):
        return Agg(v.ty, v.v, [clone_value(ex, st, x) for x in v.f], v.key)
    if isinstance(v, BoxV):
        return BoxV(v.ty, clone_value(ex, st, v.v))
    if isinstance(v, Alt):
        return Alt(v.ty, v.tag, {k: clone_value(ex, st, x) for k, x in v.alts.items()})
    if isinstance(v, ArcV):
        if v.loc in st.arcs:
            st.arcs[v.loc] = st.arcs[v.loc] + 1
        return v
    if isinstance(v, OnceV):
        return OnceV(v.init, None if v.v is None else clone_value(ex, st, v.v), v.ghost)
    raise Unsupported("clone of %r" % (v,))


# ---------------------------------------------------------------- BTreeMap

def map_at(ex, st, v):
    a, x = deep_addr(ex, st, v)
    if not (isinstance(x, Sym) and ex.p.adt_path(x.ty) in MAPS):
        raise Unsupported("map expected, got %r" % (x,))
    return a, x


def key_of(ex, st, v):
    return ex.lower(st, through(ex, st, v))


def map_sel(m, k):
    return z3.simplify(z3.Select(m, k))


def is_some(o):
    return z3.simplify(o.sort().recognizer(1)(o))


def unsome(o):
    return z3.simplify(o.sort().accessor(1, 0)(o))


def map_get(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    k = key_of(ex, st, args[1])
    return fork_opt(ex, st, dty, is_some(map_sel(m.t, k)), lambda s: Ref(a[0], a[1] + (("mapv", k),)))


def map_contains(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    return ret(st, ex.mk_bool(is_some(map_sel(m.t, key_of(ex, st, args[1])))))


def map_insert(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    k = ex.lower(st, args[1])
    v = ex.lower(st, args[2])
    o = map_sel(m.t, k)
    ex.store(st, a, Sym(m.ty, z3.Store(m.t, k, m.t.sort().range().constructor(1)(v))))
    return fork_opt(ex, st, dty, is_some(o), lambda s: Sym(ex.p.T[m.ty]["args"][1], unsome(o)))


def map_remove(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    k = key_of(ex, st, args[1])
    o = map_sel(m.t, k)
    ex.store(st, a, Sym(m.ty, z3.Store(m.t, k, m.t.sort().range().constructor(0)())))
    return fork_opt(ex, st, dty, is_some(o), lambda s: Sym(ex.p.T[m.ty]["args"][1], unsome(o)))


def map_clear(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    ex.store(st, a, empty_map(ex, m.ty))
    return ret(st, ex.unit_val())


def vals_fn(ex, m):
    """the values of a map in key order, as an uninterpreted sequence"""
    vs = m.sort().range().accessor(1, 0).range()
    f = z3.Function("values<%s>" % m.sort(), m.sort(), z3.ArraySort(z3.IntSort(), vs))
    n = z3.Function("size<%s>" % m.sort(), m.sort(), z3.IntSort())
    return f(m), n(m)


def map_values(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    arr, n = vals_fn(ex, m.t)
    st.assume(n >= 0)
    return ret(st, IterV("seq", mode="mapvals", base=Ref(*a), map=m.t, arr=arr, lo=I(0), hi=n, ety=ex.p.T[m.ty]["args"][1]))


def map_len(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    arr, n = vals_fn(ex, m.t)
    ex.assumed["a collection holds at most isize::MAX elements"] = 1
    st.assume(n >= 0, n < 2 ** 63)
    return ret(st, ex.mk_int(n))


def map_is_empty(ex, st, fn, args, dty, stack):
    a, m = map_at(ex, st, args[0])
    arr, n = vals_fn(ex, m.t)
    st.assume(n >= 0, (n == 0) == (m.t == empty_map(ex, m.ty).t))
    return ret(st, ex.mk_bool(n == 0))


def map_from_iter(ex, st, fn, args, dty, stack):
    it = to_iter(ex, st, args[0], stack)
    loc = st.new(empty_map(ex, dty))
    for k, s, v in map_extend_loop(ex, st, loc, it, dty, stack):
        yield (k, s, s.heap[loc] if k == "ret" else v)


def map_extend_loop(ex, st, loc, it, mty, stack):
    def body(s, item):
        for s2, a in pair(ex, s, item):
            m = s2.heap[loc]
            vs = m.t.sort().range()
            s2.heap[loc] = Sym(mty, z3.Store(m.t, ex.lower(s2, a.f[0]), vs.constructor(1)(ex.lower(s2, a.f[1]))))
            yield ("cont", s2, None)
    ex.unit.loop_cells = {"map": (loc, ())}
    for k, s, v in drive(ex, st, it, body, stack, "from_iter"):
        yield ("ret" if k == "done" else k, s, v)


def pair(ex, st, item):
    if isinstance(item, Agg):
        return [(st, item)]
    if isinstance(item, Sym):
        return [(st, ex.expand(item, 0))]
    raise Unsupported("pair expected, got %r" % (item,))


# ---------------------------------------------------------------- Vec and slices

def vec_at(ex, st, v):
    a, x = deep_addr(ex, st, v)
    return a, x


def set_vec(ex, st, a, v, arr, n):
    ex.store(st, a, Sym(v.ty, ex.p.vec_mk(arr, z3.simplify(n))))


def vec_push(ex, st, fn, args, dty, stack):
    import loops
    a, v = vec_at(ex, st, args[0])
    if isinstance(v, loops.AccVec):
        ex.store(st, a, loops.AccVec(v.ty, v.items + (args[1],)))
        return ret(st, ex.unit_val())
    if ex.probing or isinstance(v, LazyVec):
        # from here on nothing is known about its content
        ex.store(st, a, loops.AccVec(v.ty))
        return ret(st, ex.unit_val())
    arr, n, et = vec_of(ex, st, v)
    x = ex.lower(st, args[1])
    new = ex.p.vec_mk(z3.Store(arr, n, x), z3.simplify(n + 1))
    ex.store(st, a, Sym(v.ty, new))
    ex.unit.vec_fact(ex, st, "push", new, v.t, x)
    return ret(st, ex.unit_val())


def vec_len(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    if isinstance(v, LazyVec):
        import builtins_more
        return builtins_more.items_count(ex, st, lazy_it(ex, st, v), stack)
    n = vec_of(ex, st, v)[1]
    ex.assumed["a collection holds at most isize::MAX elements"] = 1
    st.assume(n >= 0, n < 2 ** 63)
    return ret(st, ex.mk_int(n))


def vec_is_empty(ex, st, fn, args, dty, stack):
    return [(k, s, ex.mk_bool(z3.simplify(v.t == 0)) if k == "ret" else v) for k, s, v in vec_len(ex, st, fn, args, dty, stack)]


def vec_same(ex, st, fn, args, dty, stack):
    """deref / as_slice / as_ref: a view of the same elements"""
    v = args[0]
    a, x = deep_addr(ex, st, v)
    return ret(st, Ref(*a))


def vec_remove(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    i = args[1].t
    out = []
    for s, ok in ex.fork(st, z3.And(i >= 0, i < n)):
        if not ok:
            out.append(("panic", s, None))
            continue
        j = z3.Int("j!rm")
        new = ex.p.vec_mk(z3.Lambda([j], z3.If(j < i, z3.Select(arr, j), z3.Select(arr, j + 1))), z3.simplify(n - 1))
        c = ex.p.fresh("removed", new.sort())
        s.assume(c == new, ex.p.vec_len(c) == n - 1)
        x = z3.simplify(z3.Select(arr, i))
        ex.store(s, a, Sym(v.ty, c))
        ex.unit.vec_fact(ex, s, "remove", c, v.t, x)
        out.append(("ret", s, element(s, ex, et, x)))
    return out


def vec_pop(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    out = []
    for s, ok in ex.fork(st, n > 0):
        if ok:
            new = ex.p.vec_mk(arr, z3.simplify(n - 1))
            ex.store(s, a, Sym(v.ty, new))
            x = z3.simplify(z3.Select(arr, n - 1))
            ex.unit.vec_fact(ex, s, "remove", new, v.t, x)
            out.append(("ret", s, opt(ex, dty, element(s, ex, et, x))))
        else:
            out.append(("ret", s, opt(ex, dty)))
    return out


def element(st, ex, ty, t):
    """the value of a term, a reference to it for a type of shared references"""
    if ex.p.T[ty]["k"] == "ref" and ex.p.T[ex.p.T[ty]["elem"]]["k"] != "str":
        return Ref(st.new(Sym(ex.p.T[ty]["elem"], t)))
    return Sym(ty, t)


def deque_pop_front(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    out = []
    for s, ok in ex.fork(st, n > 0):
        if ok:
            j = z3.Int("j!rm")
            new = ex.p.vec_mk(z3.Lambda([j], z3.Select(arr, j + 1)), z3.simplify(n - 1))
            c = ex.p.fresh("removed", new.sort())
            s.assume(c == new, ex.p.vec_len(c) == n - 1)
            x = z3.simplify(z3.Select(arr, 0))
            ex.store(s, a, Sym(v.ty, c))
            ex.unit.vec_fact(ex, s, "remove", c, v.t, x)
            out.append(("ret", s, opt(ex, dty, element(s, ex, et, x))))
        else:
            out.append(("ret", s, opt(ex, dty)))
    return out


def subvec(ex, st, arr, lo, n):
    """fresh vector equal to arr[lo .. lo+n)"""
    j = z3.Int("j!sub")
    new = ex.p.vec_mk(z3.Lambda([j], z3.Select(arr, j + lo)), n)
    c = ex.p.fresh("sub", new.sort())
    st.assume(c == new, ex.p.vec_len(c) == n)
    return c


def range_of(ex, st, v, n):
    """(lo, hi) of a range value"""
    p = ex.p
    t = p.T[v.ty]["path"] if v.ty is not None else ""
    if t.endswith("ops::range::Range"):
        return v.f[0].t, v.f[1].t
    if t.endswith("ops::range::RangeTo"):
        return I(0), v.f[0].t
    if t.endswith("ops::range::RangeFrom"):
        return v.f[0].t, n
    if t.endswith("ops::range::RangeFull"):
        return I(0), n
    raise Unsupported("range " + t)


def vec_drain(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    lo, hi = range_of(ex, st, args[1], n)
    out = []
    for s, ok in ex.fork(st, z3.And(lo >= 0, lo <= hi, hi <= n)):
        if not ok:
            out.append(("panic", s, None))
            continue
        if conc(lo) != 0:
            j = z3.Int("j!dr")
            rest = ex.p.vec_mk(z3.Lambda([j], z3.If(j < lo, z3.Select(arr, j), z3.Select(arr, j + hi - lo))), n - (hi - lo))
            r = ex.p.fresh("rest", rest.sort())
            s.assume(r == rest, ex.p.vec_len(r) == n - (hi - lo))
        else:
            r = subvec(ex, s, arr, hi, n - hi)
        d = subvec(ex, s, arr, lo, hi - lo)
        ex.store(s, a, Sym(v.ty, r))
        ex.unit.vec_fact(ex, s, "split", v.t, d, r)
        out.append(("ret", s, IterV("seq", mode="val", vec=d, lo=I(0), hi=hi - lo, ety=et, vty=v.ty)))
    return out


def vec_split_off(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    at = args[1].t
    out = []
    for s, ok in ex.fork(st, z3.And(at >= 0, at <= n)):
        if not ok:
            out.append(("panic", s, None))
            continue
        l = ex.p.vec_mk(arr, at)
        r = subvec(ex, s, arr, at, n - at)
        ex.store(s, a, Sym(v.ty, l))
        ex.unit.vec_fact(ex, s, "split", v.t, l, r)
        out.append(("ret", s, Sym(v.ty, r)))
    return out


def concat(ex, st, v, w):
    p = ex.p
    a, n = p.vec_arr(v), p.vec_len(v)
    b, m = p.vec_arr(w), p.vec_len(w)
    if conc(n) == 0:
        return w
    if conc(m) == 0:
        return v
    j = z3.Int("j!cat")
    new = p.vec_mk(z3.Lambda([j], z3.If(j < n, z3.Select(a, j), z3.Select(b, j - n))), n + m)
    c = p.fresh("cat", new.sort())
    st.assume(c == new, p.vec_len(c) == n + m)
    ex.unit.concats.append((c, v, w))
    return c


def vec_extend(ex, st, fn, args, dty, stack):
    """extend / append by a whole vector"""
    a, v = vec_at(ex, st, args[0])
    w = args[1]
    src = None
    if isinstance(w, Ref):
        src, w = deep_addr(ex, st, w)
    if isinstance(w, IterV) and w.kind == "seq" and w.p["mode"] == "val" and conc(w.p["lo"]) == 0:
        wt = w.p["vec"]
    elif isinstance(w, Sym) and ex.p.adt_path(w.ty) == "alloc::vec::Vec":
        wt = w.t
    else:
        def body(s, item):
            vec_push(ex, s, None, [Ref(*a), item], None, stack)
            yield ("cont", s, None)
        return [("ret" if k == "done" else k, s, ex.unit_val() if k == "done" else x)
                for s0, w0 in known_option(ex, st, w) for k, s, x in drive(ex, s0, to_iter(ex, s0, w0, stack), body, stack, "extend")]
    if isinstance(v, LazyVec):
        raise Unsupported("extend of a lazy vector")
    c = concat(ex, st, v.t, wt)
    ex.store(st, a, Sym(v.ty, c))
    ex.unit.vec_fact(ex, st, "split", c, v.t, wt)
    if fn["name"] == "append" and src:
        ex.store(st, src, empty_vec(ex, st, v.ty))
    return ret(st, ex.unit_val())


def vec_new(ex, st, fn, args, dty, stack):
    return ret(st, empty_vec(ex, st, dty))


def vec_get(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    i = args[1].t
    return fork_opt(ex, st, dty, z3.And(i >= 0, i < n), lambda s: Ref(a[0], a[1] + (("ix", i),)))


def vec_index(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    if not isinstance(args[1], Sym):
        raise Unsupported("range index")
    i = args[1].t
    return [("ret", s, Ref(a[0], a[1] + (("ix", i),))) if b else ("panic", s, None) for s, b in ex.fork(st, z3.And(i >= 0, i < n))]


def vec_last(ex, st, fn, args, dty, stack):
    a, v = vec_at(ex, st, args[0])
    arr, n, et = vec_of(ex, st, v)
    i = I(0) if fn["name"].startswith("first") else z3.simplify(n - 1)
    return fork_opt(ex, st, dty, n > 0, lambda s: Ref(a[0], a[1] + (("ix", i),)))


def box_into_vec(ex, st, fn, args, dty, stack):
    b = args[0]
    v = b.v if isinstance(b, BoxV) else None
    while isinstance(v, Agg) and not (v.ty is not None and ex.p.T[v.ty]["k"] == "array"):
        xs = [x for x in v.f if x is not UNINIT]
        if len(xs) != 1:
            raise Unsupported("vec! content")
        v = xs[0]
    arr, n, et = vec_of(ex, st, v)
    t = ex.p.vec_mk(arr, n)
    e = empty_vec(ex, st, dty)
    cur = e.t
    for i in range(conc(n)):
        nx = ex.p.vec_mk(arr, I(i + 1))
        ex.unit.vec_fact(ex, st, "push", nx, cur, z3.simplify(z3.Select(arr, i)))
        cur = nx
    return ret(st, Sym(dty, t))


# ---------------------------------------------------------------- iterators

def to_iter(ex, st, v, stack=()):
    p = ex.p
    if isinstance(v, IterV):
        return v
    if isinstance(v, LazyVec):
        return lazy_it(ex, st, v)
    if isinstance(v, Ref):
        a, x = deep_addr(ex, st, v)
        if isinstance(x, IterV):
            return IterV("byref", base=Ref(*a))
        if isinstance(x, LazyVec):
            return IterV("refs", it=lazy_it(ex, st, x))
        arr, n, et = vec_of(ex, st, x)
        st.assume(n >= 0)
        return IterV("seq", mode="ref", base=Ref(*a), lo=I(0), hi=n, ety=et)
    if isinstance(v, Sym) and p.T[v.ty]["k"] in ("array",) or isinstance(v, Agg) and v.ty is not None and p.T[v.ty]["k"] == "array":
        arr, n, et = vec_of(ex, st, v)
        st.assume(n >= 0)
        return IterV("seq", mode="val", vec=p.vec_mk(arr, n), lo=I(0), hi=n, ety=et, vty=None)
    if isinstance(v, Sym) and p.adt_path(v.ty) == "alloc::vec::Vec":
        n = p.vec_len(v.t)
        st.assume(n >= 0)
        return IterV("seq", mode="val", vec=v.t, lo=I(0), hi=n, ety=p.T[v.ty]["args"][0], vty=v.ty)
    if isinstance(v, Agg) and v.ty is not None and p.adt_path(v.ty) == "core::ops::range::Range" and all(isinstance(x, Sym) for x in v.f):
        lo, hi = v.f[0].t, v.f[1].t
        return IterV("seq", mode="range", lo=lo, hi=z3.simplify(z3.If(hi >= lo, hi, lo)), ety=p.T[v.ty]["args"][0])
    if isinstance(v, Agg) and v.ty is not None and p.adt_path(v.ty) == "core::ops::range::RangeInclusive" and all(isinstance(x, Sym) for x in v.f) \
            and z3.is_false(z3.simplify(v.f[2].t)):
        lo, hi = v.f[0].t, z3.simplify(v.f[1].t + 1)
        return IterV("seq", mode="range", lo=lo, hi=z3.simplify(z3.If(hi >= lo, hi, lo)), ety=p.T[v.ty]["args"][0])
    if isinstance(v, Agg) and v.ty is not None and ex.p.adt_path(v.ty) == "core::option::Option" and v.v in (0, 1):
        return one_item(v.f[0]) if v.v == 1 else IterV("empty")
    r = ex.unit.opaque_iter(ex, st, v)
    if r is not None:
        return r
    raise Unsupported("iteration over %r" % (v,))


def it_count(ex, st, it):
    """number of base elements left (as many steps as the chain takes)"""
    k = it.kind
    if k == "seq":
        return z3.simplify(it.p["hi"] - it.p["lo"])
    if k == "empty":
        return I(0)
    if k in ("rev", "map", "filter", "filter_map", "cloned", "enumerate", "inspect", "refs"):
        return it_count(ex, st, it.p["it"])
    if k == "chain":
        return z3.simplify(it_count(ex, st, it.p["a"]) + it_count(ex, st, it.p["b"]))
    if k == "zip":
        a, b = it_count(ex, st, it.p["a"]), it_count(ex, st, it.p["b"])
        if conc(z3.simplify(a - b)) == 0:
            return a
        return z3.If(a <= b, a, b)
    raise Unsupported("length of iterator " + k)


def it_advance(ex, it, c, back=False):
    k = it.kind
    if k == "seq":
        if back:
            return it.with_(hi=z3.simplify(it.p["hi"] - c))
        return it.with_(lo=z3.simplify(it.p["lo"] + c))
    if k == "empty":
        return it
    if k == "rev":
        return it.with_(it=it_advance(ex, it.p["it"], c, not back))
    if k == "enumerate":
        return it.with_(it=it_advance(ex, it.p["it"], c, back), n=z3.simplify(it.p["n"] + c))
    if k in ("map", "filter", "filter_map", "cloned", "inspect", "refs"):
        return it.with_(it=it_advance(ex, it.p["it"], c, back))
    if k == "chain":
        first, last = ("b", "a") if back else ("a", "b")
        n = it_count(ex, None, it.p[first])
        d = z3.simplify(z3.If(c <= n, c, n))
        return it.with_(**{first: it_advance(ex, it.p[first], d, back), last: it_advance(ex, it.p[last], z3.simplify(c - d), back)})
    if k == "zip":
        a, b = it.p["a"], it.p["b"]
        if back and conc(z3.simplify(it_count(ex, None, a) - it_count(ex, None, b))) != 0:
            raise Unsupported("reversed zip of different lengths")
        return it.with_(a=it_advance(ex, a, c, back), b=it_advance(ex, b, c, back))
    raise Unsupported("position of iterator " + k)


def it_base(it):
    while it.kind != "seq":
        if it.kind in ("zip", "chain"):
            it = it.p["a"]
        elif "it" in it.p:
            it = it.p["it"]
        else:
            return it
    return it


def seq_item(ex, st, it, i):
    m = it.p["mode"]
    if m == "ref":
        b = it.p["base"]
        return Ref(b.loc, b.path + (("ix", i),))
    if m == "val":
        return Sym(it.p["ety"], z3.simplify(z3.Select(ex.p.vec_arr(it.p["vec"]), i)))
    if m == "mapvals":
        return Ref(st.new(Sym(it.p["ety"], z3.simplify(z3.Select(it.p["arr"], i)))))
    if m == "range":
        return Sym(it.p["ety"], i)
    if m == "opaque":
        return it.p["item"](ex, st, i)
    raise Unsupported("sequence mode " + m)


def step(ex, st, it, stack, back=False):
    """one base step: yields (kind, state, item, iterator') with kind in item/skip/end/panic/abort"""
    k = it.kind
    if k == "empty":
        yield ("end", st, None, it)
        return
    if k == "given":
        if back:
            raise Unsupported("loop over both ends")
        yield ("end" if it.p["x"] is None else "item", st, it.p["x"], it.p["then"])
        return
    if k == "seq":
        lo, hi = it.p["lo"], it.p["hi"]
        for s, more in ex.fork(st, lo < hi):
            if not more:
                yield ("end", s, None, it)
            elif back:
                yield ("item", s, seq_item(ex, s, it, z3.simplify(hi - 1)), it.with_(hi=z3.simplify(hi - 1)))
            else:
                yield ("item", s, seq_item(ex, s, it, lo), it.with_(lo=z3.simplify(lo + 1)))
        return
    if k == "chain":
        first, last = ("b", "a") if back else ("a", "b")
        for k1, s1, x, i1 in step(ex, st, it.p[first], stack, back):
            if k1 != "end":
                yield (k1, s1, x, it.with_(**{first: i1}))
                continue
            for k2, s2, y, i2 in step(ex, s1, it.p[last], stack, back):
                yield (k2, s2, y, it.with_(**{first: i1, last: i2}))
        return
    if k == "zip":
        for k1, s1, x, a in step(ex, st, it.p["a"], stack, back):
            if k1 != "item":
                yield (k1, s1, None, it.with_(a=a) if k1 == "skip" else it)
                continue
            for k2, s2, y, b in step(ex, s1, it.p["b"], stack, back):
                if k2 == "item":
                    yield ("item", s2, Agg(it.p.get("ity"), 0, (x, y)), it.with_(a=a, b=b))
                else:
                    yield (k2, s2, None, it.with_(a=a))
        return
    for k1, s1, x, inner in step(ex, st, it.p["it"], stack, (not back) if k == "rev" else back):
        it2 = it.with_(it=inner)
        if k1 != "item" or k == "rev":
            yield (k1, s1, x, it2)
            continue
        if k == "enumerate":
            n = it.p["n"]
            yield ("item", s1, Agg(None, 0, (ex.mk_int(n), x)), it2.with_(n=z3.simplify(n + 1)))
        elif k == "refs":
            yield ("item", s1, Ref(s1.new(x)), it2)
        elif k == "cloned":
            v = through(ex, s1, x)
            yield ("item", s1, clone_value(ex, s1, v), it2)
        elif k == "map":
            for kk, s2, y in ex.call_value(s1, it.p["f"], [x], it.p.get("oty"), stack):
                yield ("item" if kk == "ret" else kk, s2, y, it2)
        elif k == "inspect":
            for kk, s2, y in ex.call_value(s1, it.p["f"], [Ref(s1.new(x))], None, stack):
                yield ("item" if kk == "ret" else kk, s2, x if kk == "ret" else y, it2)
        elif k == "filter":
            for kk, s2, y in ex.call_value(s1, it.p["f"], [Ref(s1.new(x))], ex.p.bys.get("bool"), stack):
                if kk != "ret":
                    yield (kk, s2, y, it2)
                    continue
                for s3, b in ex.fork(s2, y.t):
                    yield ("item" if b else "skip", s3, x if b else None, it2)
        elif k == "filter_map":
            for kk, s2, y in ex.call_value(s1, it.p["f"], [x], it.p.get("oty"), stack) if it.p["f"] is not None else [("ret", s1, x)]:
                if kk != "ret":
                    yield (kk, s2, y, it2)
                    continue
                good = {"core::option::Option": 1, "core::result::Result": 0}.get(ex.p.adt_path(y.ty) if getattr(y, "ty", None) is not None else "")
                if good is None:
                    raise Unsupported("flattening %r" % (y,))
                loc = s2.new(y)
                for s3, a in ex.variants(s2, (loc, ())):
                    yield ("item" if a.v == good else "skip", s3, a.f[0] if a.v == good else None, it2)
        else:
            raise Unsupported("iterator adaptor " + k)


def drive(ex, st, it, body, stack, name):
    """runs body for every item; yields ('done', st, None), ('break', st, val), ('panic'|'abort', st, x)"""
    n = it_count(ex, st, it)
    cn = conc(n)
    if cn is None and not ex.s.feasible(st.pc + (n != 0,)):
        cn = 0
    if cn is not None and cn <= 3:
        todo = [(st, it, 0)]
        while todo:
            s, i, at = todo.pop()
            for k, s2, x, i2 in step(ex, s, i, stack):
                if k == "end":
                    yield ("done", s2, None)
                elif k == "skip":
                    todo.append((s2, i2, at + 1))
                elif k == "item":
                    ex.drive_pos = I(at)
                    for kk, s3, v in body(s2, x):
                        if kk == "cont":
                            todo.append((s3, i2, at + 1))
                        else:
                            yield (kk, s3, v)
                else:
                    yield (k, s2, x)
        return
    import builtins_more
    import loops
    inv = ex.unit.loop_inv(ex, st, it)
    ways = [lambda s: builtins_more.search(ex, s, it, body, stack, name), lambda s: exact_drive(ex, s, it, n, body, stack, name)]
    if inv is not None:
        ways.insert(0, lambda s: inv_drive(ex, s, it, n, body, stack, name, inv))
    yield from loops.attempts(ex, st, ways)


def exact_drive(ex, st, it, n, body, stack, name):
    import loops

    def run(s0, c):
        for k, s, x, _ in step(ex, s0, it_advance(ex, it, c), stack):
            if k == "end":
                s.assume(c == n)
                yield ("out", s, ("done", s, None))
                continue
            ex.drive_pos = c
            for kk, s2, v in [("cont", s, None)] if k == "skip" else body(s, x) if k == "item" else [(k, s, x)]:
                if kk == "cont":
                    yield ("back", s2, None)
                else:
                    yield ("out", s2, (kk, s2, v))
    yield from loops.exact(ex, st, it, n, run, set(), name)


def inv_drive(ex, st, it, n, body, stack, name, inv):
    import loops
    ex.inv_check(st, inv, I(0), name + " init")
    c = ex.p.fresh("c", z3.IntSort())
    hd = st.clone()
    hd.assume(c >= 0, c <= n)
    ex.inv_set(hd, inv, c)
    cur = it_advance(ex, it, c)
    rounds = lambda s: [y for k, s2, x, _ in step(ex, s, cur, stack) if k == "item" for kk, y, _ in body(s2, x) if kk == "cont"]
    free = loops.tallies(ex, hd, rounds, set(), inv)
    loops.anything(ex, hd, free, c, loops.steady(ex, hd, rounds, free))
    frame = {"cells": inv["cells"] + [(a, None) for a in free]}
    base = hd.clone()
    for k, s2, x, i2 in step(ex, hd, cur, stack):
        if k == "end":
            s2.assume(c == n)
            yield ("done", s2, None)
            continue
        if k == "skip":
            outs = [("cont", s2, None)]
        elif k == "item":
            ex.drive_pos = c
            outs = body(s2, x)
        else:
            yield (k, s2, x)
            continue
        for kk, s3, v in outs:
            if kk == "cont":
                ex.inv_check(s3, inv, c + 1, name + " step")
                ex.frame_check(base, s3, frame, set())
            else:
                yield (kk, s3, v)


def adaptor(kind):
    def f(ex, st, fn, args, dty, stack):
        it = to_iter(ex, st, args[0], stack)
        if kind == "enumerate":
            return ret(st, IterV(kind, it=it, n=I(0)))
        if kind == "rev" or kind == "cloned":
            return ret(st, IterV(kind, it=it))
        if kind == "zip":
            return ret(st, IterV("zip", a=it, b=to_iter(ex, st, args[1], stack)))
        if kind == "chain":
            return [("ret", s, IterV("chain", a=it, b=to_iter(ex, s, w, stack))) for s, w in known_option(ex, st, args[1])]
        if kind == "flatten":
            n = conc(it_count(ex, st, it))
            if n == 0:
                return ret(st, IterV("empty"))
            if n == 1 and it.kind == "seq":
                return [("ret", s, to_iter(ex, s, w, stack)) for s, w in known_option(ex, st, seq_item(ex, st, it, it.p["lo"]))]
            return ret(st, IterV("filter_map", it=it, f=None))
        if kind == "flat_map":
            return ret(st, IterV("filter_map", it=it, f=args[1]))
        oty = None
        t = fn.get("decl", fn)
        # Iterator::map<B, F>: B is the second generic argument
        a = t.get("args") or []
        if kind == "map" and len(a) >= 2:
            oty = a[1]
        if kind == "filter_map" and len(a) >= 2:
            oty = next((i for i, x in enumerate(ex.p.T) if x["k"] == "adt" and x["path"] == "core::option::Option" and x["args"] == [a[1]]), None)
        return ret(st, IterV(kind, it=it, f=args[1], oty=oty))
    return f


def known_option(ex, st, v):
    """(state, value) with the variant of an option decided"""
    if isinstance(v, Val) and getattr(v, "ty", None) is not None and not isinstance(v, Ref) and ex.p.adt_path(v.ty) == "core::option::Option":
        loc = st.new(v)
        return list(ex.variants(st, (loc, ())))
    return [(st, v)]


def one_item(x, n=1):
    return IterV("seq", mode="opaque", item=lambda ex, s, i: x, lo=I(0), hi=I(n))


def iter_once(ex, st, fn, args, dty, stack):
    return ret(st, one_item(args[0]) if args else IterV("empty"))


def option_iter(ex, st, fn, args, dty, stack):
    a, v = deep_addr(ex, st, args[0])
    return [("ret", s, one_item(Ref(a[0], a[1] + (("f", 1, 0),))) if x.v == 1 else IterV("empty")) for s, x in ex.variants(st, a)]


def it_peekable(ex, st, fn, args, dty, stack):
    return ret(st, to_iter(ex, st, args[0], stack))


def it_peek(cond):
    """peek, or next_if: what comes next, taken when a test says so"""
    def f(ex, st, fn, args, dty, stack):
        a, it = deep_addr(ex, st, args[0])
        import builtins_more
        if not isinstance(it, IterV) or not builtins_more.same_len(it) or not builtins_more.pure_chain(it):
            raise Unsupported("peek of %r" % (it,))
        for k, s, x, i2 in step(ex, st, it, stack):
            if k in ("panic", "abort"):
                yield (k, s, x)
            elif k != "item":
                yield ("ret", s, opt(ex, dty))
            elif not cond:
                yield ("ret", s, opt(ex, dty, Ref(s.new(x))))
            else:
                r = Ref(s.new(x))
                for k2, s2, y in ex.call_value(s, args[1], [r], ex.p.bys.get("bool"), stack):
                    if k2 != "ret":
                        yield (k2, s2, y)
                        continue
                    for s3, yes in ex.fork(s2, y.t):
                        if yes:
                            ex.store(s3, a, i2)
                        yield ("ret", s3, opt(ex, dty, ex.load(s3, r.addr())) if yes else opt(ex, dty))
    return f


def it_next(back):
    def f(ex, st, fn, args, dty, stack):
        a, it = deep_addr(ex, st, args[0])
        if isinstance(it, IterV) and it.kind == "byref":
            a = it.p["base"].addr()
            it = ex.load(st, a)
        if not isinstance(it, IterV):
            r = ex.unit.opaque_next(ex, st, args[0], dty)
            if r is not None:
                return r
            raise Unsupported("next of %r" % (it,))
        out = []
        import builtins_more
        if it.kind == "maprange":
            return builtins_more.range_end(ex, st, a, it, dty, back)
        if not builtins_more.same_len(it):
            return builtins_more.filtered_next(ex, st, a, it, dty, stack, back)
        for k, s, x, i2 in step(ex, st, it, stack, back):
            if k == "skip":
                raise Unsupported("explicit next of a filtering iterator")
            if k in ("panic", "abort"):
                out.append((k, s, x))
                continue
            ex.store(s, a, i2)
            if k == "item":
                if isinstance(x, Agg) and x.ty is None and dty is not None:
                    x = Agg(ex.p.T[dty]["args"][0], x.v, x.f, x.key)
                out.append(("ret", s, opt(ex, dty, x)))
            else:
                out.append(("ret", s, opt(ex, dty)))
        return out
    return f


def consume_src(ex, st, v, stack):
    """iterator consumed by value or through &mut"""
    if isinstance(v, Ref):
        a, it = deep_addr(ex, st, v)
        if isinstance(it, IterV):
            # where the iterator stands afterwards is not tracked
            ex.store(st, a, Opaque(None, "consumed iterator"))
            return it
    return to_iter(ex, st, v, stack)


def c_for_each(ex, st, fn, args, dty, stack):
    it = to_iter(ex, st, args[0], stack)
    floc = st.new(args[1])

    def body(s, x):
        for k, s2, v in ex.call_value(s, Ref(floc), [x], ex.p.bys.get("()"), stack):
            yield ("cont" if k == "ret" else k, s2, v)
    for k, s, v in drive(ex, st, it, body, stack, "for_each"):
        yield ("ret", s, ex.unit_val()) if k == "done" else (k, s, v)


def c_try_for_each(ex, st, fn, args, dty, stack):
    it = consume_src(ex, st, args[0], stack)
    floc = st.new(args[1])
    path = ex.p.adt_path(dty)
    good = {"core::result::Result": 0, "core::option::Option": 1}.get(path)
    if good is None:
        raise Unsupported("try_for_each over " + str(path))

    def body(s, x):
        for k, s2, v in ex.call_value(s, Ref(floc), [x], dty, stack):
            if k != "ret":
                yield (k, s2, v)
                continue
            loc = s2.new(v)
            for s3, a in ex.variants(s2, (loc, ())):
                yield ("cont", s3, None) if a.v == good else ("break", s3, a)
    for k, s, v in drive(ex, st, it, body, stack, "try_for_each"):
        if k == "done":
            yield ("ret", s, Agg(dty, good, (ex.unit_val(),)))
        elif k == "break":
            yield ("ret", s, v)
        else:
            yield (k, s, v)


def c_find(back=False, mode="find"):
    def f(ex, st, fn, args, dty, stack):
        it = consume_src(ex, st, args[0], stack)
        if back:
            it = IterV("rev", it=it)
        floc = st.new(args[1])

        def body(s, x):
            arg = Ref(s.new(x)) if mode == "find" else x
            for k, s2, v in ex.call_value(s, Ref(floc), [arg], ex.p.bys.get("bool"), stack):
                if k != "ret":
                    yield (k, s2, v)
                    continue
                for s3, b in ex.fork(s2, v.t):
                    hit = b if mode != "all" else not b
                    yield ("break", s3, x) if hit else ("cont", s3, None)
        for k, s, v in drive(ex, st, it, body, stack, mode):
            if mode == "find":
                if k == "done":
                    yield ("ret", s, opt(ex, dty))
                elif k == "break":
                    yield ("ret", s, opt(ex, dty, v))
                else:
                    yield (k, s, v)
            else:
                if k in ("done", "break"):
                    yield ("ret", s, ex.mk_bool((k == "break") == (mode == "any")))
                else:
                    yield (k, s, v)
    return f


def c_find_map(ex, st, fn, args, dty, stack):
    it = consume_src(ex, st, args[0], stack)
    floc = st.new(args[1])

    def body(s, x):
        for k, s2, v in ex.call_value(s, Ref(floc), [x], dty, stack):
            if k != "ret":
                yield (k, s2, v)
                continue
            loc = s2.new(v)
            for s3, a in ex.variants(s2, (loc, ())):
                yield ("break", s3, a) if a.v == 1 else ("cont", s3, None)
    for k, s, v in drive(ex, st, it, body, stack, "find_map"):
        if k == "done":
            yield ("ret", s, opt(ex, dty))
        elif k == "break":
            yield ("ret", s, v)
        else:
            yield (k, s, v)


def c_fold(ex, st, fn, args, dty, stack):
    it = to_iter(ex, st, args[0], stack)
    acc = st.new(args[1])
    floc = st.new(args[2])

    def body(s, x):
        for k, s2, v in ex.call_value(s, Ref(floc), [s.heap[acc], x], dty, stack):
            if k == "ret":
                s2.heap[acc] = v
                yield ("cont", s2, None)
            else:
                yield (k, s2, v)
    ex.unit.loop_cells = {"acc": (acc, ())}
    for k, s, v in drive(ex, st, it, body, stack, "fold"):
        yield ("ret", s, s.heap[acc]) if k == "done" else (k, s, v)


def c_collect(ex, st, fn, args, dty, stack):
    if (ex.p.adt_path(dty) or "").split("::")[0] not in ("core", "alloc", "std", "") and fn.get("key") in ex.insts and ex.insts[fn["key"]]["body"]:
        return None         # from_iter of the type itself
    it = to_iter(ex, st, args[0], stack)
    return collect_into(ex, st, it, dty, stack)


def collect_into(ex, st, it, dty, stack):
    path = ex.p.adt_path(dty)
    if path == "alloc::vec::Vec":
        if it.kind == "seq" and it.p["mode"] == "val" and conc(it.p["lo"]) == 0:
            t = it.p["vec"]
            n = it.p["hi"]
            if conc(z3.simplify(ex.p.vec_len(t) - n)) != 0:
                t = ex.p.vec_mk(ex.p.vec_arr(t), n)
            return ret(st, Sym(dty, t))
        return collect_vec(ex, st, it, dty, stack)
    if path == "alloc::collections::btree::map::BTreeMap":
        return map_from_iter(ex, st, None, [it], dty, stack)
    good = {"core::result::Result": 0, "core::option::Option": 1}.get(path)
    if good is not None and ex.p.T[ex.p.T[dty]["args"][0]]["k"] == "tuple" and not ex.p.T[ex.p.T[dty]["args"][0]]["args"]:
        return collect_units(ex, st, it, dty, good, stack)
    raise Unsupported("collect into " + ex.p.T[dty]["s"])


def collect_vec(ex, st, it, dty, stack):
    """every item is computed and pushed now; where that is no loop the machinery can do, but a step has no effect and
    does not fail, the items may as well be computed when they are needed"""
    import builtins_more
    import loops

    def now(s0):
        loc = s0.new(empty_vec(ex, s0, dty))

        def body(s, x):
            vec_push(ex, s, None, [Ref(loc), x], None, stack)
            yield ("cont", s, None)
        for k, s, v in drive(ex, s0, it, body, stack, "collect"):
            if k == "done":
                v = s.heap[loc]
                if isinstance(v, loops.AccVec):
                    raise Unsupported("collected elements are not described")
            yield ("ret" if k == "done" else k, s, v)

    def later(s0):
        builtins_more.pure_steps(ex, s0, it, stack, "collect")
        yield ("ret", s0, LazyVec(dty, it, {loc: s0.heap[loc] for loc in reach(s0, it) if loc in s0.heap}))
    return loops.attempts(ex, st, [now, later])


def reach(st, v):
    """the cells a value refers to, directly or through others"""
    seen, done, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (list, tuple)):
            todo += x
            continue
        if isinstance(x, dict):
            todo += x.values()
            continue
        if not isinstance(x, Val) or id(x) in done:
            continue
        done.add(id(x))
        loc = getattr(x, "loc", None)
        if loc is not None and loc not in seen:
            seen.add(loc)
            todo.append(st.heap.get(loc))
        for c in type(x).__mro__:
            for n in getattr(c, "__slots__", ()):
                todo.append(getattr(x, n, None))
        todo += getattr(x, "__dict__", {}).values()
    return seen


def lazy_it(ex, st, v):
    for loc, old in (v.seen or {}).items():
        if loc not in st.heap or st.heap[loc] is not old and not ex.val_eq(st, st.heap[loc], old):
            raise Unsupported("what elements were collected from has changed")
    return v.it


def collect_units(ex, st, it, dty, good, stack):
    """stops at the first failure"""
    def body(s, x):
        loc = s.new(x)
        for s3, a in ex.variants(s, (loc, ())):
            yield ("cont", s3, None) if a.v == good else ("break", s3, Agg(dty, a.v, a.f))
    for k, s, v in drive(ex, st, it, body, stack, "collect"):
        if k == "done":
            yield ("ret", s, Agg(dty, good, (ex.unit_val(),)))
        elif k == "break":
            yield ("ret", s, v)
        else:
            yield (k, s, v)


def c_into_iter(ex, st, fn, args, dty, stack):
    v = args[0]
    if isinstance(v, Ref):
        a, x = deep_addr(ex, st, v)
        if isinstance(x, IterV):
            return ret(st, v)
        if isinstance(x, Sym) and ex.p.adt_path(x.ty) == "alloc::collections::btree::map::BTreeMap":
            import builtins_more
            return builtins_more.map_iter("iter")(ex, st, fn, args, dty, stack)
        if isinstance(x, Agg) and x.ty is not None and (ex.p.adt_path(x.ty) or "").startswith(ex.p.crate + "::"):
            return None
        if isinstance(x, Sym) and (ex.p.adt_path(x.ty) or "").startswith("plotline::"):
            return None
    if isinstance(v, Sym) and ex.p.adt_path(v.ty) == "alloc::collections::btree::map::BTreeMap":
        import builtins_more
        return builtins_more.map_iter("into_iter")(ex, st, fn, args, dty, stack)
    if isinstance(v, (IterV, LazyVec, Ref, Sym, Agg, Alt)):
        return [("ret", s, to_iter(ex, s, w, stack)) for s, w in known_option(ex, st, v)]
    return None


# ---------------------------------------------------------------- misc

def do_panic(ex, st, fn, args, dty, stack):
    st.event("panic", fn.get("path"))
    return [("panic", st, None)]


def opaque_result(ex, st, fn, args, dty, stack):
    return ret(st, Opaque(dty, fn["path"]))


def mem_replace(ex, st, fn, args, dty, stack):
    a = addr_of(args[0])
    old = ex.load(st, a)
    ex.store(st, a, args[1])
    return ret(st, old)


def mem_take(ex, st, fn, args, dty, stack):
    a = addr_of(args[0])
    old = ex.load(st, a)
    ex.store(st, a, default_value(ex, st, dty))
    return ret(st, old)


def mem_swap(ex, st, fn, args, dty, stack):
    a, b = addr_of(args[0]), addr_of(args[1])
    x, y = ex.load(st, a), ex.load(st, b)
    ex.store(st, a, y)
    ex.store(st, b, x)
    return ret(st, ex.unit_val())


def mem_drop(ex, st, fn, args, dty, stack):
    return [("ret" if k == "ok" else k, s, ex.unit_val()) for k, s in ex.drop_value(st, args[0], stack)]


def mem_forget(ex, st, fn, args, dty, stack):
    return ret(st, ex.unit_val())


def any_downcast(ex, st, fn, args, dty, stack):
    a, v = deep_addr(ex, st, args[0])
    ty = fn["args"][-1]
    return fork_opt(ex, st, dty, dyn_tid(ex, v) == typeid(ex, ty), lambda s: Ref(a[0], a[1] + (("dyncast", ty),)))


def any_is(ex, st, fn, args, dty, stack):
    a, v = deep_addr(ex, st, args[0])
    return ret(st, ex.mk_bool(dyn_tid(ex, v) == typeid(ex, fn["args"][-1])))


def type_id_of(ex, st, fn, args, dty, stack):
    return ret(st, Sym(dty, typeid(ex, fn["args"][0])))


def type_name(ex, st, fn, args, dty, stack):
    """a text which is a function of the type; different types may have the same name"""
    ex.assumed["core::any::type_name"] = 1
    ty = ex.p.T[dty]["elem"]
    return ret(st, Ref(st.new(Sym(ty, typename(ex, typeid(ex, fn["args"][0]), ex.p.sort(ty))))))


def type_key(p, m, tid):
    """what a registry by type, with this kind of key, knows a type by"""
    so = m.sort().domain()
    if so == tid.sort():
        return tid
    if "str" in str(so).lower() and so == p.sort(p.bys["str"]):
        return z3.Function("typename", tid.sort(), so)(tid)
    raise Unsupported("key of the registry not recognised")


def typename(ex, tid, so):
    return z3.Function("typename", tid.sort(), so)(tid)


def tracing_enabled(ex, st, fn, args, dty, stack):
    return ret(st, ex.mk_bool(ex.p.fresh("log", z3.BoolSort())))


def unit_result(ex, st, fn, args, dty, stack):
    return ret(st, ex.unit_val())


def box_new(ex, st, fn, args, dty, stack):
    return ret(st, BoxV(dty, args[0]))


def box_uninit(ex, st, fn, args, dty, stack):
    return ret(st, BoxV(dty, UNINIT))


def identity(ex, st, fn, args, dty, stack):
    return ret(st, args[0])


def array_eq(ex, st, fn, args, dty, stack):
    x, y = through(ex, st, args[0]), through(ex, st, args[1])
    a, n, et = vec_of(ex, st, x)
    b, m, _ = vec_of(ex, st, y)
    st.assume(n >= 0)
    out = []
    j = z3.Int("j!eq")
    same = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(a, j) == z3.Select(b, j)))
    s1 = st.clone()
    s1.assume(same)
    ex.unit.array_eq_fact(ex, s1, a, b, n, True)
    if ex.s.feasible(s1.pc):
        out.append(("ret", s1, ex.mk_bool(True)))
    s2 = st.clone()
    w = ex.p.fresh("w", z3.IntSort())
    s2.assume(w >= 0, w < n, z3.Select(a, w) != z3.Select(b, w))
    ex.unit.array_eq_fact(ex, s2, a, b, n, False)
    if ex.s.feasible(s2.pc):
        out.append(("ret", s2, ex.mk_bool(False)))
    if fn["name"] == "ne":
        out = [(k, s, ex.mk_bool(z3.simplify(z3.Not(v.t)))) for k, s, v in out]
    return out


VEC = "alloc::vec::Vec::<T, A>::"
VEC1 = "alloc::vec::Vec::<T>::"
SL = "core::slice::<impl [T]>::"
BT = "alloc::collections::btree::map::BTreeMap::<K, V, A>::"
BT1 = "alloc::collections::btree::map::BTreeMap::<K, V>::"
RW = "std::sync::poison::rwlock::RwLock::<T>::"
OL = "std::sync::once_lock::OnceLock::<T>::"
ITER = "core::iter::traits::iterator::Iterator"
DITER = "core::iter::traits::double_ended::DoubleEndedIterator"


def slice_iter(ex, st, fn, args, dty, stack):
    return ret(st, to_iter(ex, st, args[0], stack))


def vec_clone(ex, st, fn, args, dty, stack):
    return ret(st, clone_value(ex, st, through(ex, st, args[0])))


PATHS = {
    RW + "new": lambda ex, st, fn, a, d, k: ret(st, LockV(a[0], z3.BoolVal(False))),
    RW + "read": rw_acquire("r"),
    RW + "write": rw_acquire("w"),
    RW + "into_inner": lock_into_inner,
    RW + "get_mut": lock_get_mut,
    RW + "is_poisoned": is_poisoned,
    RW + "clear_poison": clear_poison,
    "std::sync::poison::PoisonError::<T>::into_inner": lambda ex, st, fn, a, d, k: ret(st, ex.get1(a[0], ("f", 0, 0))),
    "alloc::rcs::arc::Arc::<T>::new": arc_new,
    "alloc::rcs::arc::Arc::<T, A>::into_inner": arc_into_inner,
    "alloc::rcs::arc::Arc::<T, A>::get_mut": arc_get_mut,
    "alloc::rcs::arc::Arc::<T, A>::try_unwrap": arc_try_unwrap,
    "alloc::rcs::arc::Arc::<T, A>::strong_count": arc_count,
    "alloc::rcs::arc::Arc::<T, A>::ptr_eq": arc_ptr_eq,
    "<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone": arc_clone,
    "<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref": arc_deref,
    "<alloc::rcs::arc::Arc<T, A> as core::convert::AsRef<T>>::as_ref": arc_deref,
    OL + "new": lambda ex, st, fn, a, d, k: ret(st, OnceV(False, None)),
    OL + "get": once_get,
    OL + "get_mut": once_get,
    OL + "set": once_set,
    OL + "get_or_init": once_get_or_init,
    OL + "take": once_take,
    OL + "into_inner": once_into_inner,
    "<std::sync::once_lock::OnceLock<T> as core::clone::Clone>::clone": once_clone,
    "<std::sync::once_lock::OnceLock<T> as core::convert::From<T>>::from": lambda ex, st, fn, a, d, k: ret(st, OnceV(True, a[0])),
    BT + "get": map_get, BT + "get_mut": map_get, BT + "contains_key": map_contains, BT + "insert": map_insert,
    BT + "remove": map_remove, BT + "values": map_values, BT + "len": map_len, BT + "is_empty": map_is_empty,
    BT + "clear": map_clear,
    "core::iter::adapters::peekable::Peekable::<I>::peek": it_peek(False),
    "core::iter::adapters::peekable::Peekable::<I>::next_if": it_peek(True),
    BT1 + "new": lambda ex, st, fn, a, d, k: ret(st, empty_map(ex, d)),
    "<alloc::collections::btree::map::BTreeMap<K, V> as core::iter::traits::collect::FromIterator<(K, V)>>::from_iter": map_from_iter,
    VEC + "push": vec_push, VEC + "len": vec_len, VEC + "is_empty": vec_is_empty, VEC + "as_slice": vec_same,
    VEC + "remove": vec_remove, VEC + "drain": vec_drain, VEC + "split_off": vec_split_off, VEC + "pop": vec_pop,
    VEC + "append": vec_extend, VEC1 + "new": vec_new, VEC1 + "with_capacity": vec_new,
    SL + "len": vec_len, SL + "is_empty": vec_is_empty, SL + "iter": slice_iter, SL + "get": vec_get,
    SL + "first": vec_last, SL + "last": vec_last,
    VEC + "iter": slice_iter,
    "alloc::boxed::Box::<T>::new": box_new,
    "alloc::boxed::Box::<T>::new_uninit": box_uninit,
    "alloc::boxed::box_new_uninit": box_uninit,
    "alloc::boxed::box_assume_init_into_vec_unsafe": box_into_vec,
    "<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop": unit_result,
    "core::option::Option::<T>::iter": option_iter, "core::option::Option::<T>::iter_mut": option_iter,
    "core::iter::sources::once::once": iter_once, "core::iter::sources::empty::empty": iter_once,
    "core::mem::replace": mem_replace, "core::mem::take": mem_take, "core::mem::swap": mem_swap,
    "core::mem::drop": mem_drop, "core::mem::forget": mem_forget,
    "<(dyn core::any::Any + 'static)>::downcast_ref": any_downcast,
    "<(dyn core::any::Any + 'static)>::downcast_mut": any_downcast,
    "<(dyn core::any::Any + 'static)>::is": any_is,
    "core::any::TypeId::of": type_id_of,
    "core::any::type_name": type_name,
    "tracing::enabled": tracing_enabled,
    "tracing::field": unit_result,
    "core::hint::must_use": identity,
    "core::hint::black_box": identity,
    "alloc::fmt::format": opaque_result,
}

GUARDS = ("std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard")

ITERS = {"rev": adaptor("rev"), "map": adaptor("map"), "filter": adaptor("filter"), "filter_map": adaptor("filter_map"),
         "zip": adaptor("zip"), "chain": adaptor("chain"), "flatten": adaptor("flatten"), "flat_map": adaptor("flat_map"),
         "enumerate": adaptor("enumerate"), "cloned": adaptor("cloned"), "copied": adaptor("cloned"),
         "inspect": adaptor("inspect"), "by_ref": identity, "peekable": it_peekable,
         "next": it_next(False), "next_back": it_next(True), "for_each": c_for_each, "try_for_each": c_try_for_each,
         "find": c_find(), "rfind": c_find(True), "any": c_find(mode="any"), "all": c_find(mode="all"),
         "find_map": c_find_map, "fold": c_fold, "collect": c_collect}

PANICS = ("core::panicking::", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
          "std::rt::begin_panic", "std::panicking::", "core::slice::index::slice_")


def call(ex, st, fn, args, dty, stack):
    path = fn.get("path") or ""
    name = fn.get("name") or path.split("::")[-1]
    trait = fn.get("trait")
    self_ = fn.get("self") or ""
    if path.startswith(("alloc::collections::btree::map::entry::", "std::collections::hash::map::Entry", "std::collections::hash::map::OccupiedEntry", "std::collections::hash::map::VacantEntry")):
        import builtins_more
        r = builtins_more.entry_call(ex, st, fn, args, dty, stack)
        if r is not None:
            return r
    if trait in ("core::slice::cmp::SliceOrd", "core::slice::cmp::SlicePartialOrd") and name in SLICE_ORD:
        ex.assumed["order of slices: the first differing element decides, then the length"] = 1
        return SLICE_ORD[name](ex, st, fn, args, dty, stack)
    f = PATHS.get(path)
    if f is not None:
        ex.assumed[path] = ex.assumed.get(path, 0) + 1
        return f(ex, st, fn, args, dty, stack)
    if path.startswith(PANICS):
        if "nounwind" in path:
            return [("abort", st, "non-unwinding panic")]
        return do_panic(ex, st, fn, args, dty, stack)
    if "precondition_check" in path:
        return ret(st, ex.unit_val())
    if fn.get("k") == "ctor":
        return ret(st, ex.ctor_call(fn, args, dty))
    if path.startswith(("core::fmt::", "alloc::fmt::")) or trait in ("core::fmt::Debug", "core::fmt::Display", "alloc::string::ToString") \
            or trait == "core::fmt::Write":
        if fn.get("key") in ex.insts and ex.insts[fn["key"]]["local"]:
            return None
        ex.assumed["formatting: " + (trait or path)] = 1
        return ret(st, Opaque(dty, "formatted"))
    if trait in ("core::ops::deref::Deref", "core::ops::deref::DerefMut"):
        if self_ in GUARDS:
            ex.assumed[path] = 1
            return guard_deref(ex, st, fn, args, dty, stack)
        if self_ in ("alloc::vec::Vec",):
            return vec_same(ex, st, fn, args, dty, stack)
        if self_ in ("alloc::string::String", "std::path::PathBuf", "std::ffi::os_str::OsString", "alloc::borrow::Cow"):
            return ret(st, args[0])
        v = args[0]
        if isinstance(v, Ref):
            x = ex.load(st, v.addr())
            if isinstance(x, GuardV):
                return guard_deref(ex, st, fn, args, dty, stack)
            if isinstance(x, ArcV):
                return arc_deref(ex, st, fn, args, dty, stack)
    if trait == "core::default::Default" and not (fn.get("key") in ex.insts and ex.insts[fn["key"]]["local"]):
        if ex.p.T[dty]["k"] in ("adt", "bool", "int", "uint", "tuple", "ref"):
            try:
                v = default_value(ex, st, dty)
                ex.assumed["Default of std types"] = 1
                return ret(st, v)
            except Unsupported:
                pass
    if trait in (ITER, DITER) and name in ITERS:
        if not (fn.get("key") in ex.insts and ex.insts[fn["key"]]["local"]):
            ex.assumed["Iterator::" + name] = 1
            return ITERS[name](ex, st, fn, args, dty, stack)
    if trait == "core::iter::traits::collect::IntoIterator" and name == "into_iter":
        if not (fn.get("key") in ex.insts and ex.insts[fn["key"]]["local"]):
            r = c_into_iter(ex, st, fn, args, dty, stack)
            if r is not None:
                ex.assumed["IntoIterator::into_iter"] = 1
                return r
    if trait == "core::iter::traits::collect::Extend" and name == "extend" and self_ in VECS:
        ex.assumed["Vec::extend"] = 1
        return vec_extend(ex, st, fn, args, dty, stack)
    if trait == "core::iter::traits::collect::Extend" and name == "extend" and self_ == "alloc::collections::btree::map::BTreeMap":
        import builtins_more
        ex.assumed["BTreeMap::extend"] = 1
        return builtins_more.map_extend(ex, st, fn, args, dty, stack)
    if trait == "core::iter::traits::exact_size::ExactSizeIterator" and name == "len":
        import builtins_more
        ex.assumed["ExactSizeIterator::len"] = 1
        return builtins_more.c_exact_len(ex, st, fn, args, dty, stack)
    if trait == "core::iter::traits::collect::FromIterator" and name == "from_iter" and not (fn.get("key") in ex.insts and ex.insts[fn["key"]]["local"]):
        it = to_iter(ex, st, args[0], stack)
        return collect_into(ex, st, it, dty, stack)
    if trait in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
        tup = args[1]
        if isinstance(tup, Agg):
            a = list(tup.f)
        else:
            raise Unsupported("opaque argument tuple")
        return ex.call_value(st, args[0], a, dty, stack)
    if trait == "core::clone::Clone" and name == "clone":
        if fn.get("key") in ex.insts and ex.insts[fn["key"]]["body"] is not None and self_ not in ("alloc::vec::Vec", "alloc::boxed::Box", "[T; N]") \
                and self_ not in ex.p.OPAQUE_ADTS:
            return None
        ex.assumed["Clone::clone of %s equals the original and does not panic" % (fn.get("self") or "user types")] = 1
        return ret(st, clone_value(ex, st, through1(ex, st, args[0])))
    if trait == "alloc::borrow::ToOwned" and name == "to_owned":
        ex.assumed["ToOwned"] = 1
        return ret(st, clone_value(ex, st, through1(ex, st, args[0])))
    if trait in ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord"):
        r = compare(ex, st, fn, args, dty, stack, name)
        if r is not None:
            return r
    if trait == "core::ops::index::Index" and self_ == "alloc::vec::Vec":
        return vec_index(ex, st, fn, args, dty, stack)
    if trait == "plotline::id::Identify" and name == "id" and fn.get("k") != "item":
        v = through(ex, st, args[0])
        if isinstance(v, Sym):
            ex.assumed["Identify::id of user types is a pure function and does not panic"] = 1
            it = ex.p.T[dty]["elem"]
            return ret(st, Ref(st.new(Sym(it, idof(ex, v.t, ex.p.sort(it))))))
    if trait == "core::convert::Into" and name == "into" or trait == "core::convert::From" and name == "from":
        if path.endswith("<T as core::convert::From<T>>::from") or path == "<T as core::convert::From<T>>::from":
            return ret(st, args[0])
    import builtins_state
    return builtins_state.call(ex, st, fn, args, dty, stack)


def through1(ex, st, v):
    """the value behind one reference"""
    return ex.load(st, v.addr()) if isinstance(v, Ref) else v


def ordering(ex, dty_name="core::cmp::Ordering"):
    return next(i for i, t in enumerate(ex.p.T) if t["k"] == "adt" and t["path"] == dty_name)


def compare_options(ex, st, fn, args, dty, stack, name):
    """None comes before every Some, and Somes compare by their content"""
    ex.assumed["the order of Option: None first, then by content"] = 1
    byval = name in ("max", "min")
    la, lb = [(st.new(x), ()) if byval else deep_addr(ex, st, x)[0] for x in args]
    out = []
    for s1, a in ex.variants(st, la):
        for s2, b in ex.variants(s1, lb):
            if a.v == 1 and b.v == 1:
                xs = [a.f[0], b.f[0]] if byval else [Ref(s2.new(y.f[0])) for y in (a, b)]
                r = compare(ex, s2, {**fn, "self": None, "key": None}, xs, dty, stack, name)
                if r is None:
                    raise Unsupported("comparison of %r and %r" % (a, b))
                out += [(k, s, Agg(a.ty, 1, (x,)) if byval else x) for k, s, x in r]
                continue
            c = a.v - b.v
            if name in ("cmp", "partial_cmp"):
                o = Agg(dty if name == "cmp" else ex.p.T[dty]["args"][0], (c > 0) - (c < 0) + 1, ())
                out.append(("ret", s2, o if name == "cmp" else Agg(dty, 1, (o,))))
            elif byval:
                out.append(("ret", s2, (a if c > 0 else b) if name == "max" else (b if c > 0 else a)))
            else:
                out.append(("ret", s2, ex.mk_bool(z3.BoolVal({"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[name]))))
    return out


def strlike(ex, v):
    if isinstance(v, StrV):
        return True
    if not (isinstance(v, Sym) and v.ty is not None and 0 <= v.ty < len(ex.p.T)):
        return False
    t = ex.p.T[v.ty]
    return t["k"] == "str" or t["k"] == "adt" and t["path"] == "alloc::string::String"


def literal(s, sort):
    """the text s as a term"""
    if sort == z3.StringSort():
        return z3.StringVal(s)
    return z3.Const("lit<%s> %s" % (sort, s), sort)


LITS = {}


def literal_axiom(t):
    """different literals are different texts"""
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("lit<"):
        n = LITS.setdefault(t.decl().name(), len(LITS))
        yield z3.Function("litnum<%s>" % t.sort(), t.sort(), z3.IntSort())(t) == n


def compare(ex, st, fn, args, dty, stack, name):
    p = ex.p
    if name in ("eq", "ne"):
        x, y = through(ex, st, args[0]), through(ex, st, args[1])
        if strlike(ex, x) and strlike(ex, y):
            ex.assumed["texts are equal when their characters are"] = 1
            e = ex.eq_term(st, x, y)
            if e is not None:
                return ret(st, ex.mk_bool(z3.simplify(e if name == "eq" else z3.Not(e))))
    if fn.get("path", "").startswith("core::array::equality::"):
        ex.assumed["array equality is element-wise"] = 1
        return array_eq(ex, st, fn, args, dty, stack)
    if (fn.get("self") or "") == "core::option::Option" and name not in ("eq", "ne"):
        return compare_options(ex, st, fn, args, dty, stack, name)
    byval = name in ("max", "min")
    a = args[0] if byval else through(ex, st, args[0])
    opaque = isinstance(a, Sym) and a.ty is not None and 0 <= a.ty < len(p.T) and p.adt_path(a.ty) in p.OPAQUE_ADTS \
        and a.t.sort().kind() == z3.Z3_UNINTERPRETED_SORT
    if not opaque and fn.get("key") in ex.insts and ex.insts[fn["key"]]["body"] is not None:
        return None
    b = args[1] if byval else through(ex, st, args[1])
    if not (isinstance(a, Sym) and isinstance(b, Sym)):
        if name in ("eq", "ne"):
            e = ex.eq_term(st, a, b)
            if e is None:
                raise Unsupported("comparison of %r and %r" % (a, b))
            return ret(st, ex.mk_bool(z3.simplify(e if name == "eq" else z3.Not(e))))
        raise Unsupported("comparison of %r and %r" % (a, b))
    if a.t.sort() != b.t.sort():
        return None
    ex.assumed["comparison of user types is lawful (total order consistent with equality) and does not panic"] = 1
    x, y = a.t, b.t
    if name in ("eq", "ne"):
        return ret(st, ex.mk_bool(z3.simplify(x == y if name == "eq" else x != y)))
    rx, ry = rank(ex, x), rank(ex, y)
    rel = {"lt": rx < ry, "le": rx <= ry, "gt": rx > ry, "ge": rx >= ry}
    if name in rel:
        return ret(st, ex.mk_bool(z3.simplify(rel[name])))
    if name in ("cmp", "partial_cmp"):
        oty = dty if name == "cmp" else p.T[dty]["args"][0]
        out = []
        for v, c in ((0, rx < ry), (1, x == y), (2, rx > ry)):
            s = st.clone()
            s.assume(z3.simplify(c))
            if v == 1:
                s.assume(rx == ry)
            if ex.s.feasible(s.pc):
                o = Agg(oty, v, ())
                out.append(("ret", s, o if name == "cmp" else Agg(dty, 1, (o,))))
        return out
    if name in ("max", "min"):
        out = []
        for s, b_ in ex.fork(st, rx > ry if name == "max" else ry < rx):
            # max returns the second argument when equal, min the first
            out.append(("ret", s, args[0] if b_ == (name == "max") else args[1]) if name == "max" else ("ret", s, args[1] if b_ else args[0]))
        return out
    return None
