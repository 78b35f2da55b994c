"""Resources, targets and their guards (P13, P15, P16)."""
from common import *

RES = "plotline::schema::resource::Res"
RESSET = "plotline::schema::resource::ResourceSet"
GUARDS = ("std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard")


def guards_in(v):
    if isinstance(v, GuardV):
        return [v]
    if isinstance(v, Agg):
        return [g for x in v.f for g in guards_in(x)]
    if isinstance(v, BoxV):
        return guards_in(v.v)
    return []


def inner_option(u, ty, pred, what):
    """index of the only Option field of struct type ty whose payload satisfies pred"""
    p = u.p
    return u.fidx(ty, lambda f: p.adt_path(f) == OPTION and pred(p.T[f]["args"][0]), what)


def build(u, ty, i, x):
    """a value of struct type ty whose Option field i is Some(x) or None; its other fields carry no data"""
    p = u.p
    fs = p.fields(ty)
    f = []
    for n, t in enumerate(fs):
        if n == i:
            f.append(Agg(t, 0, ()) if x is None else Agg(t, 1, (x,)))
        elif p.adt_path(t) == PHANTOM:
            f.append(Agg(t, 0, ()))
        else:
            raise Unsupported("%s has fields the contract does not know" % p.T[ty]["s"])
    return Agg(ty, 0, f)


def holder(u, st, ty, some, poison=None, shared=False):
    """a Res or Target: (value, location of the lock or None)"""
    p = u.p
    i = inner_option(u, ty, lambda a: p.adt_path(a) == ARC and p.adt_path(p.T[a]["args"][0]) == LOCK, "shared cell")
    if not some:
        return build(u, ty, i, None), None
    at = p.T[p.fields(ty)[i]]["args"][0]
    ct = p.T[p.T[at]["args"][0]]["args"][0]
    l = LockV(u.havoc(u.ex, st, ct, "content"), u.const("poison", z3.BoolSort()) if poison is None else poison)
    loc = st.new(l)
    st.arcs[loc] = u.const("count", z3.IntSort())
    st.assume(st.arcs[loc] >= 1)
    return build(u, ty, i, ArcV(at, loc)), loc


def boxed_any(u, ty):
    t = u.p.T[ty]
    return t["k"] == "adt" and t["path"] == BOX and u.p.T[t["args"][0]]["k"] == "dyn"


def any_tid(u, st, x):
    """type id and term of the value in a Box<dyn Any>"""
    if isinstance(x, BoxV):
        x = x.v
    if isinstance(x, Sym):
        f = z3.Function("typeidof<%s>" % x.t.sort(), x.t.sort(), u.p.pname("core::any::TypeId"))
        return f(x.t)
    return bi.dyn_tid(u.ex, x)


def acquire(u, self_, kind):
    """ReadOnly::read / ReadWrite::write of a resource or target: the cell is held exactly as long as the guard lives"""
    u.find("plotline", kind, self_, "deref::ReadOnly" if kind == "read" else "deref::ReadWrite")
    for some in (True, False):
        st = State()
        hty = u.p.T[u.arg_tys()[0]]["elem"]
        v, loc = holder(u, st, hty, some)
        h = st.new(v)
        before = st.clone()
        for s, r in u.returns(u.call(st, [Ref(h)]), "neither blocks nor panics on a free cell"):
            gs = guards_in(r)
            if not some:
                u.prove("nothing is held where there is no cell", s, z3.BoolVal(not gs))
                same_heap(u, s, before, "and nothing changes")
                continue
            pz = before.heap[loc].poison
            if gs:
                u.prove("a value left behind by a panic is not offered", s, z3.Not(pz))
                lk = s.heap[loc]
                u.prove("the guard is the one of the cell", s, z3.BoolVal(len(gs) == 1 and gs[0].loc == loc and gs[0].path == ()))
                u.prove("the cell is held for %sing" % kind[:-1] if kind == "write" else "the cell is held for reading", s,
                        z3.BoolVal(bool(lk.w) and conc(lk.r) == 0 if kind == "write" else not lk.w and conc(lk.r) == 1))
                u.same("acquiring does not change the value", s, lk.v, before.heap[loc].v)
            else:
                u.prove("an available value is offered", s, pz)
            for k, s2 in u.ex.drop_value(s, r, ()):
                if k != "ok":
                    u.never("dropping the guard does not panic", s2)
                    continue
                same_heap(u, s2, before, "once the guard is gone the cell is as before")


def conc(x):
    return x if isinstance(x, int) else bi.conc(x)


def guard_deref(u, self_, name):
    """TryDeref / TryDerefMut of a guard: exactly the value in the cell it holds"""
    u.find("plotline", name, self_, "deref::TryDeref" if name == "try_deref" else "deref::TryDerefMut")
    p = u.p
    write = "Write" in self_
    for some in (True, False):
        st = State()
        gty = p.T[u.arg_tys()[0]]["elem"]
        i = inner_option(u, gty, lambda a: p.adt_path(a) in GUARDS, "guard")
        ct = p.T[p.fields(gty)[i]]["args"][0]
        ct = [a for a in p.T[ct]["args"] if isinstance(a, int)][0]
        content = u.havoc(u.ex, st, ct, "content")
        loc = st.new(LockV(content, z3.BoolVal(False), 0 if write else 1, write))
        g = GuardV(loc, (), "w" if write else "r")
        h = st.new(build(u, gty, i, g if some else None))
        rt = p.T[p.T[u.ret_ty()]["args"][0]]["elem"]
        dyn = boxed_any(u, ct)
        before = st.clone()
        for s, o in u.returns(u.call(st, [Ref(h)])):
            for s2, a in u.cases(s, o):
                if not some:
                    u.prove("an empty guard offers nothing", s2, z3.BoolVal(a.v == 0))
                    continue
                right = any_tid(u, s2, content) == bi.typeid(u.ex, rt) if dyn else z3.BoolVal(True)
                if a.v == 0:
                    u.prove("nothing is offered only if the cell holds a value of another type", s2, z3.Not(right))
                    continue
                u.prove("what is offered has the type asked for", s2, right)
                x = u.ex.load(s2, (a.f[0].loc, a.f[0].path))
                cur = content
                if dyn:
                    cur = Sym(rt, bi.dyncast(u.ex, content.v if isinstance(content, BoxV) else content, rt))
                u.same("what is offered is the value in the cell", s2, x, cur)
                same_heap(u, s2, before, "looking changes nothing")
                if name == "try_deref_mut":
                    y = u.sym(rt, "written")
                    s3 = s2.clone()
                    u.ex.store(s3, (a.f[0].loc, a.f[0].path), y)
                    now = s3.heap[loc].v
                    if dyn:
                        if isinstance(now, BoxV):
                            now = now.v
                        u.prove("what is written keeps its type", s3, any_tid(u, s3, now) == bi.typeid(u.ex, rt))
                        now = now.v if isinstance(now, DynV) else Sym(rt, bi.dyncast(u.ex, now, rt))
                    u.same("what is written through it is in the cell afterwards", s3, now, y)


def registry(u, st, ty):
    """an arbitrary resource set: (value, map)"""
    v = u.havoc(u.ex, st, ty, "set")
    return v, u.the_map(v)


def with_resource(u, where):
    """registering a resource: a fresh free cell holding it under its own type, nothing else touched"""
    u.find("plotline", "with_resource", "resource::ResourceSet" if where == "set" else "schema::Schema", False)
    st = State()
    sty, rty = u.arg_tys()
    v = u.havoc(u.ex, st, sty, "self")
    set_i = None if where == "set" else u.fidx(sty, u.is_path(RESSET), "resources")
    part = (lambda x: x) if set_i is None else (lambda x: u.ex.get1(x, ("f", 0, set_i)))
    m = u.the_map(part(v))
    res = u.sym(rty, "resource")
    tid = bi.typeid(u.ex, rty)
    k = u.const("k", tid.sort())
    key = lambda t: bi.type_key(u.p, m, t)
    # an older cell of the same type, as somebody may hold it
    o = z3.Select(m, key(tid))
    at = None
    before = st.clone()
    for s, r in u.returns(u.call(st, [v, res])):
        m2 = u.the_map(part(r))
        o2 = z3.simplify(z3.Select(m2, key(tid)))
        u.prove("the resource is registered under its own type", s, bi.is_some(o2))
        u.prove("no other type is affected", s.pc + (k != tid,), z3.Select(m2, key(k)) == z3.Select(m, key(k)))
        ptr = bi.unsome(o2)
        hit = [loc for loc, c in s.ptrs if z3.is_true(z3.simplify(c == ptr))]
        if not hit and u.s.check(list(s.pc) + [z3.Not(z3.And(bi.is_some(o), ptr == bi.unsome(o)))])[0] == z3.unsat:
            u.never("the registered cell holds the new value, not what was registered before", s)
            continue
        if not hit:
            raise Unsupported("cell of the resource not recognised")
        loc = hit[0]
        lk = s.heap[loc]
        u.prove("its cell is a new one", s, z3.BoolVal(loc not in before.heap and not any(loc == l for l, _ in before.ptrs)))
        u.prove("its cell is free", s, z3.And(z3.Not(lk.poison) if z3.is_expr(lk.poison) else z3.BoolVal(not lk.poison), z3.BoolVal(lk.r == 0 and not lk.w)))
        x = lk.v.v if isinstance(lk.v, BoxV) else lk.v
        u.prove("its cell holds a value of its type", s, bi.dyn_tid(u.ex, x) == tid)
        if isinstance(x, DynV):
            u.same("its cell holds the given resource", s, x.v, res)
        else:
            u.prove("its cell holds the given resource", s, bi.dyncast(u.ex, x, rty) == res.t)
        same_heap(u, s, before, "no cell handed out before is touched")
        if set_i is not None:
            for q in range(len(u.p.fields(sty))):
                if q != set_i:
                    u.same("the rest of the schema stays as it is", s, u.ex.get1(r, ("f", 0, q)), u.ex.get1(v, ("f", 0, q)))


def res_from(u, how):
    """a resource handle is the cell registered for exactly its type, or none"""
    want = {"set": RESSET, "ctx": CTX}[how]
    P = u.v.prog("plotline")
    r = []
    for root, inst in P.find("from", "resource::Res", "core::convert::From"):
        a = inst["body"]["locals"][1]
        if P.T[a]["k"] == "ref" and P.adt_path(P.T[a]["elem"]) == want:
            r.append((root, inst))
    if len(r) != 1:
        raise Unsupported("anchor lost: Res from %s" % how)
    u.use(P, *r[0])
    st = State()
    aty = u.p.T[u.arg_tys()[0]]["elem"]
    if how == "set":
        v, m = registry(u, st, aty)
        a = st.new(v)
    else:
        C = Ctx(u, aty)
        a, ops, log, base = arb_ctx(u, st, C)
        sl = C.field(st.heap[a], C.i_schema)
        i = u.fidx(C.schema_ty, u.is_path(RESSET), "resources")
        m = u.the_map(u.ex.load(st, (sl.loc, sl.path + (("f", 0, i),))))
    rt = [x for x in u.p.T[u.ret_ty()]["args"] if isinstance(x, int)][0]
    o = z3.Select(m, bi.type_key(u.p, m, bi.typeid(u.ex, rt)))
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(a)])):
        i = inner_option(u, u.ret_ty(), u.is_path(ARC), "shared cell")
        for s2, c in u.cases(s, u.ex.get1(r, ("f", 0, i))):
            if c.v == 0:
                u.prove("a handle without a cell only if none is registered for the type", s2, z3.Not(bi.is_some(o)))
            else:
                u.prove("the handle shares the cell registered for its type", s2, z3.And(bi.is_some(o), u.ex.lower(s2, c.f[0]) == bi.unsome(o)))
        same_heap(u, s, before, "asking changes nothing and holds nothing")


def exists(u):
    u.find("plotline", "exists", "resource::Res", False)
    rt = None
    for some in (True, False):
        st = State()
        hty = u.p.T[u.arg_tys()[0]]["elem"]
        rt = [x for x in u.p.T[hty]["args"] if isinstance(x, int)][0]
        v, loc = holder(u, st, hty, some)
        h = st.new(v)
        before = st.clone()
        for s, r in u.returns(u.call(st, [Ref(h)])):
            if some:
                l = before.heap[loc]
                want = z3.And(z3.Not(l.poison), any_tid(u, s, l.v) == bi.typeid(u.ex, rt))
            else:
                want = z3.BoolVal(False)
            u.prove("a resource exists exactly when its value can be had", s, r.t == want)
            same_heap(u, s, before, "asking changes nothing")


def empty_set(u):
    u.find("plotline", "default", "resource::ResourceSet", "core::default::Default")
    for s, r in u.returns(u.call(State(), [])):
        m = u.the_map(r)
        k = u.const("k", m.sort().domain())
        u.prove("a new registry has no resource", s, z3.Not(bi.is_some(z3.Select(m, k))))


def cell_units(v):
    for who in ("resource::Res", "transaction::Target"):
        n = who.split("::")[1]
        for kind in ("read", "write"):
            v.unit("%s::%s" % (n, kind), acquire, who, kind)
        v.unit("%sReadGuard::try_deref" % n, guard_deref, who + "ReadGuard", "try_deref")
        v.unit("%sWriteGuard::try_deref" % n, guard_deref, who + "WriteGuard", "try_deref")
        v.unit("%sWriteGuard::try_deref_mut" % n, guard_deref, who + "WriteGuard", "try_deref_mut")
