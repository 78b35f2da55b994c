"""Trigger sets, rounds of triggers and what a trigger is given (P12, P13)."""
from common import *

TRIGGER = "plotline::schema::trigger::Trigger"
TSET = "plotline::schema::trigger::TriggerSet"
TSEL = "plotline::schema::trigger::TriggerSelect"


def elems_of_select(u, st, v):
    """the triggers of a selection: (array, length); a selection without a list has none"""
    if u.p.adt_path(v.ty) != TSEL:
        raise Unsupported("selection of triggers not recognised")
    v = u.ex.expand(v, 0)
    fs = [x for x in v.f if not (isinstance(x, Agg) and x.ty is not None and u.p.adt_path(x.ty) == PHANTOM)]
    if len(fs) != 1:
        raise Unsupported("selection of triggers not recognised")
    x = fs[0]
    if isinstance(x, Agg) and u.p.adt_path(x.ty) == OPTION:
        if x.v == 0:
            return None, I(0)
        x = x.f[0]
    w = bi.through(u.ex, st, x)
    arr, n, et = bi.vec_of(u.ex, st, w)
    return arr, n


def dyn_execute_hook(u, st_checks):
    """contract of a registered trigger: any effect, success, failure or panic; counts and orders the runs"""
    def h(ex, st, fn, args, dty, stack):
        if not (fn.get("trait") == TRIGGER and fn["name"] == "execute" and fn.get("k") == "unresolved"):
            return None
        x = bi.through(ex, st, args[0])
        t = ex.lower(st, x)
        st_checks(st, t, args[1])
        et = u.p.T[dty]["args"][1]
        out = []
        for end in ("ok", "err", "panic"):
            s = st.clone()
            s.ghost["ran"] = z3.simplify(s.ghost["ran"] + 1)
            s.ghost["last"] = end
            if end == "err":
                e = u.const("failure", u.p.sort(et))
                s.ghost["error"] = e
                out.append(("ret", s, Agg(dty, 1, (Sym(et, e),))))
            elif end == "ok":
                out.append(("ret", s, Agg(dty, 0, (ex.unit_val(),))))
            else:
                out.append(("panic", s, None))
        return out
    return h


def round_(u):
    """TriggerSelect::execute"""
    u.find("plotline", "execute", "trigger::TriggerSelect", "trigger::Trigger")
    for some in (False, True):
        st = State()
        sty = u.p.T[u.arg_tys()[0]]["elem"]
        fs = u.p.fields(sty)
        T = u.p.T
        is_list = lambda t: T[t]["k"] == "ref" and (T[T[t]["elem"]]["k"] == "slice" or u.p.adt_path(T[t]["elem"]) == VEC)
        i = u.fidx(sty, lambda t: is_list(t) or u.p.adt_path(t) == OPTION and is_list(T[t]["args"][0]), "list of triggers")
        optional = u.p.adt_path(fs[i]) == OPTION
        if not some and not optional:
            continue
        rt = T[fs[i]]["args"][0] if optional else fs[i]
        lst = u.sym(T[rt]["elem"], "triggers")
        arr, n = u.p.vec_arr(lst.t), u.p.vec_len(lst.t)
        st.assume(n >= 0)
        if not some:
            n = I(0)
        f = [Agg(t, 0, ()) for t in fs]
        if optional:
            f[i] = Agg(fs[i], 1, (Ref(st.new(lst)),)) if some else Agg(fs[i], 0, ())
        else:
            f[i] = Ref(st.new(lst))
        sel = st.new(Agg(sty, 0, f))
        ctx = st.new(Opaque(u.p.T[u.arg_tys()[1]]["elem"], "ctx"))
        st.ghost["ran"] = I(0)
        st.ghost["last"] = "ok"

        def checks(s, t, c, arr=arr, n=n, ctx=ctx):
            ran = s.ghost["ran"]
            u.prove("each registered trigger runs once, in order", s, z3.And(ran < n, t == z3.Select(arr, ran)))
            u.prove("no trigger runs after one that failed", s, z3.BoolVal(s.ghost["last"] == "ok"))
            u.same("every trigger is given the context of the round", s, c, Ref(ctx))
        u.hooks[:] = [dyn_execute_hook(u, checks)]
        u.loop_f = lambda ex, s, it: {"cells": [(("ghost", "ran"), lambda i: i), (("ghost", "last"), lambda i: "ok")], "facts": []}
        before = st.clone()
        for k, s, v in u.call(st, [Ref(sel), Ref(ctx)]):
            g = s.ghost
            if k == "abort":
                u.never("no deadlock or abort", s)
                continue
            same_heap(u, s, before, "the selection stays as it is")
            if k == "panic":
                u.prove("no panic of its own", s, z3.BoolVal(g["last"] == "panic"))
                continue
            u.prove("a panic is passed on", s, z3.BoolVal(g["last"] != "panic"))
            for s2, a in u.cases(s, v):
                if a.v == 0:
                    u.prove("success means every trigger ran and succeeded", s2, z3.And(g["ran"] == n, z3.BoolVal(g["last"] == "ok")))
                else:
                    u.prove("a failure is that of the trigger that failed", s2, z3.BoolVal(g["last"] == "err"))
                    if g["last"] == "err":
                        u.prove("that very failure is reported", s2, u.ex.lower(s2, a.f[0]) == g["error"])


def trigger_map(u, st, ty):
    """an arbitrary trigger set: (value, map term)"""
    v = u.havoc(u.ex, st, ty, "set")
    return v, u.the_map(v)


def select(u):
    u.find("plotline", "select", "trigger::TriggerSet", False)
    st = State()
    sty = u.p.T[u.arg_tys()[0]]["elem"]
    v, m = trigger_map(u, st, sty)
    loc = st.new(v)
    ev = u.sym(u.arg_tys()[1], "event")
    tid = bi.typeid(u.ex, u.arg_tys()[1])
    o = z3.Select(m, bi.type_key(u.p, m, tid))
    old = o.sort().accessor(1, 0)(o)
    st.assume(u.p.vec_len(old) >= 0)
    before = st.clone()
    j = u.const("j", z3.IntSort())
    for s, r in u.returns(u.call(st, [Ref(loc), ev])):
        arr, n = elems_of_select(u, s, r)
        want = z3.If(bi.is_some(o), u.p.vec_len(old), I(0))
        u.prove("as many triggers as are registered for the event", s, n == want)
        if arr is not None:
            u.prove("exactly the triggers registered for the event, in order", s.pc + (j >= 0, j < n), z3.Select(arr, j) == z3.Select(u.p.vec_arr(old), j))
        same_heap(u, s, before, "selecting changes nothing")


def no_triggers(u):
    u.find("plotline", "default", "trigger::TriggerSelect", "core::default::Default")
    for s, r in u.returns(u.call(State(), [])):
        u.prove("the default selection has no triggers", s, elems_of_select(u, s, r)[1] == 0)


def empty_set(u):
    u.find("plotline", "default", "trigger::TriggerSet", "core::default::Default")
    for s, r in u.returns(u.call(State(), [])):
        m = u.the_map(r)
        k = u.const("k", m.sort().domain())
        u.prove("a new set has no trigger for any event", s, z3.Not(bi.is_some(z3.Select(m, k))))


def schema_new(u):
    r = [x for x in u.v.prog("plotline").find("from", "schema::Schema", "core::convert::From") if x[0]["insts"][u.v.prog("plotline").root_key(x[0])]["body"]["argc"] == 1]
    r = [x for x in r if u.v.prog("plotline").adt_path(x[1]["body"]["locals"][1]) == GRAPH]
    if len(r) != 1:
        raise Unsupported("anchor lost: Schema from Graph")
    u.use(u.v.prog("plotline"), *r[0])
    st = State()
    g = u.sym(u.arg_tys()[0], "graph")
    for s, r in u.returns(u.call(st, [g])):
        lk = None
        for n, f in enumerate(u.p.fields(u.ret_ty())):
            x = u.ex.get1(r, ("f", 0, n))
            if isinstance(x, LockV):
                lk = x
            else:
                for m in u.maps(x):
                    k = u.const("k", m.sort().domain())
                    u.prove("a new schema has no triggers and no resources", s, z3.Not(bi.is_some(z3.Select(m, k))))
        if lk is None:
            raise Unsupported("graph of the schema not recognised")
        u.prove("a new schema holds the given graph", s, z3.And(u.the_map(lk.v) == u.the_map(g), z3.Not(lk.poison)))


def with_trigger(u, where):
    """registering a trigger: appended to the list of exactly that event; executing it executes the given trigger"""
    if where == "set":
        u.find("plotline", "with_trigger", "trigger::TriggerSet", False)
    else:
        u.find("plotline", "with_trigger", "schema::Schema", False)
    st = State()
    sty, evty, trty = u.arg_tys()
    v = u.havoc(u.ex, st, sty, "self")
    set_i = None
    if where == "schema":
        set_i = u.fidx(sty, u.is_path(TSET), "triggers")
    part = (lambda x: x) if set_i is None else (lambda x: u.ex.get1(x, ("f", 0, set_i)))
    m = u.the_map(part(v))
    trig = u.sym(trty, "trigger")
    tid = bi.typeid(u.ex, evty)
    key = lambda t: bi.type_key(u.p, m, t)
    o = z3.Select(m, key(tid))
    old = o.sort().accessor(1, 0)(o)
    st.assume(u.p.vec_len(old) >= 0)
    n = z3.If(bi.is_some(o), u.p.vec_len(old), I(0))
    j, kk = u.const("j", z3.IntSort()), u.const("k", tid.sort())
    ran = False
    for s, r in u.returns(u.call(st, [v, u.sym(evty, "event"), trig])):
        m2 = u.the_map(part(r))
        o2 = z3.simplify(z3.Select(m2, key(tid)))
        new = z3.simplify(o2.sort().accessor(1, 0)(o2))
        u.prove("the event has triggers afterwards", s, bi.is_some(o2))
        u.prove("one more than before", s, u.p.vec_len(new) == n + 1)
        arr2 = u.p.vec_arr(new)
        u.prove("those registered before stay, in order", s.pc + (j >= 0, j < n), z3.Select(arr2, j) == z3.Select(u.p.vec_arr(old), j))
        u.prove("no other event is affected", s.pc + (kk != tid,), z3.Select(m2, key(kk)) == z3.Select(m, key(kk)))
        if set_i is not None:
            for q in range(len(u.p.fields(sty))):
                if q != set_i:
                    u.same("the rest of the schema stays as it is", s, u.ex.get1(r, ("f", 0, q)), u.ex.get1(v, ("f", 0, q)))
        cands = [d for t, d in ((t, u.dyn_seen.get(t.get_id())) for t in stored(arr2)) if d is not None]
        if not cands:
            raise Unsupported("the registered trigger is not recognised")
        last = z3.Select(arr2, n)
        for d in cands:
            u.prove("the new one comes last", s, last == bi.dyn_term(u.ex, s, d))
            ran = True
            run_registered(u, s, d, trig)
    if not ran:
        raise Unsupported("nothing registered")


def stored(arr):
    """values stored into an array term"""
    out, todo, seen = [], [arr], set()
    while todo:
        a = todo.pop()
        if a.get_id() in seen or not z3.is_app(a):
            continue
        seen.add(a.get_id())
        if a.decl().kind() == z3.Z3_OP_STORE:
            out.append(a.arg(2))
            todo.append(a.arg(0))
        elif a.decl().kind() == z3.Z3_OP_ITE:
            todo += [a.arg(1), a.arg(2)]
        else:
            todo += [x for x in a.children()]
    return out


def run_registered(u, s, d, trig):
    """executing the stored trigger executes the given one once, on the same context, and reports its result"""
    fn = d.methods.get("execute")
    if not fn or fn.get("key") not in u.ex.insts:
        raise Unsupported("method of the stored trigger not recognised")
    body = u.ex.insts[fn["key"]]["body"]
    st = s.clone()
    loc = st.new(d.v)
    ctx = st.new(Opaque(u.p.T[body["locals"][2]]["elem"], "ctx"))

    def h(ex, s1, f, args, dty, stack):
        if f.get("trait") == TRIGGER and f["name"] == "execute" and f.get("k") == "unresolved":
            s1.ghost["inner"] = s1.ghost.get("inner", 0) + 1
            x = bi.through(ex, s1, args[0])
            u.prove("the given trigger is the one executed", s1, ex.lower(s1, x) == trig.t)
            u.same("on the same context", s1, args[1], Ref(ctx))
            res = u.const("result", u.p.sort(dty))
            s1.ghost["res"] = res
            s2 = s1.clone()
            return [("ret", s1, Sym(dty, res)), ("panic", s2, None)]
        return None
    u.hooks.append(h)
    for k, s2, v in u.ex.run_fn(st, fn["key"], [Ref(loc), Ref(ctx)], ()):
        u.prove("it is executed exactly once", s2, z3.BoolVal(s2.ghost.get("inner") == 1))
        if k == "ret":
            u.prove("its result is reported", s2, u.ex.lower(s2, v) == s2.ghost["res"])
    u.hooks.remove(h)


# ------------------------------------------------------------------------------------------------ arguments

def signatures(u_prog):
    """the implementations of Trigger for callables: [(number of arguments, root, inst)]"""
    out = []
    for r, i in u_prog.find("execute", None, "trigger::Trigger"):
        t = u_prog.T[i["self_ty"]] if i["self_ty"] is not None else None
        if t is not None and t["k"] == "param":
            args = [a for a in i["args"] if isinstance(a, int)]
            out.append((len(args) - 2, r, i))
    return sorted(out, key=lambda x: x[0])


def as_trigger(u, n, root, inst):
    u.use(u.v.prog("plotline"), root, inst)
    st = State()
    fty = u.p.T[u.arg_tys()[0]]["elem"]
    f = u.sym(fty, "callable")
    floc = st.new(f)
    ctx = st.new(Opaque(u.p.T[u.arg_tys()[1]]["elem"], "ctx"))
    params = [a for a in inst["args"] if isinstance(a, int)][2:]

    def h(ex, s, fn, args, dty, stack):
        if fn.get("k") == "unresolved" and fn.get("trait") == "core::convert::From" and fn["name"] == "from":
            x = u.const("argument", u.p.sort(dty))
            s2 = s.clone()
            s.event("from", dty, args[0], x)
            s2.event("from-panic", dty, args[0])
            return [("ret", s, Sym(dty, x)), ("panic", s2, None)]
        return None
    u.hooks.append(h)

    def fx(ex, s, g, args, dty, stack):
        s.ghost["calls"] = s.ghost.get("calls", 0) + 1
        s.ghost["args"] = args
        s.ghost["callee"] = g
        res = u.const("result", u.p.sort(dty))
        s.ghost["res"] = res
        s2 = s.clone()
        s2.ghost["end"] = "panic"
        return [("ret", s, Sym(dty, res)), ("panic", s2, None)]
    u.user_fx = fx
    for k, s, v in u.call(st, [Ref(floc), Ref(ctx)]):
        froms = [e for e in s.trace if e[0] == "from"]
        if k == "abort":
            u.never("no abort", s)
            continue
        for e in s.trace:
            if e[0].startswith("from"):
                u.same("arguments are taken from the context given", s, e[2], Ref(ctx))
        taken = [e[1] for e in s.trace if e[0].startswith("from")]
        u.prove("arguments are taken in the order of the parameters", s, z3.BoolVal(taken == params[:len(taken)]))
        if any(e[0] == "from-panic" for e in s.trace):
            u.prove("a panic is passed on", s, z3.BoolVal(k == "panic" and "calls" not in s.ghost))
            continue
        u.prove("the callable is called exactly once", s, z3.BoolVal(s.ghost.get("calls") == 1))
        if s.ghost.get("calls") != 1:
            continue
        a = s.ghost["args"]
        ok = len(a) == n + 1 and len(froms) == n
        u.prove("it is given a handle and every argument once", s, z3.BoolVal(ok))
        if not ok:
            continue
        g = bi.through(u.ex, s, s.ghost["callee"])
        u.same("it is the callable itself", s, g, f)
        hd = a[0]
        if not isinstance(hd, Agg):
            raise Unsupported("trigger handle not recognised")
        u.same("the handle is one to the very context given", s, hd.f[0], Ref(ctx))
        for q in range(n):
            u.prove("each parameter gets its own argument", s, u.ex.lower(s, a[q + 1]) == froms[q][3])
        if k == "ret":
            u.prove("its result is reported", s, u.ex.lower(s, v) == s.ghost["res"])
            u.prove("a panic is passed on", s, z3.BoolVal(s.ghost.get("end") != "panic"))
        else:
            u.prove("no panic of its own", s, z3.BoolVal(s.ghost.get("end") == "panic"))


def all_signatures(v):
    sigs = signatures(v.prog("plotline"))
    for n, r, i in sigs:
        v.unit("Trigger for callables of %d arguments" % n, as_trigger, n, r, i)

    def have(u):
        u.p = v.prog("plotline")
        u.prove("callables of 0 to 8 arguments are triggers", [], z3.BoolVal([n for n, _, _ in sigs] == list(range(9))))
    v.unit("trigger signatures", have)


def handle_from(u):
    u.find("plotline", "from", "transaction::Ctx", "core::convert::From")
    st = State()
    ctx = st.new(Opaque(u.p.T[u.arg_tys()[0]]["elem"], "ctx"))
    for s, r in u.returns(u.call(st, [Ref(ctx)])):
        u.same("the handle is one to the very context given", s, u.ex.get1(r, ("f", 0, 0)), Ref(ctx))


def target_from(u, how):
    """the target offered to triggers is the context's own cell, or none"""
    if how == "from":
        u.find("plotline", "from", "transaction::Target", "core::convert::From")
    else:
        u.find("plotline", "target", "transaction::Context", False)
    for some in (True, False):
        st = State()
        C = Ctx(u, u.p.T[u.arg_tys()[0]]["elem"])
        schema = C.arb_schema(st)
        gl = st.new(u.havoc(u.ex, st, C.graph_ty, "graph"))
        ops = C.fresh_ops(st)
        tgt, tl = C.some_target(st) if some else (C.no_target(), None)
        if some:
            st.arcs[tl] = u.const("count", z3.IntSort())
            st.assume(st.arcs[tl] >= 1)
        ctx = st.new(C.make(st, Ref(schema), Ref(gl), C.abstract(st, "parent", schema, gl), ops, tgt))
        before = st.clone()
        for s, r in u.returns(u.call(st, [Ref(ctx)])):
            u.same("the target is the context's own cell" if some else "a context without a target offers none", s,
                   bi.through(u.ex, s, r), tgt)
            if some and how == "from":
                u.prove("the handle keeps the cell alive", s, s.arcs[tl] == before.arcs[tl] + 1)
                s.arcs[tl] = before.arcs[tl]
            same_heap(u, s, before, "nothing changes and no lock is held")


def with_target(u):
    u.find("plotline", "with_target", "transaction::Context", False)
    for some in (False, True):
        st = State()
        C = Ctx(u, u.ret_ty())
        ctx, ops, log, base = arb_ctx(u, st, C, target="some" if some else None)
        v = st.heap[ctx]
        node = u.sym(u.arg_tys()[1], "node")
        before = st.clone()
        for s, r in u.returns(u.call(st, [v, node])):
            o = u.ex.get1(C.field(r, C.i_target), ("f", 0, 0))
            if not (isinstance(o, Agg) and o.v == 1 and isinstance(o.f[0], ArcV)):
                u.prove("the context offers a target", s, z3.BoolVal(False))
                continue
            lk = s.heap[o.f[0].loc]
            u.prove("the target is a cell of its own", s, z3.BoolVal(o.f[0].loc not in before.heap and conc(s.arcs[o.f[0].loc]) == 1))
            u.prove("the cell is free and holds the node", s, z3.And(lk.v.t == node.t, z3.Not(lk.poison), z3.BoolVal(lk.r == 0 and not lk.w)))
            for i in (C.i_graph, C.i_schema, C.i_parent, C.i_ops):
                u.same("the context is otherwise the same", s, C.field(r, i), C.field(v, i))
            same_heap(u, s, before, "nothing else changes")


def of_schema(u, name):
    """Context::triggers / resources are the schema's own"""
    u.find("plotline", name, "transaction::Context", False)
    st = State()
    C = Ctx(u, u.p.T[u.arg_tys()[0]]["elem"])
    ctx, ops, log, base = arb_ctx(u, st, C)
    sloc = C.field(st.heap[ctx], C.i_schema)
    want = u.p.T[u.ret_ty()]["elem"]
    i = u.fidx(C.schema_ty, lambda f: u.p.T[f]["s"] == u.p.T[want]["s"], name)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(ctx)])):
        u.same("they are the schema's own", s, r, Ref(sloc.loc, sloc.path + (("f", 0, i),)))
        same_heap(u, s, before, "nothing changes")
