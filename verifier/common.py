"""Contracts shared by several properties: the operation log of a context and what it means."""
import z3
from unit import *

CTX = "plotline::schema::transaction::Context"
GRAPH = "plotline::graph::Graph"
SCHEMA = "plotline::schema::Schema"
BG = "plotline::schema::transaction::Background"
FG = "plotline::schema::transaction::Foreground"
TARGET = "plotline::schema::transaction::Target"
TX = "plotline::schema::transaction::Transaction"
SOURCE = "plotline::graph::proxy::Source"


def log_wrapper(p, w):
    """(struct type, field) if w is a struct around a vector and nothing else"""
    if p.T[w]["k"] != "adt" or p.is_enum(w) or w not in p.adts or p.adt_path(w).split("::")[0] in ("core", "alloc", "std"):
        return None
    fs = [(n, f) for n, f in enumerate(p.fields(w)) if p.adt_path(f) != PHANTOM]
    return (w, fs[0][0]) if len(fs) == 1 and p.adt_path(fs[0][1]) == VEC else None


def log_vec(u, v):
    """the vector of a log value"""
    w = log_wrapper(u.p, v.ty)
    return v if w is None else u.ex.get1(v, ("f", 0, w[1]))


class Log:
    """The meaning of an operation log.

    APPLY(a, k, B) is the map B after the first k operations of the sequence a: a save stores its node under the
    node's id, a delete removes its id. Unfolded explicitly (one step per term, never below a position that is
    written as something minus a constant)."""

    def __init__(self, u, vec_ty, wrapper=None):
        self.u, p = u, u.p
        self.vec_ty = vec_ty
        self.wrapper = wrapper      # (struct type, field) when the vector is wrapped in a struct of its own
        self.op_ty = p.T[vec_ty]["args"][0]
        t = p.T[self.op_ty]
        if not p.is_enum(self.op_ty):
            raise Unsupported("operation type not recognised")
        self.save = self.delete = None
        for n, v in enumerate(p.adts[self.op_ty]["variants"]):
            if len(v["fields"]) != 1:
                raise Unsupported("operation variant not recognised")
            ft = v["fields"][0][1]
            if p.unbox(ft) == t["args"][0]:
                self.save = n
                self.node_ty = p.unbox(ft)
            else:
                self.delete = n
                self.id_ty = ft
        if self.save is None or self.delete is None or len(p.adts[self.op_ty]["variants"]) != 2:
            raise Unsupported("operations are not save and delete")
        self.op = p.sort(self.op_ty)
        self.node, self.id = p.sort(self.node_ty), p.sort(self.id_ty)
        self.opt = p.optsort(self.node)
        self.map = z3.ArraySort(self.id, self.opt)
        self.arr = z3.ArraySort(z3.IntSort(), self.op)
        self.F = z3.Function("APPLY", self.arr, z3.IntSort(), self.map, self.map)
        self.idof = z3.Function("idof<%s>" % self.node, self.node, self.id)
        u.s.axioms.append(self.unfold)

    def vec(self, v):
        """the vector of a log value"""
        return log_vec(self.u, v)

    def wrap(self, vec):
        """the log value of a vector"""
        if self.wrapper is None:
            return vec
        ty, at = self.wrapper
        return Agg(ty, 0, tuple(vec if n == at else Agg(f, 0, ()) for n, f in enumerate(self.u.p.fields(ty))))

    def is_save(self, op):
        return self.op.recognizer(self.save)(op)

    def op_id(self, op):
        return z3.If(self.is_save(op), self.idof(self.op.accessor(self.save, 0)(op)), self.op.accessor(self.delete, 0)(op))

    def op_val(self, op):
        return z3.If(self.is_save(op), self.opt.constructor(1)(self.op.accessor(self.save, 0)(op)), self.opt.constructor(0)())

    def mk_save(self, node):
        return self.op.constructor(self.save)(node)

    def mk_delete(self, i):
        return self.op.constructor(self.delete)(i)

    def step(self, m, op):
        return z3.Store(m, self.op_id(op), self.op_val(op))

    def apply(self, v, base):
        """meaning of a whole log value (Sym of the vector type, or the struct around it)"""
        p = self.u.p
        v = self.vec(v)
        return self.F(p.vec_arr(v.t), p.vec_len(v.t), base)

    def unfold(self, t):
        if not (z3.is_app(t) and t.decl().name() == "APPLY"):
            return
        a, k, b = t.children()
        k = z3.simplify(k)
        yield z3.Implies(k <= 0, t == b)
        if z3.is_int_value(k) and k.as_long() <= 0:
            return
        # a log extended at the end agrees with the log on the part before (lemma "prefix")
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            a0, i, _ = a.children()
            yield z3.Implies(k <= i, t == self.F(a0, k, b))
        for c, v, w in self.u.concats:
            p = self.u.p
            if z3.simplify(p.vec_arr(c)).eq(a):
                n, m = p.vec_len(v), p.vec_len(w)
                # lemma "concatenation"
                yield z3.Implies(z3.And(k == n + m, n >= 0, m >= 0), t == self.F(p.vec_arr(w), m, self.F(p.vec_arr(v), n, b)))
        if z3.is_add(k) and any(z3.is_int_value(x) and x.as_long() < 0 for x in k.children()):
            return
        j = z3.simplify(k - 1)
        yield z3.Implies(k > 0, t == self.step(self.F(a, j, b), z3.Select(a, j)))


def log_lemmas(v, crate="plotline"):
    """prefix and concatenation lemmas about APPLY, by induction, as obligations of their own"""
    def lemma(u):
        u.find(crate, "get", CTX, SOURCE)
        vt = [i for i, t in enumerate(u.p.T) if t["k"] == "adt" and t["path"] == VEC and u.p.T[t["args"][0]]["k"] == "adt"
              and u.p.is_enum(t["args"][0]) and [u.p.unbox(f[1]) for x in u.p.adts[t["args"][0]]["variants"] for f in x["fields"]][:1]
              == u.p.T[t["args"][0]]["args"][:1]]
        if len(vt) < 1:
            raise Unsupported("operation log not recognised")
        L = Log(u, vt[0])
        a, b = u.const("a", L.arr), u.const("b", L.arr)
        k, n, m = (u.const(x, z3.IntSort()) for x in "knm")
        B = u.const("B", L.map)
        F = L.F
        st = State()
        # prefix: logs that agree below k mean the same at k
        j = z3.Int("j")
        u.prove("prefix, base", [k <= 0], F(a, k, B) == F(b, k, B))
        u.prove("prefix, step", [k >= 0, F(a, k, B) == F(b, k, B), z3.Select(a, k) == z3.Select(b, k)],
                F(a, k + 1, B) == F(b, k + 1, B))
        # concatenation: c agrees with a below n and with b shifted by n above
        c = u.const("c", L.arr)
        u.prove("concatenation, base", [n >= 0, F(c, n, B) == F(a, n, B)], F(c, n + 0, B) == F(b, I(0), F(a, n, B)))
        u.prove("concatenation, step", [n >= 0, m >= 0, F(c, n + m, B) == F(b, m, F(a, n, B)), z3.Select(c, n + m) == z3.Select(b, m)],
                F(c, n + m + 1, B) == F(b, m + 1, F(a, n, B)))
    v.unit("lemma operation log", lemma)


class Ctx:
    """A context as the code represents it, recognised by the types of its fields."""

    def __init__(self, u, ty):
        self.u, p = u, u.p
        self.ty = ty
        if p.adt_path(ty) != CTX:
            raise Unsupported("context type expected")
        fs = p.fields(ty)
        T = p.T
        isref = lambda path: (lambda f: T[f]["k"] == "ref" and p.adt_path(T[f]["elem"]) == path)
        self.i_graph = u.fidx(ty, isref(GRAPH), "graph")
        self.i_schema = u.fidx(ty, isref(SCHEMA), "schema")
        self.i_parent = u.fidx(ty, lambda f: p.adt_path(f) == OPTION and T[T[f]["args"][0]]["k"] == "ref" and p.adt_path(T[T[f]["args"][0]]["elem"]) == CTX, "parent")
        self.i_ops = u.fidx(ty, lambda f: p.adt_path(f) == ARC and p.adt_path(T[f]["args"][0]) == LOCK, "operations")
        self.i_target = u.fidx(ty, u.is_path(TARGET), "target")
        self.lock_ty = T[fs[self.i_ops]]["args"][0]
        self.vec_ty = T[self.lock_ty]["args"][0]
        wrapper = log_wrapper(p, self.vec_ty)
        if wrapper is not None:
            self.vec_ty = p.fields(wrapper[0])[wrapper[1]]
        if p.adt_path(self.vec_ty) != VEC:
            raise Unsupported("operation log is not a vector")
        self.log = Log(u, self.vec_ty, wrapper)
        self.graph_ty = T[fs[self.i_graph]]["elem"]
        self.schema_ty = T[fs[self.i_schema]]["elem"]
        self.reads = {}        # location of a context -> meaning (map term), for contexts known by contract only

    def arb_log(self, st, name="ops"):
        p = self.u.p
        c = p.fresh(name, p.sort(self.vec_ty))
        self.u.sized = True
        if self.u.small is not None:
            return Sym(self.vec_ty, p.vec_mk(p.vec_arr(c), I(self.u.small)))
        st.assume(p.vec_len(c) >= 0)
        return Sym(self.vec_ty, c)

    def arb_schema(self, st, name="schema"):
        """a schema on the heap, its graph lock free; returns its location"""
        return st.new(self.u.havoc(self.u.ex, st, self.schema_ty, name))

    def abstract(self, st, name="ctx", schema=None, graph=None):
        """an arbitrary context over a schema and a graph (locations). What it means is its own log over what encloses
        it; that is the graph for an outermost context, or another context about which only its meaning is known"""
        u, p = self.u, self.u.p
        fs = p.fields(self.ty)
        log = self.arb_log(st)
        n = u.const("shares", z3.IntSort())
        st.assume(n >= 1)
        outer = st.new(Opaque(self.ty, "enclosing " + name))
        self.reads[outer] = u.const("READ", self.log.map)
        nested, aimed = u.const("nested", z3.IntSort()), u.const("aimed", z3.IntSort())
        st.assume(nested >= 0, nested <= 1, aimed >= 0, aimed <= 1)
        tgt, _ = self.some_target(st)
        to = p.fields(tgt.ty)[0]
        tgt = Agg(tgt.ty, 0, (Alt(to, aimed, {0: Agg(to, 0, ()), 1: tgt.f[0]}),))
        v = self.make(st, Ref(schema), Ref(graph), outer, self.fresh_ops(st, log, count=n), tgt)
        f = list(v.f)
        pt = fs[self.i_parent]
        f[self.i_parent] = Alt(pt, nested, {0: Agg(pt, 0, ()), 1: Agg(pt, 1, (Ref(outer),))})
        loc = st.new(Agg(self.ty, 0, f))
        g = u.the_map(st.heap[graph])
        self.reads[loc] = self.log.apply(log, z3.If(nested == 1, self.reads[outer], g))
        return loc

    def make(self, st, schema, graph, parent, ops_loc, target=None):
        """context value; parent: location or None"""
        p, T = self.u.p, self.u.p.T
        fs = p.fields(self.ty)
        f = [None] * len(fs)
        f[self.i_graph] = graph
        f[self.i_schema] = schema
        f[self.i_parent] = Agg(fs[self.i_parent], 0, ()) if parent is None else Agg(fs[self.i_parent], 1, (Ref(parent),))
        f[self.i_ops] = ArcV(fs[self.i_ops], ops_loc)
        f[self.i_target] = target if target is not None else self.no_target()
        if None in f:
            raise Unsupported("context has fields the contract does not know")
        return Agg(self.ty, 0, f)

    def target_ty(self):
        return self.u.p.fields(self.ty)[self.i_target]

    def no_target(self):
        tt = self.target_ty()
        fs = self.u.p.fields(tt)
        if len(fs) != 1 or self.u.p.adt_path(fs[0]) != OPTION:
            raise Unsupported("target not recognised")
        return Agg(tt, 0, (Agg(fs[0], 0, ()),))

    def some_target(self, st, node=None, poison=None):
        """(target value, location of the lock)"""
        u, p = self.u, self.u.p
        tt = self.target_ty()
        fs = p.fields(tt)
        if len(fs) != 1 or p.adt_path(fs[0]) != OPTION:
            raise Unsupported("target not recognised")
        at = p.T[fs[0]]["args"][0]
        if p.adt_path(at) != ARC or p.adt_path(p.T[at]["args"][0]) != LOCK:
            raise Unsupported("target not recognised")
        node = node or u.sym(p.T[p.T[at]["args"][0]]["args"][0], "target")
        loc = st.new(LockV(node, u.const("poison", z3.BoolSort()) if poison is None else poison))
        return Agg(tt, 0, (Agg(fs[0], 1, (ArcV(at, loc),)),)), loc

    def fresh_ops(self, st, log=None, poison=None, count=1, readers=0):
        """operation log behind its lock; returns the location"""
        loc = st.new(LockV(self.log.wrap(log or bi.empty_vec(self.u.ex, st, self.vec_ty)),
                           z3.BoolVal(False) if poison is None else poison, readers, False))
        st.arcs[loc] = count
        return loc

    # fields of a context value
    def ops_loc(self, v):
        a = self.u.ex.get1(v, ("f", 0, self.i_ops))
        if not isinstance(a, ArcV):
            raise Unsupported("operation log not recognised")
        return a.loc

    def field(self, v, i):
        return self.u.ex.get1(v, ("f", 0, i))

    def graph_map(self, st, v):
        """meaning of the graph a context refers to"""
        g = self.field(v, self.i_graph)
        return self.u.the_map(bi.through(self.u.ex, st, g))

    def schema_graph(self, st, loc):
        """(address of the graph lock in a schema)"""
        v = st.heap[loc]
        for n, f in enumerate(self.u.p.fields(self.schema_ty)):
            if self.u.p.adt_path(f) == LOCK:
                return (loc, (("f", 0, n),))
        raise Unsupported("graph of the schema not recognised")

    def read_hook(self, ex, st, fn, args, dty, stack):
        """contract of Context::get and Context::contains for contexts known by their meaning"""
        if fn.get("trait") == SOURCE and fn["name"] in ("get", "contains") and isinstance(args[0], Ref):
            a = args[0]
            if a.path or a.loc not in self.reads:
                return None
            o = z3.Select(self.reads[a.loc], bi.key_of(ex, st, args[1]))
            if fn["name"] == "contains":
                return [("ret", st, ex.mk_bool(bi.is_some(o)))]
            return [("ret", st, Sym(dty, o))]
        return None


def find_ty(u, path):
    """the type of the context (or other type) in terms of the parameters of the current root"""
    for t in u.arg_tys() + [u.ret_ty()]:
        while u.p.T[t]["k"] in ("ref", "ptr"):
            t = u.p.T[t]["elem"]
        if u.p.adt_path(t) == path:
            return t
    raise Unsupported("type %s not in the signature" % path)


# ------------------------------------------------------------------------------------------------ Context::get / contains

def ctx_read(u, name, nested):
    """Context::get / contains against the meaning of the log, over the parent's or the graph's"""
    u.find("plotline", name, CTX, SOURCE)
    st = State()
    ct = find_ty(u, CTX)
    C = Ctx(u, ct)
    p = u.p
    schema = C.arb_schema(st)
    gl = st.new(u.havoc(u.ex, st, C.graph_ty, "graph"))
    log = C.arb_log(st)
    poison = u.const("poison", z3.BoolSort())
    ops = C.fresh_ops(st, log, poison, u.const("count", z3.IntSort()))
    parent = C.abstract(st, "parent", schema, gl) if nested else None
    tgt, _ = C.some_target(st)
    ctx = st.new(C.make(st, Ref(schema), Ref(gl), parent, ops, tgt))
    base = C.reads[parent] if nested else u.the_map(st.heap[gl])
    u.hooks.append(C.read_hook)
    L = C.log
    idv = u.sym(L.id_ty, "id")
    n = p.vec_len(log.t)
    arr = p.vec_arr(log.t)
    A = lambda k: L.F(arr, k, base)
    u.loop_f = last_match_inv(u, L, log, base, idv.t)
    before = st.clone()
    want = z3.Select(A(n), idv.t)
    for s, r in u.returns(u.call(st, [Ref(ctx), Ref(st.new(idv))])):
        if name == "get":
            got = u.opt_term(s, r, L.node)
            u.prove("a lookup reads the log over what encloses it", s, got == want)
        else:
            u.prove("presence is what a lookup would find", s, r.t == bi.is_some(want))
        same_heap(u, s, before, "the context, its log and the graph are unchanged")


def last_match_inv(u, L, log, base, idt):
    """search of a log from its end: what was passed over does not mention the id"""
    p = u.p
    arr, n = p.vec_arr(log.t), p.vec_len(log.t)

    def inv(ex, st, it):
        b = bi.it_base(it)
        if b.kind != "seq" or b.p["mode"] not in ("ref", "val", "range"):
            return None
        back, i = False, it
        while i.kind != "seq":
            if i.kind == "rev":
                back = not back
            i = i.p.get("it")
            if i is None:
                return None
        if not back:
            return None
        return {"cells": [], "facts": [("operations passed over do not touch the id",
                                        lambda s, i: z3.Select(L.F(arr, n, base), idt) == z3.Select(L.F(arr, n - i, base), idt))]}
    return inv


def same_heap(u, st, before, name, skip=()):
    """everything that existed before has the same value now; locks as free as before"""
    cs = []
    for loc, v in before.heap.items():
        if loc in skip:
            continue
        e = u.ex.eq_term(st, st.heap.get(loc, UNINIT), v)
        if e is None:
            if not u.s.feasible(st.pc):
                return
            u.s.fail(name, "%r was %r" % (st.heap.get(loc), v))
            return
        cs.append(e)
    for loc, n in before.arcs.items():
        a, b = st.arcs[loc], n
        cs.append((a if z3.is_expr(a) else I(a)) == (b if z3.is_expr(b) else I(b)))
    u.prove(name, st, z3.And(*cs))


def ctx_write(u, name):
    """Context::save / delete append exactly one operation to the context's own log"""
    u.find("plotline", name, CTX, False)
    st = State()
    C = Ctx(u, find_ty(u, CTX))
    p = u.p
    schema = C.arb_schema(st)
    gl = st.new(u.havoc(u.ex, st, C.graph_ty, "graph"))
    log = C.arb_log(st)
    ops = C.fresh_ops(st, log, u.const("poison", z3.BoolSort()), u.const("count", z3.IntSort()))
    parent = C.abstract(st, "parent", schema, gl)
    tgt, _ = C.some_target(st)
    ctx = st.new(C.make(st, Ref(schema), Ref(gl), parent, ops, tgt))
    L = C.log
    x = u.sym(L.node_ty if name == "save" else L.id_ty, "x")
    base = u.const("base", L.map)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(ctx), x])):
        lk = s.heap[ops]
        new = lk.v
        old = L.apply(log, base)
        if name == "save":
            want = z3.Store(old, L.idof(x.t), L.opt.constructor(1)(x.t))
        else:
            want = z3.Store(old, x.t, L.opt.constructor(0)())
        u.prove("the context reads as before, updated by this operation", s, L.apply(new, base) == want)
        u.s.ok("lock released") if not lk.w and lk.r == 0 else u.never("lock released", s)
        s.heap[ops] = LockV(L.wrap(log), lk.poison, lk.r, lk.w)
        same_heap(u, s, before, "nothing else changes")


# ------------------------------------------------------------------------------------------------ transactions

def once_field(u, ty):
    return u.fidx(ty, u.is_path(ONCE), "guard")


class Tx:
    """Background and Foreground as the code represents them"""

    def __init__(self, u, ty):
        self.u, p = u, u.p
        self.ty = ty
        T = p.T
        self.bg = p.adt_path(ty) == BG
        fs = p.fields(ty)
        isref = lambda path: (lambda f: T[f]["k"] == "ref" and p.adt_path(T[f]["elem"]) == path)
        self.i_ops = u.fidx(ty, lambda f: p.adt_path(f) == ARC and p.adt_path(T[f]["args"][0]) == LOCK, "operations")
        self.ops_ty = fs[self.i_ops]
        if self.bg:
            self.i_up = u.fidx(ty, isref(SCHEMA), "schema")
            self.i_guard = once_field(u, ty)
            n = 3
        else:
            self.i_up = u.fidx(ty, isref(CTX), "context")
            self.i_guard = None
            n = 2
        if len(fs) != n:
            raise Unsupported("transaction has fields the contract does not know")
        self.up_ty = T[fs[self.i_up]]["elem"]

    def make(self, st, up, ops_loc):
        f = [None] * len(self.u.p.fields(self.ty))
        f[self.i_up] = up
        f[self.i_ops] = ArcV(self.ops_ty, ops_loc)
        if self.bg:
            f[self.i_guard] = OnceV(False, None)
        return Agg(self.ty, 0, f)


def is_fresh_tx(u, s, tx, v, up, name):
    """v is a transaction over `up` which has done nothing yet"""
    ops = u.ex.get1(v, ("f", 0, tx.i_ops))
    ok = isinstance(ops, ArcV) and s.arcs.get(ops.loc) is not None
    if ok and conc(s.arcs[ops.loc]) != 1:
        n = s.arcs[ops.loc]
        if not u.prove(name + ": its log is its own", s, n == 1 if z3.is_expr(n) else z3.BoolVal(False)):
            return
    if ok:
        lk = s.heap[ops.loc]
        ok = isinstance(lk, LockV) and lk.r == 0 and not lk.w
    if not ok and (isinstance(ops, Sym) or isinstance(ops, ArcV) and s.arcs.get(ops.loc) is None):
        # a shared log that was there before
        u.prove(name + ": its log is its own", s, z3.BoolVal(False))
        return
    if not ok:
        raise Unsupported("transaction not recognised")
    u.prove(name + ": its log is its own, empty and not poisoned", s,
            z3.And(u.p.vec_len(log_vec(u, lk.v).t) == 0, z3.Not(lk.poison)))
    u.same(name + ": it belongs to what it was opened on", s, u.ex.get1(v, ("f", 0, tx.i_up)), up)
    if tx.bg:
        g = u.ex.get1(v, ("f", 0, tx.i_guard))
        u.prove(name + ": it holds no lock yet", s, z3.BoolVal(isinstance(g, OnceV) and g.init is False))


def bg_from_schema(u, how="from"):
    """opening a top-level transaction"""
    if how == "from":
        u.find("plotline", "from", "transaction::Background", "core::convert::From")
    else:
        u.find("plotline", "transaction", "schema::Schema", False)
    st = State()
    tx = Tx(u, u.ret_ty())
    loc = st.new(u.havoc(u.ex, st, tx.up_ty, "schema"))
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(loc)])):
        is_fresh_tx(u, s, tx, r, Ref(loc), "opening")
        same_heap(u, s, before, "opening changes nothing and takes no lock")


def fg_from_ctx(u, how="from"):
    """opening a nested transaction on a context or a trigger's handle"""
    if how == "from":
        u.find("plotline", "from", "transaction::Foreground", "core::convert::From")
    elif how == "ctx":
        u.find("plotline", "transaction", "transaction::Context", False)
    else:
        u.find("plotline", "transaction", "transaction::Ctx", False)
    st = State()
    tx = Tx(u, u.ret_ty())
    C = Ctx(u, tx.up_ty)
    ctx, ops, _, _ = arb_ctx(u, st, C)
    arg = Ref(ctx)
    if how == "handle":
        ht = u.p.T[u.arg_tys()[0]]["elem"]
        arg = Ref(st.new(Agg(ht, 0, handle_fields(u, ht, Ref(ctx)))))
    before = st.clone()
    for s, r in u.returns(u.call(st, [arg])):
        is_fresh_tx(u, s, tx, r, Ref(ctx), "opening")
        u.prove("opening: the log is not the enclosing context's", s, z3.BoolVal(u.ex.get1(r, ("f", 0, tx.i_ops)).loc != ops))
        same_heap(u, s, before, "opening changes nothing and takes no lock")


def handle_fields(u, ht, ref):
    fs = u.p.fields(ht)
    if len(fs) != 1 or u.p.T[fs[0]]["k"] != "ref":
        raise Unsupported("trigger handle not recognised")
    return [ref]


def arb_ctx(u, st, C, nested=True, poison=None, target="some"):
    """an arbitrary context on the heap: (location, location of its log, log, meaning of what encloses it)"""
    schema = C.arb_schema(st)
    gl = st.new(u.havoc(u.ex, st, C.graph_ty, "graph"))
    log = C.arb_log(st)
    cnt = u.const("count", z3.IntSort())
    st.assume(cnt >= 2)
    ops = C.fresh_ops(st, log, u.const("poison", z3.BoolSort()) if poison is None else poison, cnt)
    parent = C.abstract(st, "parent", schema, gl) if nested else None
    tgt = C.some_target(st)[0] if target == "some" else None
    ctx = st.new(C.make(st, Ref(schema), Ref(gl), parent, ops, tgt))
    if C.read_hook not in u.hooks:
        u.hooks.append(C.read_hook)
    return ctx, ops, log, (C.reads[parent] if nested else u.the_map(st.heap[gl]))


def ctx_from_bg(u):
    """the context of a top-level transaction"""
    r = [x for x in u.v.prog("plotline").find("from", "transaction::Context", "core::convert::From") if "Background" in x[1]["path"]]
    if len(r) != 1:
        raise Unsupported("anchor lost: Context from Background")
    u.use(u.v.prog("plotline"), *r[0])
    st = State()
    C = Ctx(u, u.ret_ty())
    tx = Tx(u, u.p.T[u.arg_tys()[0]]["elem"])
    schema = C.arb_schema(st)
    gaddr = C.schema_graph(st, schema)
    lock0 = u.ex.load(st, gaddr)
    G0 = u.the_map(lock0.v)
    ops = C.fresh_ops(st)
    txl = st.new(tx.make(st, Ref(schema), ops))
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(txl)])):
        lk = u.ex.load(s, gaddr)
        u.prove("the graph is locked for writing for as long as the transaction lives", s, z3.BoolVal(bool(lk.w and lk.r == 0)))
        u.prove("the graph is the schema's", s, C.graph_map(s, r) == G0)
        u.prove("the context shares the transaction's log", s, z3.BoolVal(C.ops_loc(r) == ops and conc(s.arcs[ops]) == 2))
        u.prove("there is no enclosing context", s, z3.BoolVal(C.field(r, C.i_parent).v == 0))
        u.same("the schema is the transaction's", s, C.field(r, C.i_schema), Ref(schema))
        u.same("no target is offered", s, C.field(r, C.i_target), C.no_target())
        u.same("graph and log are unchanged", s, lk.v, lock0.v)
        u.same("graph and log are unchanged", s, s.heap[ops], before.heap[ops])


def ctx_from_fg(u):
    """the context of a nested transaction"""
    r = [x for x in u.v.prog("plotline").find("from", "transaction::Context", "core::convert::From") if "Foreground" in x[1]["path"]]
    if len(r) != 1:
        raise Unsupported("anchor lost: Context from Foreground")
    u.use(u.v.prog("plotline"), *r[0])
    st = State()
    C = Ctx(u, u.ret_ty())
    tx = Tx(u, u.p.T[u.arg_tys()[0]]["elem"])
    ctx, pops, plog, _ = arb_ctx(u, st, C)
    ops = C.fresh_ops(st)
    txl = st.new(tx.make(st, Ref(ctx), ops))
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(txl)])):
        u.prove("the context shares the transaction's log", s, z3.BoolVal(C.ops_loc(r) == ops and conc(s.arcs[ops]) == 2))
        p = C.field(r, C.i_parent)
        u.same("what it does not touch reads as in the enclosing context", s, p, Agg(p.ty, 1, (Ref(ctx),)))
        u.same("the graph is the enclosing context's", s, C.field(r, C.i_graph), C.field(s.heap[ctx], C.i_graph))
        u.same("the schema is the enclosing context's", s, C.field(r, C.i_schema), C.field(s.heap[ctx], C.i_schema))
        u.same("no target is offered", s, C.field(r, C.i_target), C.no_target())
        s.arcs[ops] = before.arcs[ops]
        same_heap(u, s, before, "nothing changes and no lock is held")


def body_fx(u, C, before_call, may_leak=True):
    """the body of a transaction: any program that can only do to the context what its interface lets it do"""
    def fx(ex, st, f, args, dty, stack):
        if not (len(args) == 1 and isinstance(args[0], Agg) and u.p.adt_path(args[0].ty) == CTX):
            return None
        ctx = args[0]
        st.ghost["calls"] = st.ghost.get("calls", 0) + 1
        before_call(st, ctx)
        ops = C.ops_loc(ctx)
        lk = st.heap[ops]
        log = C.arb_log(st, "issued")
        st.heap[ops] = LockV(C.log.wrap(log), u.const("poisoned", z3.BoolSort()), 0, False)
        st.ghost["issued"] = log
        st.ghost["poisoned"] = st.heap[ops].poison
        st.ghost["ops"] = ops
        out = []
        r = u.const("bodyresult", u.p.sort(dty))
        for mode in ("ok", "leak", "panic"):
            if mode == "leak" and not may_leak:
                continue
            s = st.clone()
            s.ghost["mode"] = mode
            if mode != "leak":
                for k, s in ex.drop_value(s, ctx, stack):
                    pass
            if mode == "panic":
                out.append(("panic", s, None))
            else:
                s.ghost["result"] = r
                out.append(("ret", s, Sym(dty, r)))
        return out
    return fx


def tx_outcomes(u, outs, tags, unchanged, applied, locks, body_once=True):
    """contract of Transaction::with; unchanged/applied/locks: functions from a final state to a formula"""
    seen = set()
    for k, s, v in outs:
        calls = s.ghost.get("calls", 0)
        u.prove("the body runs exactly once", s, z3.BoolVal(calls == 1)) if "body" in tags else None
        if calls != 1:
            continue
        mode = s.ghost["mode"]
        seen.add((k, mode))
        if k == "abort":
            u.never("no deadlock or abort: %s" % v, s)
            continue
        if "locks" in tags:
            u.prove("every lock is released (%s)" % k, s, locks(s))
        if k == "panic":
            if mode != "panic":
                u.never("no panic of its own", s)
                continue
            if "fail" in tags:
                u.prove("a panicking body leaves everything as it was", s, unchanged(s))
            continue
        if mode == "panic":
            u.never("a panic of the body is passed on", s)
            continue
        fr = s.ghost["result"]
        so = fr.sort()
        body_ok = so.recognizer(0)(fr)
        for s2, a in u.cases(s, v):
            if a.v == 0:
                if "success" in tags:
                    u.prove("success is reported only if the body succeeded", s2, body_ok)
                    u.prove("the body's value is returned", s2, u.ex.lower(s2, a.f[0]) == so.accessor(0, 0)(fr))
                    u.prove("success means exactly the issued operations took effect, in order", s2, applied(s2))
                if "fail" in tags:
                    u.prove("a failing body is never reported as success", s2, body_ok)
            else:
                err = u.ex.lower(s2, a.f[0]) if not isinstance(a.f[0], Opaque) else None
                if "fail" in tags:
                    u.prove("a failed transaction leaves everything as it was", s2, unchanged(s2))
                    if u.s.feasible(s2.pc + (z3.Not(body_ok),)):
                        if err is None:
                            raise Unsupported("error value")
                        u.prove("the body's error is the one reported", s2, z3.Implies(z3.Not(body_ok), err == so.accessor(1, 0)(fr)))
                if "success" in tags and mode == "ok":
                    u.prove("a successful body whose operations can be applied is reported as success", s2,
                            z3.Or(z3.Not(body_ok), s2.ghost["poisoned"]))
    if "body" in tags or "success" in tags:
        if ("ret", "ok") not in seen:
            raise Unsupported("no successful path")
    return seen


def bg_with(u, tags):
    u.find("plotline", "with", "transaction::Background", "transaction::Transaction")
    st = State()
    tx = Tx(u, u.arg_tys()[0])
    C = Ctx(u, ctx_type_in(u))
    schema = C.arb_schema(st)
    gaddr = C.schema_graph(st, schema)
    G0 = u.the_map(u.ex.load(st, gaddr).v)
    p0 = u.ex.load(st, gaddr).poison
    ops = C.fresh_ops(st)
    L = C.log
    pre = {l: x for l, x in st.heap.items()}

    def before_call(s, ctx):
        if "body" in tags:
            u.prove("the body starts on the graph as it is, with nothing issued", s,
                    z3.And(C.graph_map(s, ctx) == G0, u.p.vec_len(C.log.vec(s.heap[C.ops_loc(ctx)].v).t) == 0,
                           z3.BoolVal(C.field(ctx, C.i_parent).v == 0)))
    u.user_fx = body_fx(u, C, before_call)
    cell = (gaddr[0], gaddr[1] + (("lock",),) + map_path(u, C.graph_ty))

    def loop(ex, s, it):
        b = bi.it_base(it)
        if b.kind != "seq" or b.p["mode"] != "val" or b.p["vec"].sort() != u.p.sort(C.vec_ty) or "issued" not in s.ghost:
            return None
        mt = ex.load(s, cell).ty
        v = b.p["vec"]
        return {"cells": [(cell, lambda i: Sym(mt, L.F(u.p.vec_arr(v), i, G0)))], "facts": []}
    u.loop_f = loop
    now = lambda s: u.the_map(u.ex.load(s, gaddr).v)

    def rest_same(s):
        a, b = s.heap[schema], pre[schema]
        a = u.ex.set_(s, a, gaddr[1], u.ex.get(b, gaddr[1]))
        e = u.ex.eq_term(s, a, b)
        return z3.BoolVal(False) if e is None else e

    def locks(s):
        lk = u.ex.load(s, gaddr)
        return z3.BoolVal(lk.r == 0 and not lk.w)
    outs = u.call(st, [tx.make(st, Ref(schema), ops), u.sym(u.arg_tys()[1], "body")])
    tx_outcomes(u, outs, tags, lambda s: z3.And(now(s) == G0, rest_same(s)),
                lambda s: z3.And(now(s) == L.apply(s.ghost["issued"], G0), rest_same(s)), locks)


def map_path(u, ty):
    """path to the map in a graph"""
    n = u.fidx(ty, lambda f: u.p.adt_path(f) in MAPS, "map")
    return (("f", 0, n),)


def ctx_type_in(u):
    """the context type used by the current root (from its table of instances)"""
    for k, i in u.root["insts"].items():
        if i["body"] is None:
            continue
        t = i["body"]["locals"][0]
        if u.p.adt_path(t) == CTX:
            return t
    raise Unsupported("context type not found")


def fg_with(u, tags):
    u.find("plotline", "with", "transaction::Foreground", "transaction::Transaction")
    st = State()
    tx = Tx(u, u.arg_tys()[0])
    C = Ctx(u, tx.up_ty)
    L = C.log
    ctx, pops, plog, base = arb_ctx(u, st, C, poison=None)
    ops = C.fresh_ops(st)
    pre = st.clone()

    def before_call(s, c):
        if "body" in tags:
            p = C.field(c, C.i_parent)
            u.same("the body reads through to the enclosing context", s, p, Agg(p.ty, 1, (Ref(ctx),)))
            u.prove("the body starts with nothing issued, in a log of its own", s,
                    z3.And(u.p.vec_len(C.log.vec(s.heap[C.ops_loc(c)].v).t) == 0, z3.BoolVal(C.ops_loc(c) != pops)))
            u.same("the enclosing context is untouched when the body starts", s, s.heap[pops], pre.heap[pops])
        # meanwhile the enclosing context may be written to
        lk = s.heap[pops]
        s.heap[pops] = LockV(L.wrap(C.arb_log(s, "meanwhile")), u.const("ppoison", z3.BoolSort()), lk.r, lk.w)
        s.ghost["meanwhile"] = s.heap[pops]
    u.user_fx = body_fx(u, C, before_call)

    def others(s):
        cs = []
        for l, v in pre.heap.items():
            if l in (pops, ops):
                continue
            e = u.ex.eq_term(s, s.heap[l], v)
            if e is None:
                return z3.BoolVal(False)
            cs.append(e)
        return z3.And(*cs)

    def locks(s):
        lk = s.heap[pops]
        n, m = s.arcs[pops], pre.arcs[pops]
        return z3.And(z3.BoolVal(lk.r == 0 and not lk.w), n == m)

    def poison_ok(s):
        return s.heap[pops].poison == s.ghost["meanwhile"].poison

    def unchanged(s):
        return z3.And(L.apply(s.heap[pops].v, base) == L.apply(s.ghost["meanwhile"].v, base), others(s), poison_ok(s))

    def applied(s):
        return z3.And(L.apply(s.heap[pops].v, base) == L.apply(s.ghost["issued"], L.apply(s.ghost["meanwhile"].v, base)), others(s), poison_ok(s))
    outs = u.call(st, [tx.make(st, Ref(ctx), ops), u.sym(u.arg_tys()[1], "body")])
    for k, s, v in outs:
        if "meanwhile" in s.ghost:
            s.ghost["poisoned"] = z3.Or(s.ghost["poisoned"], s.ghost["meanwhile"].poison)
    tx_outcomes(u, outs, tags, unchanged, applied, locks)
