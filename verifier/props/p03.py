"""P03: presence, lookup and node handles agree for graphs and transaction contexts."""
from common import *
from props import p01
PROXY = "plotline::graph::proxy::NodeProxy"


def src_hook(u):
    """an arbitrary source: get and contains are functions of the id at one moment, recorded as events"""
    def h(ex, st, fn, args, dty, stack):
        if fn.get("trait") == SOURCE and fn["name"] in ("get", "contains") and fn.get("k") == "unresolved":
            src = args[0]
            i = bi.key_of(ex, st, args[1])
            n = len([e for e in st.trace if e[0] in ("get", "contains")])
            if fn["name"] == "get":
                r = u.const("got", u.p.sort(dty))
                st.event("get", src, i, r)
                out = [("ret", st, Sym(dty, r))]
            else:
                r = u.const("present", z3.BoolSort())
                st.event("contains", src, i, r)
                out = [("ret", st, ex.mk_bool(r))]
            return out
        if fn.get("trait") == "plotline::property::Property" and fn["name"] == "all":
            node = bi.through(ex, st, args[0])
            f = z3.Function("EDGES", u.p.sort(node.ty), u.p.sort(dty))
            t = f(node.t)
            st.assume(u.p.vec_len(t) >= 0)
            st.event("edges", node.t, t)
            return [("ret", st, Sym(dty, t))]
        return None
    return h


class Proxy:
    def __init__(self, u, ty):
        self.u, self.ty, p = u, ty, u.p
        T = p.T
        if p.adt_path(ty) != PROXY:
            raise Unsupported("node handle type expected")
        fs = p.fields(ty)
        self.i_src = u.fidx(ty, lambda f: T[f]["k"] == "ref", "source")
        self.i_val = u.fidx(ty, u.is_path(ONCE), "value")
        rest = [i for i in range(len(fs)) if i not in (self.i_src, self.i_val)]
        if len(rest) != 1:
            raise Unsupported("node handle has fields the contract does not know")
        self.i_id = rest[0]
        self.fs = fs

    def arb(self, st, value=None):
        """an arbitrary handle on the heap"""
        u = self.u
        f = [None] * 3
        srct = u.p.T[self.fs[self.i_src]]["elem"]
        src = st.new(u.sym(srct, "source") if u.p.T[srct]["k"] in ("param", "alias") else Opaque(srct, "source"))
        f[self.i_src] = Ref(src)
        f[self.i_id] = u.sym(self.fs[self.i_id], "id")
        f[self.i_val] = value or u.havoc(u.ex, st, self.fs[self.i_val], "cached")
        return st.new(Agg(self.ty, 0, f)), src, f[self.i_id], f[self.i_val]

    def part(self, v, i):
        return self.u.ex.get1(v, ("f", 0, i))

    def expect_fresh(self, name, s, v, src, idt):
        u = self.u
        u.same(name + " on the same source", s, self.part(v, self.i_src), src)
        u.prove(name + " for the id", s, u.ex.lower(s, self.part(v, self.i_id)) == idt)
        o = self.part(v, self.i_val)
        u.prove(name + " not yet read", s, z3.BoolVal(isinstance(o, OnceV) and o.init is False))


def handle_new(u, what):
    if what == "new":
        u.find("plotline", "new", "proxy::NodeProxy", False)
    else:
        u.find("plotline", "node", what, False)
    st = State()
    P = Proxy(u, u.ret_ty())
    srct = u.p.T[u.arg_tys()[0]]["elem"]
    loc = st.new(Opaque(srct, "source"))
    i = u.sym(u.arg_tys()[1], "id")
    for s, r in u.returns(u.call(st, [Ref(loc), i])):
        P.expect_fresh("a handle is made", s, r, Ref(loc), i.t)
        u.prove("making a handle reads nothing", s, z3.BoolVal(not s.trace))


def is_virtual(u):
    u.find("plotline", "is_virtual", "proxy::NodeProxy", False)
    u.hooks.append(src_hook(u))
    st = State()
    P = Proxy(u, find_ty(u, PROXY))
    h, src, i, _ = P.arb(st)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(h)])):
        ok = len(s.trace) == 1 and s.trace[0][0] in ("contains", "get")
        if not ok:
            if u.s.feasible(s.pc):
                u.s.fail("virtual is decided by asking the source once", repr(s.trace))
            continue
        kind, a, idt, res = s.trace[0]
        u.same("the handle's own source is asked", s, a, Ref(src))
        u.prove("the handle's own id is asked for", s, idt == i.t)
        pres = res if kind == "contains" else bi.is_some(res)
        u.prove("virtual exactly when not present", s, r.t == z3.Not(pres))
        same_heap(u, s, before, "asking changes nothing")


def try_deref(u):
    """reads once: a cached value (or cached absence) is returned without asking; otherwise one lookup, cached"""
    u.find("plotline", "try_deref", "proxy::NodeProxy", "deref::TryDeref")
    u.hooks.append(src_hook(u))
    st = State()
    P = Proxy(u, find_ty(u, PROXY))
    h, src, i, once = P.arb(st)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(h)])):
        gets = [e for e in s.trace if e[0] == "get"]
        others = [e for e in s.trace if e[0] not in ("get", "once-set")]
        o = P.part(s.heap[h], P.i_val)
        opt = once.v.t
        got = u.opt_term(s, r, opt.sort().accessor(1, 0).range())
        if not gets:
            u.prove("the source is left alone only if it was read before", s, once.init)
            u.prove("a handle read before returns the same value", s, got == opt)
        else:
            u.prove("the source is asked at most once", s, z3.BoolVal(len(gets) == 1))
            u.prove("a handle read before does not ask again", s, z3.Not(once.init))
            u.same("the handle's own source is asked", s, gets[0][1], Ref(src))
            u.prove("the handle's own id is asked for", s, gets[0][2] == i.t)
            u.prove("dereferencing returns exactly what the lookup returned", s, got == gets[0][3])
        u.prove("what was read is kept", s, z3.BoolVal(o.init is True) if isinstance(o.init, bool) else o.init)
        u.prove("what was read is kept for later reads", s, u.ex.lower(s, o.v) == got)
        u.prove("nothing else is asked of the source", s, z3.BoolVal(not others))
        s.heap[h] = u.ex.set_(s, s.heap[h], (("f", 0, P.i_val),), once)
        same_heap(u, s, before, "source and id stay as they are")


def carries(u):
    """every node found under an id carries it: preserved by every update of graphs and logs"""
    u.find("plotline", "get", CTX, SOURCE)
    C = Ctx(u, find_ty(u, CTX))
    L = C.log
    m = u.const("m", L.map)
    k = u.const("k", L.id)
    node = u.const("node", L.node)
    op = u.const("op", L.op)
    inv = lambda mm: z3.Implies(bi.is_some(z3.Select(mm, k)), L.idof(z3.Select(mm, k).sort().accessor(1, 0)(z3.Select(mm, k))) == k)
    none, some = L.opt.constructor(0)(), L.opt.constructor(1)
    u.prove("holds of an empty graph", [], inv(z3.K(L.id, none)))
    u.prove("kept by storing a node under its id", [inv(m)], inv(z3.Store(m, L.idof(node), some(node))))
    i = u.const("i", L.id)
    u.prove("kept by removing an id", [inv(m)], inv(z3.Store(m, i, none)))
    u.prove("kept by any logged operation", [inv(m)], inv(L.step(m, op)))


def check(v):
    p01.check(v)
    for n in ("get", "contains"):
        v.unit("Context::%s (outermost)" % n, ctx_read, n, False)
        v.unit("Context::%s (nested)" % n, ctx_read, n, True)
    log_lemmas(v)
    v.unit("NodeProxy::new", handle_new, "new")
    v.unit("Graph::node", handle_new, "graph::Graph")
    v.unit("Context::node", handle_new, "transaction::Context")
    v.unit("NodeProxy::is_virtual", is_virtual)
    v.unit("NodeProxy::try_deref", try_deref)
    v.unit("lemma nodes carry their ids", carries)
