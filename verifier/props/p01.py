"""P01: a graph is a last-writer-wins map from node id to node."""
import z3
from unit import *

G = "graph::Graph"


def graph_unit(u, name, trait):
    u.find("plotline", name, G, trait)
    return State()


def inserts(u, st, graph_ty, ident=None):
    """an arbitrary sequence of nodes: (length, FOLD, a fresh iterator over them); FOLD(i) is the map after inserting
    the first i of them one after another"""
    p = u.p
    mt = [f for f in p.fields(graph_ty) if u.is_path(MAP)(f)]
    if len(mt) != 1:
        raise Unsupported("graph representation not recognised")
    ms = p.sort(mt[0])
    ns = ms.range().accessor(1, 0).range()
    nty = p.T[mt[0]]["args"][1]
    n = u.length(st, u.const("n", z3.IntSort()))
    item = z3.Function("item", z3.IntSort(), ns)
    fold = z3.Function("FOLD", z3.IntSort(), ms)
    none = ms.range().constructor(0)()

    def unfold(t):
        if z3.is_app(t) and t.decl().name() == "FOLD" and t.num_args() == 1:
            i = t.arg(0)
            idt = ident(p.T[mt[0]]["args"][1]) if ident else z3.Function("idof<%s>" % ns, ns, ms.domain())
            j = z3.simplify(i - 1)
            yield z3.Implies(i <= 0, t == z3.K(ms.domain(), none))
            if not (z3.is_app(i) and fold_depth(i)):
                yield z3.Implies(i > 0, t == z3.Store(fold(j), idt(item(j)), ms.range().constructor(1)(item(j))))

    def fold_depth(i):
        # unfold only at symbolic positions i and i+1, never below i-1
        c = z3.simplify(i)
        if z3.is_add(c):
            return any(z3.is_int_value(x) and x.as_long() < 0 for x in c.children())
        return z3.is_int_value(c) and c.as_long() < 0
    u.s.axioms.append(unfold)

    def items():
        return IterV("seq", mode="opaque", lo=I(0), hi=n, ety=nty, item=lambda ex, s, i: Sym(nty, item(i)))

    def loop(ex, s, it):
        if "map" not in u.loop_cells:
            return None
        a = u.loop_cells["map"]
        ty = s.heap[a[0]].ty
        return {"cells": [(a, lambda i: Sym(ty, fold(i)))], "facts": []}
    u.loop_f = loop

    def hint(ex, s, it, addr, old):
        if isinstance(old, Sym) and old.t.sort() == ms:
            return lambda i: Sym(old.ty, fold(i))
    u.cell_hints.append(hint)
    return n, fold, items


def idterm(u, m, node):
    return bi.idof(u.ex, node, m.sort().domain())


def check(v):
    def default(u):
        st = graph_unit(u, "default", "core::default::Default")
        for s, g in u.returns(u.call(st, [])):
            m = u.the_map(g)
            k = u.const("k", m.sort().domain())
            u.prove("a default graph holds nothing", s, z3.Not(bi.is_some(z3.Select(m, k))))
    v.unit("Graph::default", default)

    def insert(u):
        st = graph_unit(u, "insert", False)
        gt, nt = u.arg_tys()
        loc = st.new(u.havoc(u.ex, st, u.p.T[gt]["elem"], "g"))
        node = u.havoc(u.ex, st, nt, "node")
        m0 = u.the_map(st.heap[loc])
        vs = m0.sort().range()
        for s, r in u.returns(u.call(st, [Ref(loc), node])):
            m = u.the_map(s.heap[loc])
            i = idterm(u, m, node.t)
            u.prove("the graph is the old one updated at the node's id", s, m == z3.Store(m0, i, vs.constructor(1)(node.t)))
            u.prove("the node replaced is returned", s, u.opt_term(s, r, node.t.sort()) == z3.Select(m0, i))
    v.unit("Graph::insert", insert)

    def with_node(u):
        st = graph_unit(u, "with_node", False)
        gt, nt = u.arg_tys()
        g = u.havoc(u.ex, st, gt, "g")
        node = u.havoc(u.ex, st, nt, "node")
        m0 = u.the_map(g)
        for s, r in u.returns(u.call(st, [g, node])):
            m = u.the_map(r)
            i = idterm(u, m, node.t)
            u.prove("the graph is the old one updated at the node's id", s, m == z3.Store(m0, i, m0.sort().range().constructor(1)(node.t)))
    v.unit("Graph::with_node", with_node)

    def remove(u):
        st = graph_unit(u, "remove", False)
        gt, it = u.arg_tys()
        loc = st.new(u.havoc(u.ex, st, u.p.T[gt]["elem"], "g"))
        i = u.havoc(u.ex, st, u.p.T[it]["elem"], "id")
        m0 = u.the_map(st.heap[loc])
        for s, r in u.returns(u.call(st, [Ref(loc), Ref(st.new(i))])):
            m = u.the_map(s.heap[loc])
            u.prove("the graph is the old one without the id", s, m == z3.Store(m0, i.t, m0.sort().range().constructor(0)()))
            u.prove("the node taken out is returned", s, u.opt_term(s, r, m0.sort().range().accessor(1, 0).range()) == z3.Select(m0, i.t))
    v.unit("Graph::remove", remove)

    def get(u, name):
        st = graph_unit(u, name, "graph::proxy::Source")
        gt, it = u.arg_tys()
        g = u.havoc(u.ex, st, u.p.T[gt]["elem"], "g")
        i = u.havoc(u.ex, st, u.p.T[it]["elem"], "id")
        m0 = u.the_map(g)
        loc = st.new(g)
        o = z3.Select(m0, i.t)
        for s, r in u.returns(u.call(st, [Ref(loc), Ref(st.new(i))])):
            if name == "get":
                u.prove("lookup returns what is stored", s, u.opt_term(s, r, o.sort().accessor(1, 0).range()) == o)
            else:
                u.prove("presence is what lookup finds", s, r.t == bi.is_some(o))
            u.prove("the graph is unchanged", s, u.the_map(s.heap[loc]) == m0)
    v.unit("Graph::get", get, "get")
    v.unit("Graph::contains", get, "contains")

    def from_iter(u):
        """fold of inserts: FOLD(i) is the map after the first i items"""
        st = graph_unit(u, "from_iter", "core::iter::traits::collect::FromIterator")
        at = u.arg_tys()[0]
        p = u.p
        rt = u.ret_ty()
        n, fold, items = inserts(u, st, rt)
        u.iterf = lambda ex, s, x: items()
        arg = Sym(at, u.const("nodes", p.sort(at)))
        for s, r in u.returns(u.call(st, [arg])):
            u.prove("the graph holds the items inserted in order", s, u.the_map(r) == fold(n))
    v.unit("Graph::from_iter", from_iter)

    def lww(u):
        """lemma over the contracts: a sequence of inserts and removes leaves for each id the last write"""
        u.find("plotline", "insert", G, False)
        p = u.p
        gt = p.T[u.arg_tys()[0]]["elem"]
        m = u.the_map(u.havoc(u.ex, State(), gt, "g"))
        ms = m.sort()
        k, k2 = u.const("k", ms.domain()), u.const("k2", ms.domain())
        x = u.const("x", ms.range().accessor(1, 0).range())
        st = State()
        so = ms.range()
        ins = z3.Store(m, k, so.constructor(1)(x))
        u.prove("last write under an id is what is found", st, z3.Select(ins, k) == so.constructor(1)(x))
        u.prove("insertion leaves other ids alone", st, z3.Implies(k != k2, z3.Select(ins, k2) == z3.Select(m, k2)))
        rem = z3.Store(m, k, so.constructor(0)())
        u.prove("a removed id is absent", st, z3.Select(rem, k) == so.constructor(0)())
        u.prove("removal leaves other ids alone", st, z3.Implies(k != k2, z3.Select(rem, k2) == z3.Select(m, k2)))
    v.unit("lemma last-writer-wins", lww)
