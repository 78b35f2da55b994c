"""P04: node handles read once and traverse exactly the node's edges."""
from common import *
from props.p03 import *


def check(v):
    v.unit("NodeProxy::new", handle_new, "new")
    v.unit("NodeProxy::id", get_id)
    v.unit("NodeProxy::try_deref", try_deref)
    v.unit("NodeProxy::clone", clone)
    v.unit("NodeProxy::successors", successors)


def get_id(u):
    u.find("plotline", "id", "proxy::NodeProxy", "id::Identify")
    u.hooks.append(src_hook(u))
    st = State()
    P = Proxy(u, find_ty(u, PROXY))
    h, src, i, once = P.arb(st)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(h)])):
        u.prove("a handle reports the id it was made for", s, u.ex.lower(s, bi.through(u.ex, s, r)) == i.t)
        u.prove("without asking the source", s, z3.BoolVal(not s.trace))
        same_heap(u, s, before, "and changes nothing")


def clone(u):
    u.find("plotline", "clone", "proxy::NodeProxy", "core::clone::Clone")
    u.hooks.append(src_hook(u))
    st = State()
    P = Proxy(u, find_ty(u, PROXY))
    h, src, i, once = P.arb(st)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(h)])):
        u.same("a clone has the same source", s, P.part(r, P.i_src), Ref(src))
        u.prove("a clone has the same id", s, u.ex.lower(s, P.part(r, P.i_id)) == i.t)
        o = P.part(r, P.i_val)
        init = o.init if z3.is_expr(o.init) else z3.BoolVal(o.init)
        u.prove("a clone has read what the original had read", s, init == once.init)
        if o.v is not None:
            u.prove("a clone has the same value", s, z3.Implies(once.init, u.ex.lower(s, o.v) == once.v.t))
        u.prove("without asking the source", s, z3.BoolVal(not [e for e in s.trace if e[0] == "get"]))
        now = P.part(s.heap[h], P.i_val)
        ni = now.init if z3.is_expr(now.init) else z3.BoolVal(now.init)
        u.prove("the original is unchanged", s, ni == once.init)


def successors(u):
    u.find("plotline", "successors", "proxy::NodeProxy", False)
    u.hooks.append(src_hook(u))
    st = State()
    P = Proxy(u, find_ty(u, PROXY))
    h, src, i, once = P.arb(st)
    p = u.p
    outs = u.returns(u.call(st, [Ref(h)]))
    for s, r in outs:
        gets = [e for e in s.trace if e[0] == "get"]
        edges = [e for e in s.trace if e[0] == "edges"]
        if [e for e in s.trace if e[0] == "contains"]:
            raise Unsupported("presence is asked as well")
        cur = gets[0][3] if gets else once.v.t
        u.prove("the handle itself is read at most once", s, z3.BoolVal(len(gets) <= 1))
        if gets:
            u.prove("a handle read before does not ask again", s, z3.Not(once.init))
            u.prove("the handle's own id is asked for", s, gets[0][2] == i.t)
        else:
            u.prove("without asking only if read before", s, once.init)
        some = bi.is_some(cur)
        if isinstance(r, LazyVec):
            it = r.it
            n = bi.it_count(u.ex, s, it)
        elif isinstance(r, Sym):
            it, n = None, p.vec_len(r.t)
        else:
            raise Unsupported("vector expected")
        if not edges:
            u.prove("no edges are followed only if the id is not present", s, z3.Not(some))
            u.prove("the successors of an id that is not present are empty", s, n == 0)
            continue
        u.prove("edges are those of the node read", s, z3.And(some, edges[0][1] == cur.sort().accessor(1, 0)(cur)))
        node = edges[0][1]
        if it is None:
            raise Unsupported("successors not recognised")
        ev = edges[0][2]
        m = p.vec_len(ev)
        u.prove("one successor per edge", s, n == m)
        c = u.const("c", z3.IntSort())
        s.assume(c >= 0, c < m)
        tl = len(s.trace)
        for k, s2, x, it2 in bi.step(u.ex, s, bi.it_advance(u.ex, it, c), ()):
            if k != "item":
                u.never("every edge yields a successor (%s)" % k, s2)
                continue
            e = z3.Select(p.vec_arr(ev), c)
            idt = bi.idof(u.ex, e, i.t.sort())
            P.expect_fresh("the successor of the c-th edge is a handle", s2, x, Ref(src), idt)
            u.prove("successors are not read", s2, z3.BoolVal(len([e for e in s2.trace[tl:] if e[0] == "get"]) == 0))
