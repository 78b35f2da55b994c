"""P02: enumerating a graph yields every stored node exactly once, in id order."""
from common import *


def check(v):
    v.unit("&Graph::into_iter", into_iter)


def into_iter(u):
    """VALUES(m)[0..SIZE(m)) is the assumed contract of BTreeMap::values: the values in ascending key order, each once.
    The iterator handed out must step through exactly that sequence."""
    u.find("plotline", "into_iter", "graph::Graph", "core::iter::traits::collect::IntoIterator")
    st = State()
    gt = u.p.T[u.arg_tys()[0]]["elem"]
    loc = st.new(u.havoc(u.ex, st, gt, "g"))
    m0 = u.the_map(st.heap[loc])
    arr, n = bi.vals_fn(u.ex, m0)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(loc)])):
        it = bi.to_iter(u.ex, s, r)
        u.prove("as many steps as nodes are stored", s, bi.it_count(u.ex, s, it) == n)
        c = u.const("c", z3.IntSort())
        s.assume(c >= 0, c < n)
        before2 = s.clone()
        for k, s2, x, it2 in bi.step(u.ex, s, bi.it_advance(u.ex, it, c), ()):
            if k != "item":
                u.never("every step yields a node (%s)" % k, s2)
                continue
            x = bi.through(u.ex, s2, x)
            u.prove("the nodes come in id order, each once", s2, u.ex.lower(s2, x) == z3.Select(arr, c))
            u.same("stepping moves on by one", s2, it2, bi.it_advance(u.ex, it, c + 1))
        same_heap(u, s, before, "enumerating changes nothing")
