"""P14: however a transaction ends, the schema stays usable and readable."""
from common import *

GUARD = "plotline::schema::guard::Schema%sGuard"


def check(v):
    v.unit("Background::with", bg_with, {"locks", "body"})
    v.unit("Foreground::with", fg_with, {"locks", "body"})
    v.unit("Background::from(&Schema)", bg_from_schema, "from")
    v.unit("Schema::transaction", bg_from_schema, "method")
    v.unit("Foreground::from(&Context)", fg_from_ctx, "from")
    v.unit("Context::transaction", fg_from_ctx, "ctx")
    v.unit("Context::from(&Background)", ctx_from_bg)
    v.unit("Context::from(&Foreground)", ctx_from_fg)
    for n in ("get", "contains"):
        v.unit("Context::%s (outermost)" % n, ctx_read, n, False)
        v.unit("Context::%s (nested)" % n, ctx_read, n, True)
    for n in ("save", "delete"):
        v.unit("Context::" + n, ctx_write, n)
    for k in ("Read", "Write"):
        v.unit("Schema%sGuard::from(&Schema)" % k, guard, k, "from")
        v.unit("Schema::%s" % k.lower(), guard, k, "method")
    v.unit("dropping an unrun transaction", unrun)


def guard(u, kind, how):
    """taking the graph of a schema nobody holds, however it was left behind"""
    if how == "from":
        u.find("plotline", "from", "guard::Schema%sGuard" % kind, "core::convert::From")
    else:
        u.find("plotline", kind.lower(), "schema::Schema", False)
    st = State()
    sty = u.p.T[u.arg_tys()[0]]["elem"]
    schema = st.new(u.havoc(u.ex, st, sty, "schema"))
    addr = None
    for n, f in enumerate(u.p.fields(sty)):
        if u.p.adt_path(f) == LOCK:
            addr = (schema, (("f", 0, n),))
    if addr is None:
        raise Unsupported("graph of the schema not recognised")
    before = st.clone()
    g0 = u.the_map(u.ex.load(st, addr).v)
    for s, r in u.returns(u.call(st, [Ref(schema)]), "taking the graph neither blocks nor panics, also after a panic"):
        lk = u.ex.load(s, addr)
        u.prove("the lock is held in that mode", s, z3.BoolVal(conc_eq(lk.r, 0) and bool(lk.w) if kind == "Write" else conc_eq(lk.r, 1) and not lk.w))
        u.prove("the graph is the one left behind", s, u.the_map(lk.v) == g0)
        outs = u.ex.drop_value(s, r, ())
        for k, s2 in outs:
            if k != "ok":
                u.never("dropping the guard does not panic", s2)
                continue
            lk = u.ex.load(s2, addr)
            u.prove("dropping the guard frees the graph", s2, z3.BoolVal(conc_eq(lk.r, 0) and not lk.w))
            same_heap(u, s2, before, "nothing else changes")


def conc_eq(x, n):
    return conc(x) == n if not isinstance(x, int) else x == n


def unrun(u):
    """a transaction that is dropped: without being run, or after its context was obtained"""
    u.find("plotline", "from", "transaction::Background", "core::convert::From")
    st = State()
    tx = Tx(u, u.ret_ty())
    schema = st.new(u.havoc(u.ex, st, tx.up_ty, "schema"))
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(schema)])):
        for k, s2 in u.ex.drop_value(s, r, ()):
            if k != "ok":
                u.never("dropping does not panic", s2)
                continue
            same_heap(u, s2, before, "the schema is as if the transaction had never been opened")
