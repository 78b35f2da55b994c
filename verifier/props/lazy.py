"""Lazy documents (P17, P18)."""
from common import *

LAZY = "plotline::document::lazy::LazyDocument"
REPO = "plotline::document::DocumentRepository"


class Lazy:
    def __init__(self, u, ty):
        self.u, self.ty, p = u, ty, u.p
        if p.adt_path(ty) != LAZY:
            raise Unsupported("lazy document type expected")
        self.fs = fs = p.fields(ty)
        self.i_repo = u.fidx(ty, u.is_path(ARC), "repository")
        self.i_val = u.fidx(ty, u.is_path(ONCE), "cached document")
        rest = [i for i in range(len(fs)) if i not in (self.i_repo, self.i_val) and p.adt_path(fs[i]) != PHANTOM]
        if len(rest) != 1:
            raise Unsupported("lazy document has fields the contract does not know")
        self.i_id = rest[0]
        self.doc_ty = p.T[fs[self.i_val]]["args"][0]
        self.repo_ty = p.T[fs[self.i_repo]]["args"][0]

    def part(self, v, i):
        return self.u.ex.get1(v, ("f", 0, i))

    def arb_repo(self, st):
        u = self.u
        loc = st.new(u.sym(self.repo_ty, "repository"))
        st.arcs[loc] = u.const("count", z3.IntSort())
        st.assume(st.arcs[loc] >= 1)
        return ArcV(self.fs[self.i_repo], loc)

    def arb(self, st):
        """an arbitrary lazy document on the heap"""
        u = self.u
        f = [Agg(t, 0, ()) for t in self.fs]
        f[self.i_repo] = self.arb_repo(st)
        f[self.i_id] = u.sym(self.fs[self.i_id], "id")
        f[self.i_val] = OnceV(u.const("loaded", z3.BoolSort()), u.sym(self.doc_ty, "cached"))
        return st.new(Agg(self.ty, 0, f)), f[self.i_repo], f[self.i_id], f[self.i_val]

    def hook(self, ex, st, fn, args, dty, stack):
        if fn.get("trait") == REPO and fn["name"] == "find_by_id" and fn.get("k") == "unresolved":
            i = bi.key_of(ex, st, args[1])
            r = self.u.const("found", self.u.p.sort(dty))
            s2 = st.clone()
            st.event("find", args[0], i, r)
            s2.event("find", args[0], i, None)
            return [("ret", st, Sym(dty, r)), ("panic", s2, None)]
        if fn.get("trait") == REPO and fn.get("k") == "unresolved":
            raise Unsupported("repository is asked for something else")
        return None


def finds(s):
    return [e for e in s.trace if e[0] == "find"]


def loaded(o):
    return o.init if z3.is_expr(o.init) else z3.BoolVal(o.init)


def builder(u):
    u.find("plotline", "builder", "lazy::LazyDocument", False)
    st = State()
    p = u.p
    at = u.arg_tys()[0]
    if p.adt_path(at) != ARC:
        raise Unsupported("shared repository expected")
    rl = st.new(u.sym(p.T[at]["args"][0], "repository"))
    st.arcs[rl] = u.const("count", z3.IntSort())
    st.assume(st.arcs[rl] >= 1)
    repo = ArcV(at, rl)
    for s, r in u.returns(u.call(st, [repo])):
        u.prove("building touches no document", s, z3.BoolVal(not finds(s)))
        if not (isinstance(r, Agg) and r.key in u.ex.insts):
            raise Unsupported("constructor not recognised")
        lty = u.ex.insts[r.key]["body"]["locals"][0]
        L = Lazy(u, lty)
        u.hooks.append(L.hook)
        loc = s.new(r)
        for n in range(2):          # it can be used again and again
            i = u.sym(L.fs[L.i_id], "id")
            outs = u.returns(list(u.ex.call_value(s, Ref(loc), [i], lty, ())), "building returns without panic")
            for s2, d in outs:
                u.prove("building touches no document", s2, z3.BoolVal(not finds(s2)))
                a = L.part(d, L.i_repo)
                u.prove("the document is of the given repository", s2, z3.BoolVal(isinstance(a, ArcV) and a.loc == repo.loc))
                u.prove("the document has the given id", s2, u.ex.lower(s2, L.part(d, L.i_id)) == i.t)
                u.prove("the document is not loaded yet", s2, z3.Not(loaded(L.part(d, L.i_val))))
                s = s2


def new(u):
    u.find("plotline", "new", "lazy::LazyDocument", False)
    st = State()
    L = Lazy(u, u.ret_ty())
    u.hooks.append(L.hook)
    repo = L.arb_repo(st)
    doc = u.sym(u.arg_tys()[1], "document")
    for s, d in u.returns(u.call(st, [repo, doc])):
        u.prove("without any repository access", s, z3.BoolVal(not finds(s)))
        a = L.part(d, L.i_repo)
        u.prove("it is of the given repository", s, z3.BoolVal(isinstance(a, ArcV) and a.loc == repo.loc))
        i = u.ex.lower(s, L.part(d, L.i_id))
        u.prove("it carries the document's id", s, i == bi.idof(u.ex, doc.t, i.sort()))
        o = L.part(d, L.i_val)
        u.prove("it is loaded", s, loaded(o))
        u.same("it yields the given document", s, o.v, doc)


def get_id(u):
    u.find("plotline", "id", "lazy::LazyDocument", "id::Identify")
    st = State()
    L = Lazy(u, u.p.T[u.arg_tys()[0]]["elem"])
    u.hooks.append(L.hook)
    h, repo, i, o = L.arb(st)
    before = st.clone()
    for s, r in u.returns(u.call(st, [Ref(h)])):
        u.prove("it reports the id it was created for", s, u.ex.lower(s, bi.through(u.ex, s, r)) == i.t)
        u.prove("without any repository access", s, z3.BoolVal(not finds(s)))
        same_heap(u, s, before, "and changes nothing")


def clone(u):
    u.find("plotline", "clone", "lazy::LazyDocument", "core::clone::Clone")
    st = State()
    L = Lazy(u, u.ret_ty())
    u.hooks.append(L.hook)
    h, repo, i, o = L.arb(st)
    for s, d in u.returns(u.call(st, [Ref(h)])):
        u.prove("without any repository access", s, z3.BoolVal(not finds(s)))
        a = L.part(d, L.i_repo)
        u.prove("a clone has the same repository", s, z3.BoolVal(isinstance(a, ArcV) and a.loc == repo.loc))
        u.prove("a clone has the same id", s, u.ex.lower(s, L.part(d, L.i_id)) == i.t)
        c = L.part(d, L.i_val)
        u.prove("a clone is loaded exactly if the original is", s, loaded(c) == o.init)
        if c.v is not None:
            u.prove("a clone has the same document", s, z3.Implies(loaded(c), u.ex.lower(s, c.v) == o.v.t))
        n = L.part(s.heap[h], L.i_val)
        u.prove("the original stays as it is", s, loaded(n) == o.init)
        if n.v is not None:
            u.prove("the original stays as it is", s, z3.Implies(loaded(n), u.ex.lower(s, n.v) == o.v.t))


def try_deref(u, others):
    """others: between any two steps another reader may have stored the document it found (never replacing one)"""
    u.find("plotline", "try_deref", "lazy::LazyDocument", "deref::TryDeref")
    st = State()
    L = Lazy(u, u.p.T[u.arg_tys()[0]]["elem"])
    u.hooks.append(L.hook)
    h, repo, i, o = L.arb(st)
    cell = (h, (("f", 0, L.i_val),))
    st.ghost["by others"] = False

    def interfere(ex, s, addr):
        v = ex.load(s, addr)
        if not others or addr[0] != h or v.init is True:
            return [s]
        out = [s]
        for s2, b in ex.fork(s, loaded(v)):
            if not b:
                s3 = s2.clone()
                ex.store(s3, cell, OnceV(True, u.sym(L.doc_ty, "stored by another reader"), v.ghost))
                s3.ghost["by others"] = True
                out.append(s3)
        return out
    u.interfere_f = interfere
    for k, s, r in u.call(st, [Ref(h)]):
        if k == "abort":
            u.never("reading neither blocks nor aborts", s)
            continue
        fs = finds(s)
        now = u.ex.load(s, cell)
        u.same("the document keeps its id", s, L.part(s.heap[h], L.i_id), i)
        a = L.part(s.heap[h], L.i_repo)
        u.prove("the document keeps its repository", s, z3.BoolVal(isinstance(a, ArcV) and a.loc == repo.loc))
        for e in fs:
            u.same("its own repository is asked", s, e[1], Ref(repo.loc))
            u.prove("its own id is asked for", s, e[2] == i.t)
        u.prove("the repository is asked at most once per read", s, z3.BoolVal(len(fs) <= 1))
        if fs:
            u.prove("the repository is not asked again after a successful load", s, z3.Not(o.init))
        if len(fs) > 1:
            continue
        # the cell only ever goes from empty to full
        u.prove("a document once loaded stays", s, z3.Implies(o.init, loaded(now)))
        if now.v is not None:
            u.prove("a document once loaded is never replaced", s, z3.Implies(o.init, u.ex.lower(s, now.v) == o.v.t))
        got = fs[0][3] if fs else None
        if k == "panic":
            u.prove("no panic of its own", s, z3.BoolVal(bool(fs) and got is None))
            continue
        u.prove("a panic is passed on", s, z3.BoolVal(not fs or got is not None))
        if got is None and fs:
            continue
        for s2, c in u.cases(s, r):
            if c.v == 0:
                u.prove("only a document the repository lacks reads as missing", s2, z3.Not(bi.is_some(got)) if fs else z3.BoolVal(False))
                if not others:
                    u.prove("a missing document is asked for again the next time", s2, z3.Not(loaded(now)))
                continue
            x = u.ex.lower(s2, bi.through(u.ex, s2, c.f[0]))
            u.prove("what is read is what every reader gets from now on", s2, z3.And(loaded(now), x == u.ex.lower(s2, now.v)) if now.v is not None else z3.BoolVal(False))
            if not s2.ghost["by others"]:
                if fs:
                    u.prove("what is read is what the repository holds for the id", s2, z3.And(bi.is_some(got), x == bi.unsome(got)))
                else:
                    u.prove("without asking only what was loaded before is read", s2, z3.And(o.init, x == o.v.t))
