"""Interval search trees (P23, P24, P25): contracts of every function on nodes and trees.

Specification functions on nodes, each defined by one unfolding step per term:
  CNT(n, x)  how many copies of the interval x are stored below n          SIZE(n)  how many intervals
  MAXLO, MINLO, MAXHI  greatest/least lower limit and greatest upper limit (ranks in the order of the bounds)
  INV(n)     search tree order of the lower limits (left strictly below, right not below) and exact maxima
  ORDT(n)    every stored interval has lo <= hi                            EX(n, q) some stored interval overlaps q
The lemmas connecting them are proved by structural induction in a unit of their own."""
import re, json
from props.interval import *


class Tree:
    def __init__(self, u, lemmas=True, nonneg=True):
        self.u, self.p, self.ex = u, u.p, u.ex
        p = u.p
        c = {}
        for i in u.ex.insts.values():
            if i["body"]:
                for t in i["body"]["locals"]:
                    t = p.T[t]["elem"] if p.T[t]["k"] in ("ref", "ptr") else t
                    for a in [t] + [a for a in p.T[t].get("args", ()) if isinstance(a, int)]:
                        a = p.unbox(a)
                        if p.adt_path(a) == NODE and a in p.adts:
                            c.setdefault(p.T[a]["s"], a)
        if len(c) != 1:
            raise Unsupported("node type not recognised: %s" % sorted(c))
        self.nty = list(c.values())[0]
        fs = p.adts[self.nty]["variants"][0]["fields"]
        kid = lambda f: p.adt_path(f) == OPTION and p.unbox(p.T[f]["args"][0]) == self.nty
        self.vty = p.T[self.nty]["args"][0]
        names = [f[0] for f in fs]
        tys = [f[1] for f in fs]
        kids = [n for n in range(len(fs)) if kid(tys[n])]
        vals = [n for n in range(len(fs)) if tys[n] == self.vty]
        bnds = [n for n in range(len(fs)) if p.T[tys[n]]["k"] == "alias" and p.T[tys[n]]["s"].endswith("::Bound")]
        if len(fs) != 4 or len(kids) != 2 or len(vals) != 1 or len(bnds) != 1 or sorted(names[k] for k in kids) != ["left", "right"]:
            raise Unsupported("fields of the node not recognised")
        self.il, self.ir = names.index("left"), names.index("right")
        self.iv, self.im = vals[0], bnds[0]
        self.oty = tys[self.il]
        self.N, self.V, self.B, self.O = p.sort(self.nty), p.sort(self.vty), p.sort(tys[self.im]), p.sort(self.oty)
        I_, Bo = z3.IntSort(), z3.BoolSort()
        N, V = self.N, self.V
        F = lambda n, *s: z3.Function("%s<%s>" % (n, N), *s)
        self.CNT, self.SIZE = F("CNT", N, V, I_), F("SIZE", N, I_)
        self.MAXLO, self.MINLO, self.MAXHI = F("MAXLO", N, I_), F("MINLO", N, I_), F("MAXHI", N, I_)
        self.INV, self.ORDT, self.EX = F("INV", N, Bo), F("ORDT", N, Bo), F("EX", N, V, Bo)
        self.W, self.WO, self.WH = F("W", N, V, V), F("WO", N, V), F("WH", N, V)
        self.body = {"CNT": self.b_cnt, "SIZE": self.b_size, "MAXLO": self.b_maxlo, "MINLO": self.b_minlo, "MAXHI": self.b_maxhi,
                     "INV": self.b_inv, "ORDT": self.b_ordt, "EX": self.b_ex, "W": self.b_w, "WO": self.b_wo, "WH": self.b_wh}
        self.fn = {f.name(): (f, self.body[f.name().split("<")[0]]) for f in
                   (self.CNT, self.SIZE, self.MAXLO, self.MINLO, self.MAXHI, self.INV, self.ORDT, self.EX, self.W, self.WO, self.WH)}
        self.x, self.d, self.q = (u.const(n, V) for n in "xdq")
        self.xs, self.qs = [self.x, self.d], [self.q]
        self.lemmas_on = lemmas
        self.memo = {}
        self.nonneg = nonneg
        u.s.axioms.append(self.gen)
        VEC_ = p.vecsort(V)
        self.VCNT = z3.Function("VCNT", VEC_, V, I_)
        self.VALL = z3.Function("VALL", VEC_, Bo)
        self.VORD = z3.Function("VORD", VEC_, Bo)
        self.BL, self.BM, self.BH = (u.const(n, I_) for n in ("BL", "BM", "BH"))
        self.kloc = None
        self.f = None
        u.vecf = self.vecfact
        p.seen_through = {self.nty}
        WORK = self.WORK = p.vecsort(N)
        self.SEX, self.SCNT = z3.Function("SEX", WORK, V, Bo), z3.Function("SCNT", WORK, V, I_)
        self.SSIZE = z3.Function("SSIZE", WORK, I_)
        self.SINV, self.SORDT, self.SIN = (z3.Function(n, WORK, Bo) for n in ("SINV", "SORDT", "SIN"))
        u.work_loop = self.work_loop
        u.cell_hints.append(self.grown)
        u.vague = True
        u.hooks += [lo_hi_hook(u), ext_hook(u), self.hook]
        u.user_fx = self.callback

    # ---------------------------------------------------------------- pieces of a node
    def lo(self, v):
        return bi.rank(self.ex, lo_term(self.u, v, self.B))

    def hi(self, v):
        return bi.rank(self.ex, hi_term(self.u, v, self.B))

    def ordered(self, v):
        return self.lo(v) <= self.hi(v)

    def ov(self, a, b):
        return z3.And(self.lo(a) <= self.hi(b), self.lo(b) <= self.hi(a))

    def part(self, t, i):
        return self.p.acc(self.nty, 0, i, t)

    def val(self, t): return self.part(t, self.iv)
    def mx(self, t): return self.part(t, self.im)
    def left(self, t): return self.part(t, self.il)
    def right(self, t): return self.part(t, self.ir)

    def some(self, o):
        return z3.simplify(self.O.recognizer(1)(o))

    def get(self, o):
        return z3.simplify(self.O.accessor(1, 0)(o))

    def o(self, f, o, none, *a):
        """a function of an optional tree"""
        s = self.some(o)
        if z3.is_false(s):
            return none
        r = f(self.get(o), *a)
        return r if z3.is_true(s) else z3.If(s, r, none)

    def kids(self, t):
        return [k for k in (self.left(t), self.right(t)) if not z3.is_false(self.some(k))]

    def b_cnt(self, t, x):
        return z3.If(self.val(t) == x, I(1), I(0)) + self.o(self.CNT, self.left(t), I(0), x) + self.o(self.CNT, self.right(t), I(0), x)

    def b_size(self, t):
        return 1 + self.o(self.SIZE, self.left(t), I(0)) + self.o(self.SIZE, self.right(t), I(0))

    def best(self, f, own, t, less):
        r = own
        for k in self.kids(t):
            y = f(self.get(k))
            r = z3.If(z3.And(self.some(k), less(r, y)), y, r)
        return r

    def b_maxlo(self, t): return self.best(self.MAXLO, self.lo(self.val(t)), t, lambda a, b: a < b)
    def b_minlo(self, t): return self.best(self.MINLO, self.lo(self.val(t)), t, lambda a, b: a > b)
    def b_maxhi(self, t): return self.best(self.MAXHI, self.hi(self.val(t)), t, lambda a, b: a < b)

    def b_inv(self, t):
        l, r, lo = self.left(t), self.right(t), self.lo(self.val(t))
        return z3.And(self.o(self.INV, l, z3.BoolVal(True)), self.o(self.INV, r, z3.BoolVal(True)),
                      bi.rank(self.ex, self.mx(t)) == self.b_maxhi(t),
                      self.o(lambda y: self.MAXLO(y) < lo, l, z3.BoolVal(True)), self.o(lambda y: self.MINLO(y) >= lo, r, z3.BoolVal(True)))

    def b_ordt(self, t):
        return z3.And(self.ordered(self.val(t)), self.o(self.ORDT, self.left(t), z3.BoolVal(True)), self.o(self.ORDT, self.right(t), z3.BoolVal(True)))

    def b_ex(self, t, q):
        return z3.Or(self.ov(self.val(t), q), self.o(self.EX, self.left(t), z3.BoolVal(False), q), self.o(self.EX, self.right(t), z3.BoolVal(False), q))

    def b_w(self, t, q):
        l, r = self.left(t), self.right(t)
        v = self.val(t)
        return z3.If(self.ov(v, q), v, z3.If(self.o(self.EX, l, z3.BoolVal(False), q), self.o(self.W, l, v, q), self.o(self.W, r, v, q)))

    def b_wo(self, t):
        l, r = self.left(t), self.right(t)
        v = self.val(t)
        return z3.If(z3.Not(self.ordered(v)), v, z3.If(z3.Not(self.o(self.ORDT, l, z3.BoolVal(True))), self.o(self.WO, l, v), self.o(self.WO, r, v)))

    def b_wh(self, t):
        l, r = self.left(t), self.right(t)
        v = self.val(t)
        m = self.b_maxhi(t)
        reached = self.o(lambda k: self.MAXHI(k) == m, l, z3.BoolVal(False))
        return z3.If(self.hi(v) == m, v, z3.If(reached, self.o(self.WH, l, v), self.o(self.WH, r, v)))

    # ---------------------------------------------------------------- explicit instantiation
    def unfold(self, f, body, args):
        return f(*args) == body(*args)

    def is_mk(self, t):
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR

    def gen(self, e):
        i = e.get_id()
        if i not in self.memo:
            self.memo[i] = (e, list(self.gen1(e)))
        return self.memo[i][1]

    def gen1(self, e):
        if not z3.is_app(e) or e.num_args() == 0:
            return
        n = e.decl().name()
        if n in self.fn:
            f, body = self.fn[n]
            t, rest = e.arg(0), [e.arg(i) for i in range(1, e.num_args())]
            if self.is_mk(t):
                yield e == body(t, *rest)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                yield e == z3.If(t.arg(0), f(t.arg(1), *rest), f(t.arg(2), *rest))
                return
            if self.nonneg and f is self.CNT:
                yield e >= 0
            if self.lemmas_on:
                for _, l in self.lemmas(t):
                    yield l
        elif e.decl().kind() == z3.Z3_OP_DT_ACCESSOR and e.arg(0).sort() == self.N and not self.is_mk(e.arg(0)):
            t = e.arg(0)
            for f, body in self.fn.values():
                if f in (self.W, self.WO, self.WH) and self.lemmas_on:
                    continue
                for a in ([self.xs, self.qs][f in (self.EX, self.W)] if f.arity() == 2 else [None]):
                    yield self.unfold(f, body, [t] + ([a] if a is not None else []))
        elif n == "VCNT":
            yield e >= 0
            yield z3.Implies(self.p.vec_len(e.arg(0)) <= 0, e == 0)
        elif n in ("SCNT", "SSIZE"):
            yield e >= 0
            yield z3.Implies(self.p.vec_len(e.arg(0)) <= 0, e == 0)
        elif n == "SEX":
            yield z3.Implies(self.p.vec_len(e.arg(0)) <= 0, z3.Not(e))
        elif n in ("VALL", "VORD", "SINV", "SORDT", "SIN"):
            yield z3.Implies(self.p.vec_len(e.arg(0)) <= 0, e)

    def lemmas(self, t):
        """facts about every tree, proved by structural induction in the lemma unit"""
        yield "a tree is not empty", self.SIZE(t) >= 1
        yield "lower limits are bounded both ways", self.MINLO(t) <= self.MAXLO(t)
        for x in self.xs:
            c = self.CNT(t, x)
            yield "stored intervals lie within the bounds", z3.Implies(c > 0, z3.And(self.MINLO(t) <= self.lo(x), self.lo(x) <= self.MAXLO(t), self.hi(x) <= self.MAXHI(t)))
            yield "stored intervals are ordered", z3.Implies(z3.And(c > 0, self.ORDT(t)), self.ordered(x))
        for q in self.qs:
            e = self.EX(t, q)
            yield "no overlap below a reaching maximum means everything stored starts after", z3.Implies(
                z3.And(self.ORDT(t), self.ordered(q), z3.Not(e), self.MAXHI(t) >= self.lo(q)), self.MAXLO(t) > self.hi(q))
            yield "nothing that starts after the query overlaps", z3.Implies(self.MINLO(t) > self.hi(q), z3.Not(e))
            yield "nothing that ends before the query overlaps", z3.Implies(self.MAXHI(t) < self.lo(q), z3.Not(e))
            for x in self.xs:
                yield "a stored interval that overlaps means something overlaps", z3.Implies(z3.And(self.CNT(t, x) > 0, self.ov(x, q)), e)

    def witness(self, t):
        q = self.q
        w = self.W(t, q)
        yield "something overlaps means a stored interval overlaps", z3.Implies(self.EX(t, q), z3.And(self.CNT(t, w) > 0, self.ov(w, q)))
        w = self.WO(t)
        yield "a tree is ordered unless a stored interval is not", z3.Implies(z3.Not(self.ORDT(t)), z3.And(self.CNT(t, w) > 0, z3.Not(self.ordered(w))))
        yield self.top(t)

    def top(self, t):
        w = self.WH(t)
        return "the greatest upper limit is that of a stored interval", z3.And(self.CNT(t, w) > 0, self.hi(w) == self.MAXHI(t))

    # ---------------------------------------------------------------- vectors of intervals
    def all_in(self, v):
        return z3.And(self.lo(v) <= self.BL, self.lo(v) >= self.BM, self.hi(v) <= self.BH)

    def tree_in(self, t):
        return z3.And(self.MAXLO(t) <= self.BL, self.MINLO(t) >= self.BM, self.MAXHI(t) <= self.BH)

    def vecfact(self, ex, st, kind, *a):
        if all(z3.is_expr(y) for y in a) and a[0].sort() == self.WORK:
            sums = [(lambda w, x=x: self.SCNT(w, x), lambda t, x=x: self.CNT(t, x)) for x in self.xs] + [(self.SSIZE, self.SIZE)]
            alls = [(self.SINV, self.INV), (self.SORDT, self.ORDT), (self.SIN, self.tree_in)]
            anys = [(lambda w, q=q: self.SEX(w, q), lambda t, q=q: self.EX(t, q)) for q in self.qs]
            if kind == "empty":
                st.assume(*[F(a[0]) == 0 for F, _ in sums], *[F(a[0]) for F, _ in alls], *[z3.Not(F(a[0])) for F, _ in anys])
            elif kind in ("push", "remove"):
                big, small, y = (a[0], a[1], a[2]) if kind == "push" else (a[1], a[0], a[2])
                st.assume(*[F(big) == F(small) + f(y) for F, f in sums], *[F(big) == z3.And(F(small), f(y)) for F, f in alls],
                          *[F(big) == z3.Or(F(small), f(y)) for F, f in anys])
            elif kind == "split":
                st.assume(*[F(a[0]) == F(a[1]) + F(a[2]) for F, _ in sums], *[F(a[0]) == z3.And(F(a[1]), F(a[2])) for F, _ in alls],
                          *[F(a[0]) == z3.Or(F(a[1]), F(a[2])) for F, _ in anys])
            return
        if not all(z3.is_expr(y) for y in a) or a[0].sort() != self.p.vecsort(self.V):
            return
        preds = [(self.VALL, self.all_in), (self.VORD, self.ordered)]
        if kind == "empty":
            st.assume(*[self.VCNT(a[0], x) == 0 for x in self.xs])
            st.assume(*[P(a[0]) for P, _ in preds])
        elif kind in ("push", "remove"):
            big, small, y = (a[0], a[1], a[2]) if kind == "push" else (a[1], a[0], a[2])
            st.assume(*[self.VCNT(big, x) == self.VCNT(small, x) + z3.If(x == y, I(1), I(0)) for x in self.xs])
            st.assume(*[P(big) == z3.And(P(small), f(y)) for P, f in preds])
        elif kind == "split":
            st.assume(*[self.VCNT(a[0], x) == self.VCNT(a[1], x) + self.VCNT(a[2], x) for x in self.xs])
            st.assume(*[P(a[0]) == z3.And(P(a[1]), P(a[2])) for P, _ in preds])

    def grown(self, ex, st, it, addr, old):
        """a tree to which a loop adds the intervals of a vector one after the other"""
        try:
            t0 = ex.lower(st, old)
        except Unsupported:
            return None
        src = bi.it_base(it)
        if t0.sort() != self.N or src.kind != "seq" or src.p["mode"] not in ("val", "ref") or bi.conc(src.p["lo"]) != 0:
            return None
        w = src.p["vec"] if src.p["mode"] == "val" else ex.load(st, src.p["base"].addr()).t
        if w.sort() != self.p.vecsort(self.V):
            return None
        mk = lambda i: self.p.vec_mk(self.p.vec_arr(w), z3.simplify(i))

        def facts(s, v, c):
            t, a = ex.lower(s, v), mk(c)
            if z3.is_add(c):
                self.vecfact(ex, s, "push", a, mk(c - 1), z3.simplify(z3.Select(self.p.vec_arr(w), c - 1)))
            elif conc(c) == 0:
                self.vecfact(ex, s, "empty", a)
            s.assume(*[self.VCNT(a, x) >= 0 for x in self.xs])
            return [("the tree holds what it held and the intervals passed", z3.And(*[self.CNT(t, x) == self.CNT(t0, x) + self.VCNT(a, x) for x in self.xs])),
                    ("the tree stays in order", self.INV(t)),
                    ("bounds", z3.Implies(z3.And(self.tree_in(t0), self.VALL(a)), self.tree_in(t))),
                    ("ordered intervals", z3.Implies(z3.And(self.ORDT(t0), self.VORD(a)), self.ORDT(t)))]
        return {"fresh": lambda s: Sym(old.ty if isinstance(old, (Sym, BoxV)) else self.nty, self.u.const("grown", self.N)), "facts": facts}

    # ---------------------------------------------------------------- loops over trees still to be looked at
    def pending(self, ty):
        """the kind of variable that holds subtrees: one, perhaps one, or many"""
        p = self.p
        T = p.T
        one = lambda t: p.unbox(T[t]["elem"] if T[t]["k"] == "ref" and not T[t].get("mut") else t) == self.nty
        if one(ty):
            return "one"
        if T[ty]["k"] == "adt" and T[ty]["path"] == OPTION and one(T[ty]["args"][0]):
            return "perhaps"
        if T[ty]["k"] == "adt" and T[ty]["path"] in VECS and one(T[ty]["args"][0]):
            return "many"
        return None

    def fresh_pending(self, st, ty):
        p = self.p
        k = self.pending(ty)
        if k == "many":
            w = self.u.const("todo", self.WORK)
            st.assume(p.vec_len(w) >= 0)
            return Sym(ty, w)
        if k == "perhaps":
            tag = self.u.const("left", z3.IntSort())
            st.assume(tag >= 0, tag <= 1)
            return Alt(ty, tag, {0: Agg(ty, 0, ()), 1: Agg(ty, 1, (self.fresh_pending(st, p.T[ty]["args"][0]),))})
        t = self.u.const("subtree", self.N)
        return Ref(st.new(Sym(p.T[ty]["elem"], t))) if p.T[ty]["k"] == "ref" else Sym(ty, t)

    def over(self, st, ty, v, one, many, none, add):
        """a function of all the subtrees a variable holds"""
        k = self.pending(ty)
        if k == "many":
            return many(self.ex.lower(st, v))
        if k == "perhaps":
            if isinstance(v, Alt):
                return z3.If(v.tag == 1, self.over(st, ty, v.alts[1], one, many, none, add), none)
            if isinstance(v, Sym):
                o = v.t
                return z3.If(o.sort().recognizer(1)(o), one(o.sort().accessor(1, 0)(o)), none)
            return none if v.v == 0 else one(self.ex.lower(st, v.f[0]))
        return one(self.ex.lower(st, v))

    def work_loop(self, ex, st, fr, h, active):
        """a loop which takes trees apart until none is left: what is found, counted or listed together with what the
        trees still held would give stays what it was when the loop began"""
        import loops
        from execu import NOT_DRIVEN
        u, p = self.u, self.p
        if u.small is not None:
            raise Unsupported(NOT_DRIVEN)
        live = ex.cfg(fr.body).live[h]
        tys = {fr.lm[n]: t for n, t in enumerate(fr.body["locals"])}
        dead = {fr.lm[x] for x in range(len(fr.lm)) if x not in live}
        where = "%s loop" % fr.inst["name"]

        def type_of(s, loc):
            if loc in tys:
                return tys[loc]
            return getattr(s.heap[loc], "ty", None)

        def havoc(s, cells):
            for loc in sorted(cells):
                ty = type_of(s, loc)
                v = s.heap[loc]
                if ty is not None and ty >= 0 and self.pending(ty):
                    s.heap[loc] = self.fresh_pending(s, ty)
                elif isinstance(v, Sym) and v.t.sort() in (z3.IntSort(), z3.BoolSort(), p.vecsort(self.V)):
                    s.heap[loc] = Sym(v.ty, u.const("acc", v.t.sort()))
                    if v.t.sort() == p.vecsort(self.V):
                        s.assume(p.vec_len(s.heap[loc].t) >= 0)
                    elif loc != self.kloc and p.T[v.ty]["k"] in ("int", "uint"):
                        from execu import rng
                        lo, hi = rng(p.T[v.ty])
                        s.assume(s.heap[loc].t >= lo, s.heap[loc].t <= hi)
                else:
                    raise Unsupported(NOT_DRIVEN)
        cells = set()
        obs = len(ex.s.obs)
        for _ in range(5):
            hd = st.clone()
            havoc(hd, cells)
            more = set()
            for r in ex.blocks_from(hd.clone(), fr, h, active + (h,)):
                if r[0] == "back" and r[2] == h and ex.s.feasible(r[1].pc):
                    more |= {l for l, _ in loops.changed(ex, hd, r[1], dead)}
            del ex.s.obs[obs:]
            if more <= cells:
                break
            cells |= more
        else:
            raise Unsupported(NOT_DRIVEN)
        hold = [l for l in sorted(cells) if type_of(st, l) is not None and self.pending(type_of(st, l))]
        accs = [l for l in sorted(cells) if l not in hold]
        if not hold:
            raise Unsupported(NOT_DRIVEN)

        def all_(s, one, many, none, add):
            r = none
            for l in hold:
                r = add(r, self.over(s, type_of(s, l), s.heap[l], one, many, none, add))
            return r
        plus = lambda a, b: a + b
        true = z3.BoolVal(True)
        size = lambda s: all_(s, self.SIZE, self.SSIZE, I(0), plus)
        cnt = lambda s, x: all_(s, lambda t: self.CNT(t, x), lambda w: self.SCNT(w, x), I(0), plus)
        some = lambda s: all_(s, lambda t: self.EX(t, self.q), lambda w: self.SEX(w, self.q), z3.BoolVal(False), z3.Or)
        good = [("in order", lambda s: all_(s, self.INV, self.SINV, true, z3.And)), ("ordered", lambda s: all_(s, self.ORDT, self.SORDT, true, z3.And))]
        within = lambda s: all_(s, self.tree_in, self.SIN, true, z3.And)
        facts = [(n, lambda a, b, f=f: z3.Implies(f(a), f(b))) for n, f in good]
        flags = [l for l in accs if isinstance(st.heap[l], Sym) and st.heap[l].t.sort() == z3.BoolSort()]
        for l in accs:
            v = st.heap[l]
            if l == self.kloc:
                vis = lambda s, l=l: s.heap[l].t + z3.If(self.ov(self.x, self.q), cnt(s, self.x), I(0))
                facts.append(("visited and to be visited", lambda a, b, f=vis: f(a) == f(b)))
            elif v.t.sort() == z3.IntSort():
                num = lambda s, l=l: s.heap[l].t + size(s)
                facts.append(("counted and to be counted", lambda a, b, f=num: f(a) == f(b)))
            elif v.t.sort() == p.vecsort(self.V):
                for x in self.xs:
                    lst = lambda s, l=l, x=x: self.VCNT(s.heap[l].t, x) + cnt(s, x)
                    facts.append(("listed and to be listed", lambda a, b, f=lst: f(a) == f(b)))
                num = lambda s, l=l: p.vec_len(s.heap[l].t) + size(s)
                facts.append(("as many listed and to be listed", lambda a, b, f=num: f(a) == f(b)))
                facts.append(("bounds", lambda a, b, l=l: z3.Implies(z3.And(within(a), self.VALL(a.heap[l].t)), z3.And(within(b), self.VALL(b.heap[l].t)))))
                facts.append(("ordered intervals", lambda a, b, l=l: z3.Implies(z3.And(good[1][1](a), self.VORD(a.heap[l].t)), self.VORD(b.heap[l].t))))
        if not [l for l in accs if l not in flags]:
            found = lambda s: z3.Or(*[s.heap[l].t for l in flags], some(s))
            facts.append(("found and to be found", lambda a, b: found(a) == found(b)))
        elif flags:
            raise Unsupported(NOT_DRIVEN)
        hd = st.clone()
        havoc(hd, cells)
        for _, f in facts:
            hd.assume(f(st, hd))
        base = hd.clone()
        for r in ex.blocks_from(hd, fr, h, active + (h,)):
            if r[0] == "back" and r[2] == h:
                s2 = r[1]
                for n, f in facts:
                    u.prove("%s step: %s" % (where, n), s2, f(st, s2))
                u.prove("%s step: less is left" % where, s2, z3.And(size(s2) >= 0, size(s2) < size(base)))
                ex.frame_check(base, s2, {"cells": []}, dead | cells)
            else:
                yield r

    def fresh_vec(self, st, ty):
        c = self.u.const("vec", self.p.sort(ty))
        st.assume(self.p.vec_len(c) >= 0)
        return c

    # ---------------------------------------------------------------- the contracts
    def shape(self, ty):
        p = self.p
        t = p.T[ty]
        if t["k"] == "ref":
            return ("&mut " if t.get("mut") else "&") + self.shape(t["elem"])
        if ty == self.nty:
            return "N"
        if t["k"] == "adt" and t["path"] == BOX and t["args"][0] == self.nty:
            return "Box"
        if t["k"] == "adt" and t["path"] == OPTION and p.unbox(t["args"][0]) == self.nty:
            return "Opt"
        if t["s"] == p.T[self.vty]["s"]:
            return "V"
        if t["k"] == "adt" and t["path"] == VEC and p.T[t["args"][0]]["s"] == p.T[self.vty]["s"]:
            return "Vec"
        if t["k"] == "param":
            return "F"
        return t["s"]

    def sig(self, inst):
        b = inst["body"]
        return "%s -> %s" % (",".join(self.shape(a) for a in b["locals"][1:1 + b["argc"]]), self.shape(b["locals"][0]))

    def role(self, inst):
        """the contract a function on nodes has, by what it takes and gives"""
        if inst["body"] is None or not inst.get("local") or inst["trait"] not in (None,) or "{closure" in inst["path"] or "::tree::" in inst["path"]:
            return None
        s = self.sig(inst).replace("&mut F", "F")
        r = ROLES.get(s)
        if r and (inst["name"] in NAMES or recursive(self.u.v, inst["path"])):
            return r
        return None

    def measure(self, role, a):
        return self.p.vec_len(a[1]) if role == "build" else self.SIZE(a[0]) + self.SIZE(a[1]) if role == "join" else self.SIZE(a[0])

    def pre(self, role, a, inst):
        if role in ("query", "visit"):
            return [("the tree is in order", self.INV(a[0])), ("the stored intervals are ordered", self.ORDT(a[0])), ("the query is ordered", self.ordered(a[1]))]
        if role in ("insert", "delete", "build"):
            return [("the tree is in order", self.INV(a[0]))]
        if role == "join":
            return [("the left tree is in order", self.INV(a[0])), ("the right tree is in order", self.INV(a[1])),
                    # a join that descends into both trees keeps their order, one that inserts needs none
                    ] + ([("the left tree lies below the right one", self.MAXLO(a[0]) < self.MINLO(a[1]))] if recursive(self.u.v, inst["path"]) else [])
        return []

    def bounds_sum(self, res, parts):
        """the bounds of res are those of the parts together"""
        lo, mi, hi = parts[0]
        for l, m, h in parts[1:]:
            lo, mi, hi = z3.If(l > lo, l, lo), z3.If(m < mi, m, mi), z3.If(h > hi, h, hi)
        return lo, mi, hi

    def bnds(self, t):
        return self.MAXLO(t), self.MINLO(t), self.MAXHI(t)

    def post(self, role, a, r):
        """[(name, formula)] about a result; for the roles with a result term"""
        n = a[0]
        one = lambda x, y: z3.If(x == y, I(1), I(0))
        if role == "new":
            yield "stores exactly the given interval", z3.And(*[self.CNT(r, x) == one(x, n) for x in self.xs])
            yield "the tree is in order", self.INV(r)
            yield "bounds", z3.And(self.MAXLO(r) == self.lo(n), self.MINLO(r) == self.lo(n), self.MAXHI(r) == self.hi(n))
            yield "ordered intervals", self.ORDT(r) == self.ordered(n)
        elif role == "query":
            yield "true exactly when a stored interval overlaps", r == self.EX(n, a[1])
        elif role == "count":
            yield "capacity step: counts the stored intervals", r == self.SIZE(n)
        elif role == "insert":
            lo, mi, hi = self.bounds_sum(r, [self.bnds(n), (self.lo(a[1]), self.lo(a[1]), self.hi(a[1]))])
            yield "adds exactly the given interval", z3.And(*[self.CNT(r, x) == self.CNT(n, x) + one(x, a[1]) for x in self.xs])
            yield "the tree stays in order", self.INV(r)
            yield "bounds", z3.And(self.MAXLO(r) == lo, self.MINLO(r) == mi, self.MAXHI(r) == hi)
            yield "ordered intervals", self.ORDT(r) == z3.And(self.ORDT(n), self.ordered(a[1]))
        elif role == "delete":
            d = a[1]
            yield "removes one copy if stored and nothing else", z3.And(*[
                self.o(self.CNT, r, I(0), x) == self.CNT(n, x) - z3.If(z3.And(x == d, self.CNT(n, d) > 0), I(1), I(0)) for x in self.xs])
            yield "the tree stays in order", self.o(self.INV, r, z3.BoolVal(True))
            yield "bounds do not grow", self.o(lambda y: z3.And(self.MAXLO(y) <= self.MAXLO(n), self.MINLO(y) >= self.MINLO(n), self.MAXHI(y) <= self.MAXHI(n)), r, z3.BoolVal(True))
            yield "ordered intervals", z3.Implies(self.ORDT(n), self.o(self.ORDT, r, z3.BoolVal(True)))
            yield "a greater upper limit than that of the interval stays", z3.Implies(self.hi(d) != self.MAXHI(n), self.o(lambda y: self.MAXHI(y) == self.MAXHI(n), r, z3.BoolVal(False)))
        elif role == "join":
            lo, mi, hi = self.bounds_sum(r, [self.bnds(n), self.bnds(a[1])])
            yield "stores exactly what both sides store", z3.And(*[self.CNT(r, x) == self.CNT(n, x) + self.CNT(a[1], x) for x in self.xs])
            yield "the tree is in order", self.INV(r)
            yield "bounds", z3.And(self.MAXLO(r) <= lo, self.MINLO(r) >= mi, self.MAXHI(r) == hi)
            yield "ordered intervals", z3.Implies(z3.And(self.ORDT(n), self.ORDT(a[1])), self.ORDT(r))
        elif role == "build":
            yield "adds exactly the intervals of the vector", z3.And(*[self.CNT(r, x) == self.CNT(n, x) + self.VCNT(a[1], x) for x in self.xs])
            yield "the tree stays in order", self.INV(r)
            yield "bounds", z3.Implies(z3.And(self.tree_in(n), self.VALL(a[1])), self.tree_in(r))
            yield "ordered intervals", z3.Implies(z3.And(self.ORDT(n), self.VORD(a[1])), self.ORDT(r))
        elif role in ("list", "append"):
            w = a[1] if role == "append" else None
            yield "lists exactly the stored intervals", z3.And(*[self.VCNT(r, x) == self.CNT(n, x) + (self.VCNT(w, x) if w is not None else 0) for x in self.xs])
            yield "bounds", z3.Implies(z3.And(self.tree_in(n), *([self.VALL(w)] if w is not None else [])), self.VALL(r))
            yield "ordered intervals", z3.Implies(z3.And(self.ORDT(n), *([self.VORD(w)] if w is not None else [])), self.VORD(r))
            yield "as many as are stored", self.p.vec_len(r) == self.SIZE(n) + (self.p.vec_len(w) if w is not None else 0)

    # ---------------------------------------------------------------- calls, by contract
    def terms(self, ex, st, role, args):
        return [ex.lower(st, bi.through(ex, st, y)) for y in (args[:2] if role == "visit" else args)]

    def hook(self, ex, st, fn, args, dty, stack):
        key = fn.get("key")
        if key not in ex.insts or ex is not self.ex:
            return None
        inst = ex.insts[key]
        role = self.role(inst)
        if role is None or role == "new":
            return None
        u = self.u
        a = self.terms(ex, st, role, args)
        self.now = st
        for name, g in self.pre(role, a, inst):
            # what join asks for is a matter of how it is written, not of what is promised
            u.prove("call of %s%s: %s" % (inst["name"], " step" if role == "join" else "", name), st, g)
        if self.me and reaches(u.v, inst["path"], self.me["path"]):
            if (role == "build") != (self.my_role == "build"):
                raise Unsupported("recursion through functions with different measures")
            u.prove("recursion ends: the argument is smaller", st, z3.And(self.measure(role, a) >= 0, self.measure(role, a) < self.measure(self.my_role, self.my_args)))
        if role == "visit":
            self.same_callback(st, args[2])
            k = ex.load(st, (self.kloc, ())).t
            ex.store(st, (self.kloc, ()), ex.mk_int(k + self.visits(a[0], a[1])))
            return [("ret", st, ex.unit_val())]
        if role == "append":
            addr = bi.deep_addr(ex, st, args[1])[0]
            old = ex.load(st, addr)
            r = self.fresh_vec(st, old.ty)
            ex.store(st, addr, Sym(old.ty, r))
            st.assume(*[g for _, g in self.post(role, a, r)])
            return [("ret", st, ex.unit_val())]
        if role == "list":
            r = self.fresh_vec(st, dty)
        else:
            r = u.const(role, self.p.sort(dty))
        st.assume(*[g for _, g in self.post(role, a, r)])
        if role == "count":
            self.fits(st, a[0])
        return [("ret", st, Sym(dty, r))]

    def fits(self, st, n):
        """every node holds two pointers, 16 bytes, of an address space of 2^64"""
        st.assume(self.SIZE(n) <= 1 << 60)
        self.ex.assumed["a tree has at most 2^60 nodes: each takes at least 16 bytes of a 64 bit address space"] = 1

    def visits(self, n, q):
        return z3.If(self.ov(self.x, q), self.CNT(n, self.x), I(0))

    def same_callback(self, st, f):
        f = bi.through(self.ex, st, f)
        if not (isinstance(f, Sym) and self.f is not None and f.t.eq(self.f.t)):
            raise Unsupported("another callback is passed on")

    def callback(self, ex, st, f, args, dty, stack):
        self.same_callback(st, f)
        y = ex.lower(st, bi.through(ex, st, args[0]))
        k = ex.load(st, (self.kloc, ())).t
        ex.store(st, (self.kloc, ()), ex.mk_int(z3.simplify(k + z3.If(y == self.x, I(1), I(0)))))
        ex.assumed["the callback given to an enumeration returns"] = 1
        return [("ret", st, Agg(dty, 0, ()))]


ROLES = {"&N,&V -> bool": "query", "&N,&V,F -> ()": "visit", "Box,V -> Box": "insert", "Box,&V -> Opt": "delete", "Box -> Vec": "list",
         "Box,&mut Vec -> ()": "append", "Box,Box -> Box": "join", "Box,Vec -> Box": "build", "&N -> usize": "count", "V -> N": "new"}
NAMES = ("intersects", "for_each_intersection", "insert", "delete", "into_inorder", "join", "count", "new")


def graph(v):
    """calls between the functions of the crate, by path"""
    p = v.prog("interval")
    if not hasattr(p, "callgraph"):
        g = {}
        paths = set()
        for r in p.roots:
            for i in r["insts"].values():
                if i.get("local"):
                    paths.add(i["path"])
        for r in p.roots:
            for i in r["insts"].values():
                if i.get("local") and i["body"]:
                    ks = set(re.findall(r'"path": "([^"]*)"', json.dumps(i["body"]))) | set(re.findall(r'"key": "([^"]*)"', json.dumps(i["body"])))
                    g.setdefault(i["path"], set()).update(k for k in ks if k in paths)
                    # closures are called by whoever builds them
                    g[i["path"]].update(q for q in paths if q.startswith(i["path"] + "::{closure"))
        p.callgraph = g
    return p.callgraph


def reaches(v, a, b):
    g = graph(v)
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += g.get(x, ())
    return False


def recursive(v, path):
    return any(reaches(v, k, path) for k in graph(v).get(path, ()))


# -------------------------------------------------------------------------------------------------- units

def lemma_units(v):
    def anchor(u, **kw):
        c = u.v.prog("interval").find("insert", NODE)
        if len(c) != 1:
            raise Unsupported("anchor lost: insert of the node")
        u.use(u.v.prog("interval"), *c[0])
        u.functions.clear()
        return Tree(u, lemmas=False, **kw)

    def node(T, u):
        # an arbitrary node, with arbitrary children
        v, m = u.const("v", T.V), u.const("m", T.B)
        l, r = u.const("l", T.O), u.const("r", T.O)
        f = [None] * 4
        f[T.iv], f[T.im], f[T.il], f[T.ir] = v, m, l, r
        t = z3.simplify(T.p.ctor(T.nty, 0, f))
        return t, [l, r]

    def nonneg(u):
        T = anchor(u, nonneg=False)
        t, ks = node(T, u)
        hyp = [z3.Implies(T.some(k), T.CNT(T.get(k), T.x) >= 0) for k in ks]
        u.prove("a number of copies is not negative", hyp, T.CNT(t, T.x) >= 0)

    def facts(u):
        T = anchor(u)
        t, ks = node(T, u)
        hyp = [z3.Implies(T.some(k), l) for k in ks for _, l in T.lemmas(T.get(k))]
        for name, l in T.lemmas(t):
            u.prove(name, hyp, l)

    def wit(u):
        T = anchor(u)
        t, ks = node(T, u)
        hyp = [z3.Implies(T.some(k), l) for k in ks for _, l in T.witness(T.get(k))]
        for name, l in T.witness(t):
            u.prove(name, hyp, l)
    v.unit("lemma copies", nonneg)
    v.unit("lemma trees", facts)
    v.unit("lemma witnesses", wit)


def node_units(v, roles):
    """every function on nodes that has one of these contracts"""
    p = v.prog("interval")
    n = 0
    for root in p.roots:
        inst = root["insts"][p.root_key(root)]
        if inst["body"] is None or not inst.get("local") or "{closure" in inst["path"] or inst["trait"] is not None or NODE.rsplit("::", 1)[0] not in inst["path"]:
            continue

        def unit(u, root=root, inst=inst):
            u.use(p, root, inst)
            T = Tree(u)
            role = T.role(inst)
            if role not in roles:
                u.skip = True
                raise Unsupported("no contract")
            if inst["name"] not in NAMES + ("immersion",):
                u.s.prefix += "inferred contract (step): "
            node_unit(u, T, inst, role)
        name = inst["path"].replace("interval::node::", "").replace("<Intv>", "").replace("::::", "::")
        u = v.unit(name, unit)
        if getattr(u, "skip", False):
            v.units.remove(u)
        else:
            n += 1
    for want, fn in (("intersects", "query"), ("for_each_intersection", "visit"), ("insert", "insert"), ("delete", "delete")):
        if fn in roles and not any(u.label.endswith("::" + want) for u in v.units):
            v.unit("IntervalSearchTreeNode::" + want, lambda u: (_ for _ in ()).throw(Unsupported("anchor lost: node function " + want)))


def node_unit(u, T, inst, role):
    p, ex = u.p, u.ex
    st = State()
    tys = u.arg_tys()
    a, args = [], []
    T.me, T.my_role = inst, role
    for n, ty in enumerate(tys):
        sh = T.shape(ty)
        if sh.endswith("F"):
            T.f = u.sym(p.T[ty]["elem"] if sh[0] == "&" else ty, "f")
            args.append(Ref(st.new(T.f)) if sh[0] == "&" else T.f)
            continue
        base = p.T[ty]["elem"] if sh[0] == "&" else ty
        t = u.const("arg%d" % n, p.sort(base))
        if n == 1 and role in ("insert", "delete"):
            t = T.d
        if n == 1 and role in ("query", "visit"):
            t = T.q
        if n == 0 and role == "new":
            t = T.d
        if sh.endswith("Vec"):
            st.assume(p.vec_len(t) >= 0)
        a.append(t)
        if sh[0] == "&":
            args.append(Ref(st.new(Sym(base, t))))
        else:
            args.append(Sym(ty, t))
    T.my_args = a
    for _, g in T.pre(role, a, inst):
        st.assume(g)
    if role == "delete":
        # one of the intervals that reach furthest (lemma)
        w = u.const("w", T.V)
        T.xs.append(w)
        st.assume(T.CNT(a[0], w) > 0, T.hi(w) == T.MAXHI(a[0]))
    if role == "join":
        lo, mi, hi = T.bounds_sum(None, [T.bnds(a[0]), T.bnds(a[1])])
        st.assume(T.BL == lo, T.BM == mi, T.BH == hi)
        # one of the intervals that reach furthest on either side (lemma)
        for y in a:
            w = u.const("w", T.V)
            T.xs.append(w)
            st.assume(T.CNT(y, w) > 0, T.hi(w) == T.MAXHI(y))
    if role == "delete":
        lo, mi, hi = T.bnds(a[0])
        st.assume(T.BL == lo, T.BM == mi, T.BH == hi)
    if role == "insert":
        lo, mi, hi = T.bounds_sum(None, [T.bnds(a[0]), (T.lo(a[1]), T.lo(a[1]), T.hi(a[1]))])
        st.assume(T.BL == lo, T.BM == mi, T.BH == hi)
    if role == "count":
        T.fits(st, a[0])
    T.kloc = st.new(ex.mk_int(I(0)))
    u.satisfiable(st)
    for s, r in u.returns(u.call(st, args)):
        if role == "visit":
            k = ex.load(s, (T.kloc, ())).t
            u.prove("called once for each stored copy of an interval that overlaps and for no other", s, k == T.visits(a[0], a[1]))
            u.prove("the tree is only read", s, ex.lower(s, ex.load(s, args[0].addr())) == a[0])
            continue
        if role == "append":
            r = ex.load(s, args[1].addr())
        t = ex.lower(s, r)
        for name, g in T.post(role, a, t):
            u.prove(name, s, g)


# -------------------------------------------------------------------------------------------------- the tree itself

class Top:
    def __init__(self, u, name, trait=None):
        self.u = u
        u.find("interval", name, TREE, trait)
        p = u.p
        self.T = T = Tree(u)
        T.me, T.my_role, T.my_args = None, None, None
        c = {p.T[t]["s"]: t for i in u.ex.insts.values() if i["body"] for x in i["body"]["locals"]
             for t in [x, p.T[x]["elem"] if p.T[x]["k"] == "ref" else x] if p.adt_path(t) == TREE}
        if len(c) != 1:
            raise Unsupported("tree type not recognised")
        self.ty = list(c.values())[0]
        self.i = u.fidx(self.ty, lambda f: p.adt_path(f) == OPTION and p.unbox(p.T[f]["args"][0]) == T.nty, "root of the tree")
        if len(p.fields(self.ty)) != 1:
            raise Unsupported("fields of the tree not recognised")
        self.st = st = State()
        self.root = u.const("root", T.O)
        self.tree = Agg(self.ty, 0, [Sym(p.fields(self.ty)[0], self.root)])
        st.assume(T.o(T.INV, self.root, z3.BoolVal(True)))

    def after(self, s, v):
        v = bi.through(self.u.ex, s, v)
        if isinstance(v, Sym):
            v = self.u.ex.expand(v, 0)
        return self.u.ex.lower(s, v.f[0])

    def inv(self, s, r):
        self.u.prove("the tree is in order", s, self.T.o(self.T.INV, r, z3.BoolVal(True)))

    def cnt(self, r, x):
        return self.T.o(self.T.CNT, r, I(0), x)

    def added(self, s, r):
        T, u = self.T, self.u
        one = lambda x: z3.If(x == T.d, I(1), I(0))
        u.prove("adds exactly the given interval", s, z3.And(*[self.cnt(r, x) == self.cnt(self.root, x) + one(x) for x in T.xs]))
        self.inv(s, r)
        u.prove("ordered intervals", s, T.o(T.ORDT, r, z3.BoolVal(True)) == z3.And(T.o(T.ORDT, self.root, z3.BoolVal(True)), T.ordered(T.d)))


def tree_default(u):
    t = Top(u, "default", "default::Default")
    for s, r in u.returns(u.call(State(), [])):
        x = t.after(s, r)
        u.prove("stores nothing", s, z3.And(t.cnt(x, t.T.x) == 0, z3.Not(t.T.some(x))))


def tree_insert(u):
    t = Top(u, "insert")
    h = t.st.new(t.tree)
    for s, r in u.returns(u.call(t.st, [Ref(h), Sym(t.T.vty, t.T.d)])):
        t.added(s, t.after(s, Ref(h)))


def tree_with(u):
    t = Top(u, "with_interval")
    for s, r in u.returns(u.call(t.st, [t.tree, Sym(t.T.vty, t.T.d)])):
        t.added(s, t.after(s, r))


def tree_delete(u):
    t = Top(u, "delete")
    T = t.T
    h = t.st.new(t.tree)
    for s, r in u.returns(u.call(t.st, [Ref(h), Ref(t.st.new(Sym(T.vty, T.d)))])):
        x = t.after(s, Ref(h))
        u.prove("removes one copy if stored and nothing else", s, z3.And(*[
            t.cnt(x, y) == t.cnt(t.root, y) - z3.If(z3.And(y == T.d, t.cnt(t.root, T.d) > 0), I(1), I(0)) for y in T.xs]))
        t.inv(s, x)
        u.prove("ordered intervals", s, z3.Implies(T.o(T.ORDT, t.root, z3.BoolVal(True)), T.o(T.ORDT, x, z3.BoolVal(True))))


def tree_query(u):
    t = Top(u, "intersects")
    T = t.T
    h = t.st.new(t.tree)
    t.st.assume(T.o(T.ORDT, t.root, z3.BoolVal(True)), T.ordered(T.q))
    for s, r in u.returns(u.call(t.st, [Ref(h), Ref(t.st.new(Sym(T.vty, T.q)))])):
        u.prove("true exactly when a stored interval overlaps", s, r.t == T.o(T.EX, t.root, z3.BoolVal(False), T.q))
        u.prove("the tree is only read", s, t.after(s, Ref(h)) == t.root)


def tree_visit(u):
    t = Top(u, "for_each_intersection")
    T = t.T
    st = t.st
    h = st.new(t.tree)
    st.assume(T.o(T.ORDT, t.root, z3.BoolVal(True)), T.ordered(T.q))
    T.kloc = st.new(u.ex.mk_int(I(0)))
    T.f = u.sym(u.arg_tys()[2], "f")
    for s, r in u.returns(u.call(st, [Ref(h), Ref(st.new(Sym(T.vty, T.q))), T.f])):
        k = u.ex.load(s, (T.kloc, ())).t
        u.prove("called once for each stored copy of an interval that overlaps and for no other", s,
                k == z3.If(T.ov(T.x, T.q), t.cnt(t.root, T.x), I(0)))
        u.prove("the tree is only read", s, t.after(s, Ref(h)) == t.root)


CHANGE = ("new", "insert", "delete", "join", "build", "list", "append", "count")


def change_units(v):
    lemma_units(v)
    node_units(v, CHANGE)
    v.unit("IntervalSearchTree::default", tree_default)
    v.unit("IntervalSearchTree::insert", tree_insert)
    v.unit("IntervalSearchTree::with_interval", tree_with)
    v.unit("IntervalSearchTree::delete", tree_delete)
