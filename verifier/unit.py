"""Contract units: one unit checks one function of the code under test against its contract."""
import re, time, traceback
import z3
from core import *
from execu import Exec, conc, I, trace_eq
import builtins_rs as bi

MAP = "alloc::collections::btree::map::BTreeMap"
VEC = "alloc::vec::Vec"
OPTION = "core::option::Option"
RESULT = "core::result::Result"
ARC = "alloc::rcs::arc::Arc"
LOCK = "std::sync::poison::rwlock::RwLock"
ONCE = "std::sync::once_lock::OnceLock"
AUX = re.compile(r" (init|step): ")
PHANTOM = "core::marker::PhantomData"
BOX = "alloc::boxed::Box"


class V:
    """everything one property check does"""

    def __init__(self, pid, dumps, tier="quick", keep_smt=False):
        self.pid, self.tier = pid, tier
        self.dumps = dumps
        self.progs = {}
        self.units = []
        self.keep_smt = keep_smt
        self.timeout = 20000 if tier == "quick" else 60000
        self.deadline = time.time() + 480     # for everything; a single unit gets at most unit_secs of it
        self.unit_secs = 150 if tier == "quick" else 300
        self.failed = []          # units which could not be decided: (label, reason)

    def prog(self, crate):
        if crate not in self.progs:
            js = self.dumps[crate]
            self.progs[crate] = Prog(js)
        return self.progs[crate]

    def unit(self, label, fn, *a, **kw):
        """runs fn(Unit) under the 'undecided, not alarmed' policy"""
        u = self.run(label, fn, None, a, kw)
        self.units.append(u)
        if u.sized and self.wants_small(u):
            self.small(u, label, fn, a, kw)
        if u.weak and u.vague and not u.sized:
            for o in u.s.obs:
                if o.status == "refuted":
                    o.status = "unknown"
                    o.detail = "the description of a loop may be too weak; " + o.detail
        if u.undecided and not u.small_refuted:
            self.partly(u, label, fn, a, kw)
        return u

    def partly(self, u, label, fn, a, kw):
        """A unit which could not be decided is gone through once more, leaving out the paths which cannot be followed
        (and those which stay in a loop without a contract for more than a few rounds). An obligation refuted on a
        complete path is refuted; nothing is ever taken as proved from these runs."""
        for k in (0, 1, 2) if u.sized else (None,):
            w = self.run(label, fn, k, a, kw, True)
            u.small_queries += w.s.queries
            if w.undecided or w.weak or any(o.status != "proved" and AUX.search(o.name) for o in w.s.obs):
                continue
            for o in w.s.obs:
                if o.status == "refuted":
                    o.name += " (paths that can be followed)"
                    u.small_refuted.append(o)
            if u.small_refuted:
                return

    def wants_small(self, u):
        st = {o.status for o in u.s.obs}
        return bool(u.undecided) or "unknown" in st or u.weak and "refuted" in st or any(
            o.status != "proved" and AUX.search(o.name) for o in u.s.obs)

    def small(self, u, label, fn, a, kw):
        """A counterexample of a unit whose loops were described only by what holds of the items passed over may owe
        itself to a lemma about all lengths which is missing. It counts if it is found again with logs of a fixed
        small length, where loops and specification functions unfold completely. The other way round, a unit whose
        loops could not be described may still be refuted there. Nothing is ever taken as proved from these runs."""
        found = []
        for k in range(3):
            w = self.run(label, fn, k, a, kw)
            u.small_queries += w.s.queries
            if not w.undecided and not any(o.status != "proved" and AUX.search(o.name) for o in w.s.obs):
                for o in w.s.obs:
                    if o.status == "refuted":
                        o.name += " (length %d)" % k
                        found.append(o)
        if found:
            u.small_refuted = found
        elif u.weak:
            for o in u.s.obs:
                if o.status == "refuted":
                    o.status = "unknown"
                    o.detail = "no counterexample of a small length; " + o.detail

    def run(self, label, fn, k, a, kw, partly=False):
        u = Unit(self, label)
        u.small, u.partly = k, partly
        t = time.time()
        u.s.deadline = min(self.deadline, t + (40 if partly or k is not None else self.unit_secs))
        try:
            fn(u, *a, **kw)
            if not u.s.obs:
                raise Unsupported("no obligation was generated")
        except Unsupported as e:
            u.undecided = "unsupported: " + str(e)
        except z3.Z3Exception as e:
            u.undecided = "solver: %s\n%s" % (e, traceback.format_exc(limit=-6))
        except RecursionError as e:
            u.undecided = "recursion too deep"
        except Exception as e:
            u.undecided = "internal: %s %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6))
        if u.extra:
            for o in u.s.obs:
                if o.status == "refuted":
                    o.status = "unknown"
                    o.detail = "may depend on an invariant of %s; %s" % (u.extra, o.detail)
        u.wall = time.time() - t
        return u


# what the fields of the types with a representation known to the contracts are
REPRESENTED = {"plotline::graph::Graph": "map", "plotline::schema::Schema": "lock",
               "plotline::schema::resource::ResourceSet": "map", "plotline::schema::trigger::TriggerSet": "map"}


class Unit:
    def __init__(self, v, label):
        self.v, self.label = v, label
        self.s = Solver(v.timeout, v.keep_smt)
        self.s.prefix = label + ": "
        self.undecided = None
        self.small = None         # fixed length of logs and the like, for confirming counterexamples
        self.sized = False        # does the unit have such lengths?
        self.extra = None         # field of such a value which the contracts do not know
        self.vague = False        # are there facts about what is passed over that need a lemma about all lengths?
        self.weak = False         # was a loop described only by what holds of the items passed over?
        self.partly = False       # may paths be left out? (then nothing is proved)
        self.cut = None           # why a path was left out
        self.attempting = 0       # depth of attempts at a loop contract
        self.small_refuted = []
        self.small_queries = 0
        self.wall = 0.0
        self.ex = None
        self.exs = []
        self.p = None
        self.dyn_seen, self.concats = {}, []
        self.loop_cells = {}
        self.hooks = []           # call hooks: (ex, st, fn, args, dty, stack) -> outcomes or None
        self.over = {}            # havoc overrides by type path
        self.user_fx = None       # effect of opaque callables
        self.loop_f = None
        self.cell_hints = []      # meaning of a changed cell as a function of the position: (ex, st, it, addr, value) -> fn or None
        self.lockop_f = None
        self.interfere_f = None
        self.functions = {}       # functions under contract: path -> span
        self.vecf = None
        self.work_loop = None
        self.arreqf = None
        self.dropf = None
        self.iterf = None
        self.trusted = []

    # -------------------------------------------------------------- anchoring
    def find(self, crate, name, self_=None, trait=None, path=None):
        p = self.v.prog(crate)
        r = p.find(name, self_, trait, path)
        if len(r) != 1:
            raise Unsupported("anchor lost: %d candidates for %s %s %s" % (len(r), self_, trait, name))
        return self.use(p, *r[0])

    def use(self, p, root, inst):
        self.p = p
        self.root, self.inst = root, inst
        self.key = p.root_key(root)
        self.ex = Exec(p, self.s, root, self)
        self.exs.append(self.ex)
        if bi.rank_axiom not in self.s.axioms:
            self.s.axioms += [bi.rank_axiom, bi.literal_axiom, bi.typeid_axiom(p)]
        self.functions[inst["path"]] = inst["span"]
        return self.ex

    def arg_tys(self):
        b = self.inst["body"]
        return b["locals"][1:1 + b["argc"]]

    def ret_ty(self):
        return self.inst["body"]["locals"][0]

    def call(self, st, args):
        """all outcomes of the function under contract from state st"""
        return list(self.ex.run_fn(st, self.key, args, ()))

    # -------------------------------------------------------------- obligations
    def prove(self, name, st, goal):
        return self.s.prove(name, st.pc if isinstance(st, State) else st, goal)

    def same(self, name, st, a, b):
        """a and b are the same value"""
        e = self.ex.eq_term(st, a, b)
        if e is None:
            # structurally different: refuted if the path is feasible
            if self.s.feasible(st.pc):
                self.s.fail(name, "%r is not %r" % (a, b))
                return False
            self.s.ok(name)
            return True
        return self.prove(name, st, e)

    def never(self, name, st, why=""):
        """this path must not exist"""
        if ("assert-panic", "a counter is full") in st.trace:
            # nothing counts to 2^64, and what keeps a counter of the program in its range is not inferred
            name += " step: a counter is full"
        return self.s.prove(name, st.pc, z3.BoolVal(False))

    def returns(self, outs, name="returns without panic"):
        """obligation: only normal returns; returns those"""
        res = []
        bad = False
        for k, s, v in outs:
            if k == "ret":
                res.append((s, v))
            else:
                bad = True
                self.never("%s (%s%s)" % (name, k, ": " + str(v) if v else ""), s)
        if not res and self.cut:
            raise Unsupported(self.cut)
        if not res:
            self.s.fail(name, "no path returns")
        elif not bad:
            self.s.ok(name)
        return res

    def satisfiable(self, st, name="precondition is satisfiable"):
        """vacuity guard"""
        r, _ = self.s.check(list(st.pc))
        if r == z3.unsat:
            raise Unsupported("vacuous precondition: " + name)

    # -------------------------------------------------------------- symbolic inputs
    def const(self, name, sort):
        return self.p.fresh(name, sort)

    def sym(self, ty, name):
        v = Sym(ty, self.p.fresh(name, self.p.sort(ty)))
        return v

    def structural(self, ty, seen=()):
        """does the type hold references, locks or shared pointers the executor tracks?"""
        p = self.p
        t = p.T[ty]
        k = t["k"]
        if ty in seen:
            return False
        if k in ("ref", "ptr", "closure"):
            return True
        if k == "tuple":
            return any(self.structural(a, seen + (ty,)) for a in t["args"])
        if k == "adt":
            path = t["path"]
            if path in self.over:
                return True
            if path in (LOCK, ARC, ONCE, "std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard"):
                return True
            if path in p.OPAQUE_ADTS or path in (*MAPS, VEC, PHANTOM):
                return False
            if path == BOX:
                return self.structural(t["args"][0], seen + (ty,))
            if ty in p.adts:
                return any(self.structural(f[1], seen + (ty,)) for v in p.adts[ty]["variants"] for f in v["fields"])
        return False

    def havoc(self, ex, st, ty, name="x"):
        """an arbitrary value of a type"""
        p = self.p
        t = p.T[ty]
        k = t["k"]
        self.expected(ty)
        if k == "adt" and t["path"] in self.over:
            r = self.over[t["path"]](st, ty, name)
            if r is not None:
                return r
        if k in ("ref", "ptr"):
            return Ref(st.new(self.havoc(ex, st, t["elem"], name)))
        if k == "adt" and t["path"] == PHANTOM or k == "tuple" and not t["args"]:
            return Agg(ty, 0, ())
        if k in ("int", "uint", "char"):
            c = p.fresh(name, z3.IntSort())
            if k != "char":
                from execu import rng
                lo, hi = rng(t)
                st.assume(c >= lo, c <= hi)
            return Sym(ty, c)
        if k == "str":
            return Sym(ty, p.fresh(name, p.sort(ty)))
        if not self.structural(ty):
            c = p.fresh(name, p.sort(ty))
            if k == "adt" and t["path"] == VEC or k == "slice":
                st.assume(p.vec_len(c) >= 0)
            return Sym(ty, c)
        if k == "tuple":
            return Agg(ty, 0, [self.havoc(ex, st, a, "%s.%d" % (name, i)) for i, a in enumerate(t["args"])])
        if k == "closure":
            return Agg(ty, 0, [self.havoc(ex, st, a, "%s.%d" % (name, i)) for i, a in enumerate(t["upvars"])], t.get("key"))
        if k == "adt":
            path = t["path"]
            if path == LOCK:
                return LockV(self.havoc(ex, st, t["args"][0], name), p.fresh("poison", z3.BoolSort()))
            if path == ARC:
                return ArcV(ty, st.new(self.havoc(ex, st, t["args"][0], name)))
            if path == ONCE:
                return OnceV(p.fresh("init", z3.BoolSort()), self.havoc(ex, st, t["args"][0], name))
            if path == BOX:
                return BoxV(ty, self.havoc(ex, st, t["args"][0], name))
            if ty in p.adts:
                vs = p.adts[ty]["variants"]
                if p.adts[ty]["kind"] == "struct":
                    return Agg(ty, 0, [self.havoc(ex, st, f[1], "%s.%s" % (name, f[0])) for f in vs[0]["fields"]])
                if p.adts[ty]["kind"] == "enum":
                    tag = p.fresh("tag", z3.IntSort())
                    st.assume(tag >= 0, tag < len(vs))
                    return Alt(ty, tag, {n: Agg(ty, n, [self.havoc(ex, st, f[1], "%s.%s" % (name, f[0])) for f in v["fields"]])
                                         for n, v in enumerate(vs)})
        raise Unsupported("arbitrary value of type " + t["s"])

    def expected(self, ty, kind=None):
        """are the fields of a representation those the contracts know? Others may be bound to the rest by an invariant
        no contract states"""
        p = self.p
        path = p.adt_path(ty)
        kind = kind or REPRESENTED.get(path)
        if kind is None or ty not in p.adts:
            return
        for f in p.adts[ty]["variants"][0]["fields"]:
            t = p.T[f[1]]
            if t["k"] == "tuple" and not t["args"] or p.adt_path(f[1]) == PHANTOM:
                continue
            if kind == "lock":
                ok = p.adt_path(f[1]) in REPRESENTED or p.adt_path(f[1]) == LOCK and p.adt_path(t["args"][0]) in REPRESENTED
            else:
                ok = p.adt_path(f[1]) in MAPS
            if not ok and f[1] in p.adts and p.adts[f[1]]["kind"] == "struct" and t["path"].split("::")[0] == path.split("::")[0]:
                self.expected(f[1], kind)
            elif not ok:
                self.extra = "%s.%s" % (path.split("::")[-1], f[0])

    # -------------------------------------------------------------- looking into values
    def ty(self, path, pred=None):
        c = [i for i, t in enumerate(self.p.T) if t["k"] == "adt" and t["path"] == path and (pred is None or pred(t))]
        if not c:
            raise Unsupported("no type " + path)
        return c[0]

    def field(self, v, name):
        """field of a struct value by name"""
        ty = v.ty
        fs = self.p.adts[ty]["variants"][0]["fields"]
        for n, f in enumerate(fs):
            if f[0] == name:
                return self.ex.get1(v, ("f", 0, n))
        raise Unsupported("no field %s in %s" % (name, self.p.T[ty]["s"]))

    def fidx(self, ty, pred, what):
        """index of the only field of struct type ty whose type satisfies pred"""
        fs = self.p.fields(ty)
        c = [n for n, f in enumerate(fs) if pred(f)]
        if len(c) != 1:
            raise Unsupported("%s of %s not recognised" % (what, self.p.T[ty]["s"]))
        return c[0]

    def is_path(self, *paths):
        def f(ty):
            return self.p.T[ty]["k"] == "adt" and self.p.T[ty]["path"] in paths
        return f

    def the_map(self, v):
        """the only map inside a value, as a term"""
        r = self.maps(v)
        if len(r) != 1:
            raise Unsupported("map of the representation not recognised")
        return r[0]

    def maps(self, v):
        if isinstance(v, Sym):
            if self.p.T[v.ty]["k"] == "adt" and self.p.T[v.ty]["path"] in MAPS:
                return [v.t]
            if v.ty in self.p.adts and self.p.adts[v.ty]["kind"] == "struct" and self.p.T[v.ty]["path"] not in self.p.OPAQUE_ADTS and self.p.T[v.ty]["path"] != VEC:
                v = self.ex.expand(v, 0)
            else:
                return []
        if isinstance(v, Agg):
            return [m for x in v.f for m in self.maps(x)]
        if isinstance(v, (BoxV, LockV)):
            return self.maps(v.v)
        return []

    def opt_term(self, st, v, vs):
        """an Option value as a term over payload sort vs; payload behind references is loaded"""
        out = []
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Agg):
            if v.v == 0:
                return self.p.none(vs)
            x = v.f[0]
            x = bi.through(self.ex, st, x)
            return self.p.some(vs, self.ex.lower(st, x))
        raise Unsupported("option expected, got %r" % (v,))

    def result(self, st, v):
        """[(state, 'ok'|'err', payload)]"""
        loc = st.new(v)
        return [(s, ("ok", "err")[a.v], a.f[0]) for s, a in self.ex.variants(st, (loc, ()))]

    def cases(self, st, v):
        loc = st.new(v)
        return self.ex.variants(st, (loc, ()))

    # -------------------------------------------------------------- interface used by the executor
    def call_hook(self, ex, st, fn, args, dty, stack):
        for h in self.hooks:
            r = h(ex, st, fn, args, dty, stack)
            if r is not None:
                return r
        return None

    def user_call(self, ex, st, f, args, dty, stack):
        if self.user_fx is None:
            return None
        return self.user_fx(ex, st, f, args, dty, stack)

    def drop_hook(self, ex, st, v):
        return self.dropf(ex, st, v) if self.dropf else None

    def length(self, st, t):
        """an arbitrary length (a term to be used), fixed when counterexamples are being confirmed"""
        self.sized = True
        if self.small is not None:
            return I(self.small)
        st.assume(t >= 0)
        return t

    def loop_inv(self, ex, st, it):
        return self.loop_f(ex, st, it) if self.loop_f else None

    def opaque_iter(self, ex, st, v):
        return self.iterf(ex, st, v) if self.iterf else None

    def opaque_next(self, ex, st, v, dty):
        return None

    def interfere(self, ex, st, addr):
        return self.interfere_f(ex, st, addr) if self.interfere_f else [st]

    def lock_op(self, ex, st, a, kind):
        if self.lockop_f:
            self.lockop_f(ex, st, a, kind)

    def vec_fact(self, ex, st, kind, *a):
        if self.vecf:
            self.vecf(ex, st, kind, *a)

    def array_eq_fact(self, ex, st, a, b, n, equal):
        if self.arreqf:
            self.arreqf(ex, st, a, b, n, equal)
