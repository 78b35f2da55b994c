"""Symbolic executor and verification-condition generator for MIR (as dumped by mirdump).

A function is executed symbolically from the most general state its contract's precondition allows; every feasible
path is followed, unwinding paths included. Nothing is unrolled to a bound: loops go through an inductive invariant
and recursive or opaque calls through a contract. Values of user types are opaque terms.
"""
import itertools, time
import z3


# sequences that grow
VECS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")
# maps: the ordered one, and the hashed one for everything but its order
MAPS = ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap")


class Unsupported(Exception):
    """The verifier cannot handle this construct: undecided, never a verdict about the code."""


# ------------------------------------------------------------------------------------------------ program

class Prog:
    def __init__(self, js):
        self.js = js
        self.crate = js["crate"]
        self.T = js["types"]
        self.adts = {int(k): v for k, v in js["adts"].items()}
        self.roots = js["roots"]
        self.bys = {}
        for i, t in enumerate(self.T):
            self.bys.setdefault(t["s"], i)
        self.sorts = {}
        self.dts = {}
        self.opts = {}
        self.fresh_n = itertools.count()
        self.unit_sort = None

    # -- lookup of functions by meaning: (self type path, trait path, name), never by text of the body
    def find(self, name, self_=None, trait=None, path=None, n=None):
        """path and self_/trait may be substrings; returns the matching roots (root, inst)."""
        res = []
        for r in self.roots:
            k = self.root_key(r)
            i = r["insts"][k]
            if i["name"] != name:
                continue
            if self_ is not None and not (i["self"] or "").endswith(self_):
                continue
            if trait is False and i["trait"] is not None:
                continue
            if trait and not (i["trait"] or "").endswith(trait):
                continue
            if path is not None and path not in i["path"]:
                continue
            if i["body"] is None:
                continue
            res.append((r, i))
        if n is not None and len(res) != n:
            raise Unsupported("anchor lost: %s %s %s: %d candidates" % (self_, trait, name, len(res)))
        return res

    def root_key(self, r):
        if r["key"] in r["insts"]:
            return r["key"]
        return next(iter(r["insts"]))

    # -- types
    def t(self, i):
        return self.T[i]

    def adt_path(self, i):
        t = self.T[i]
        return t["path"] if t["k"] == "adt" else None

    def pname(self, s):
        return z3.DeclareSort(s)

    def fresh(self, name, sort):
        return z3.Const("%s!%d" % (name, next(self.fresh_n)), sort)

    OPAQUE_ADTS = {"alloc::string::String", "core::any::TypeId", "std::path::PathBuf", "std::path::Path",
                   "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr", "anyhow::Error", "core::io::error::Error",
                   "regex::regex::string::Regex", "regex::error::Error", "ignore::Error", "ignore::walk::DirEntry",
                   "ignore::walk::Walk", "core::fmt::Arguments", "core::fmt::Formatter", "std::path::StripPrefixError",
                   "core::fmt::Error", "std::io::stdio::StdoutLock", "std::io::stdio::Stdout",
                   "std::fs::Metadata", "std::fs::FileType"}

    seen_through = ()         # types of which a shared reference counts as the value
    sort_over = {}            # types given a sort of their own by the contracts of a property

    def optsort(self, vs):
        k = str(vs)
        if k not in self.opts:
            d = z3.Datatype("Opt<%s>" % k)
            d.declare("None<%s>" % k)
            d.declare("Some<%s>" % k, ("some<%s>" % k, vs))
            s = d.create()
            self.opts[k] = s
        return self.opts[k]

    def some(self, vs, x):
        return self.optsort(vs).constructor(1)(x)

    def none(self, vs):
        return self.optsort(vs).constructor(0)()

    def vecsort(self, es):
        k = "Vec<%s>" % es
        if k not in self.sorts:
            d = z3.Datatype(k)
            d.declare("mk" + k, ("arr" + k, z3.ArraySort(z3.IntSort(), es)), ("len" + k, z3.IntSort()))
            self.sorts[k] = d.create()
        return self.sorts[k]

    def vec_mk(self, arr, n):
        return self.vecsort(arr.sort().range()).constructor(0)(arr, n)

    def vec_arr(self, t):
        return z3.simplify(t.sort().accessor(0, 0)(t))

    def vec_len(self, t):
        return z3.simplify(t.sort().accessor(0, 1)(t))

    def sort(self, i):
        t = self.T[i]
        k = t["k"]
        if k == "bool":
            return z3.BoolSort()
        if k in ("int", "uint", "char"):
            return z3.IntSort()
        if k in ("param", "alias"):
            return self.pname(t["s"])
        if k == "str" and "str" in self.sort_over:
            return self.sort_over["str"]
        if k in ("dyn", "closure", "fndef", "str", "other", "fnptr", "never"):
            return self.pname(t["s"])
        if k == "ref" and self.T[t["elem"]]["k"] == "str":
            return self.sort(t["elem"])  # an immutable text is its content
        if k == "ref" and not t.get("mut") and self.unbox(t["elem"]) in self.seen_through:
            return self.sort(t["elem"])
        if k == "array":
            return z3.ArraySort(z3.IntSort(), self.sort(t["elem"]))
        if k == "slice":
            return self.vecsort(self.sort(t["elem"]))
        if k == "adt":
            p = t["path"]
            if p in self.sort_over:
                return self.sort_over[p]
            if p in self.OPAQUE_ADTS:
                return self.pname(p)
            if p in VECS:
                return self.vecsort(self.sort(t["args"][0]))
            if p == "alloc::boxed::Box":
                return self.sort(t["args"][0])
            if p in MAPS:
                return z3.ArraySort(self.sort(t["args"][0]), self.optsort(self.sort(t["args"][1])))
            if p == "core::marker::PhantomData":
                return self.unit()
            if p == "alloc::rcs::arc::Arc":
                return self.pname("Ptr " + t["s"])
            if p == "std::sync::once_lock::OnceLock":
                return self.optsort(self.sort(t["args"][0]))
            if p == "core::option::Option" and not self.recursive(i):
                return self.optsort(self.sort(t["args"][0]))
        if k == "tuple" and not t["args"]:
            return self.unit()
        if k in ("adt", "tuple"):
            if t["s"] not in self.sorts:
                self.create(i)
            return self.sorts[t["s"]]
        raise Unsupported("no sort for type " + t["s"])

    def unit(self):
        if self.unit_sort is None:
            d = z3.Datatype("Unit")
            d.declare("unit")
            self.unit_sort = d.create()
        return self.unit_sort

    def special(self, i):
        t = self.T[i]
        if t["k"] == "tuple":
            return not t["args"]
        if t["k"] != "adt":
            return True
        return (t["path"] in self.OPAQUE_ADTS or t["path"] in self.sort_over or t["path"] in (
            *VECS, *MAPS, "core::marker::PhantomData",
            "alloc::rcs::arc::Arc", "std::sync::once_lock::OnceLock"))

    def children(self, i):
        t = self.T[i]
        if t["k"] == "tuple":
            return [("", [(str(n), a) for n, a in enumerate(t["args"])])]
        if t["k"] == "adt" and t["path"] == "alloc::boxed::Box":
            return [("", [("0", t["args"][0])])]
        return [(v["name"], [(f[0], f[1]) for f in v["fields"]]) for v in self.adts[i]["variants"]] if i in self.adts else None

    def unbox(self, i):
        while self.T[i]["k"] == "adt" and self.T[i]["path"] == "alloc::boxed::Box":
            i = self.T[i]["args"][0]
        return i

    def recursive(self, i):
        """does type i contain itself (through Box)?"""
        seen = set()
        todo = [i]
        first = True
        while todo:
            j = self.unbox(todo.pop())
            if not first and self.T[j]["s"] == self.T[i]["s"]:
                return True
            first = False
            if j in seen or self.special(j):
                continue
            seen.add(j)
            c = self.children(j)
            if c is None:
                continue
            for _, fs in c:
                todo += [f for _, f in fs]
        return False

    def create(self, i):
        todo, group = [i], []
        while todo:
            j = self.unbox(todo.pop())
            if self.special(j) or self.T[j]["s"] in self.sorts or any(self.T[g]["s"] == self.T[j]["s"] for g in group):
                continue
            if self.T[j]["k"] == "adt" and self.T[j]["path"] == "core::option::Option" and not self.recursive(j):
                continue
            c = self.children(j)
            if c is None:
                raise Unsupported("no definition of type " + self.T[j]["s"])
            if self.T[j]["k"] == "adt" and self.adts[j]["kind"] == "union":
                raise Unsupported("union " + self.T[j]["s"])
            group.append(j)
            for _, fs in c:
                todo += [f for _, f in fs]
        ds = {self.T[g]["s"]: z3.Datatype(self.T[g]["s"]) for g in group}
        for g in group:
            s = self.T[g]["s"]
            for vi, (vn, fs) in enumerate(self.children(g)):
                fl = []
                for n, (fn, ft) in enumerate(fs):
                    u = self.unbox(ft)
                    us = self.T[u]["s"]
                    fl.append(("%s.%d.%d" % (s, vi, n), ds[us] if us in ds else self.sort(u)))
                ds[s].declare("%s#%d" % (s, vi), *fl)
        out = z3.CreateDatatypes(*[ds[self.T[g]["s"]] for g in group])
        for g, so in zip(group, out):
            self.sorts[self.T[g]["s"]] = so

    # -- fields
    def fields(self, i, variant=0):
        t = self.T[i]
        if t["k"] == "tuple":
            return list(t["args"])
        if t["k"] == "closure":
            return list(t["upvars"])
        if t["k"] == "adt":
            return [f[1] for f in self.adts[i]["variants"][variant]["fields"]]
        raise Unsupported("fields of " + t["s"])

    def is_enum(self, i):
        return self.T[i]["k"] == "adt" and i in self.adts and self.adts[i]["kind"] == "enum"

    def nvariants(self, i):
        return len(self.adts[i]["variants"])

    def discr(self, i, v):
        d = int(self.adts[i]["variants"][v]["discr"])
        return d

    def ctor(self, i, v, args):
        s = self.sort(i)
        return s.constructor(v)(*args)

    def acc(self, i, v, f, t):
        s = self.sort(i)
        if s != t.sort():
            raise Unsupported("a value of sort %s read as %s" % (t.sort(), self.T[i]["s"]))
        return z3.simplify(s.accessor(v, f)(t))

    def find_ty(self, pred):
        return [i for i, t in enumerate(self.T) if pred(t)]


# ------------------------------------------------------------------------------------------------ values

class Val:
    __slots__ = ()


class Sym(Val):
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, t

    def __repr__(self):
        return "Sym(%s)" % self.t


class Agg(Val):
    """struct, tuple, enum variant, closure"""
    __slots__ = ("ty", "v", "f", "key")

    def __init__(self, ty, v, f, key=None):
        self.ty, self.v, self.f, self.key = ty, v, tuple(f), key

    def __repr__(self):
        return "Agg#%s%r" % (self.v, self.f)


class Alt(Val):
    """enum whose variant is not decided yet and whose payloads are not terms"""
    __slots__ = ("ty", "tag", "alts")

    def __init__(self, ty, tag, alts):
        self.ty, self.tag, self.alts = ty, tag, alts


class Ref(Val):
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def __repr__(self):
        return "&%s%s" % (self.loc, "".join("." + str(p) for p in self.path))

    def addr(self):
        return (self.loc, self.path)


class FnV(Val):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class BoxV(Val):
    __slots__ = ("ty", "v")

    def __init__(self, ty, v):
        self.ty, self.v = ty, v

    def __repr__(self):
        return "Box(%r)" % (self.v,)


class ArcV(Val):
    __slots__ = ("ty", "loc")

    def __init__(self, ty, loc):
        self.ty, self.loc = ty, loc

    def __repr__(self):
        return "Arc@%s" % self.loc


class BoxAlias(Val):
    """a copy of a box made by rustc to dereference it: stands for the box at that address"""
    __slots__ = ("loc", "path")

    def __init__(self, loc, path):
        self.loc, self.path = loc, path


class LockV(Val):
    __slots__ = ("v", "poison", "r", "w")

    def __init__(self, v, poison, r=0, w=False):
        self.v, self.poison, self.r, self.w = v, poison, r, w

    def __repr__(self):
        return "Lock(%r,p=%s,r=%s,w=%s)" % (self.v, self.poison, self.r, self.w)


class GuardV(Val):
    __slots__ = ("loc", "path", "kind")

    def __init__(self, loc, path, kind):
        self.loc, self.path, self.kind = loc, tuple(path), kind

    def __repr__(self):
        return "Guard%s@%s%s" % (self.kind, self.loc, self.path)


class OnceV(Val):
    """OnceLock: init is a python bool or a z3 Bool; v the content when initialised (None: unset)"""
    __slots__ = ("init", "v", "ghost")

    def __init__(self, init, v, ghost=None):
        self.init, self.v, self.ghost = init, v, ghost

    def __repr__(self):
        return "Once(%s,%r)" % (self.init, self.v)


class DynV(Val):
    """a value of known type behind an unsized pointer"""
    __slots__ = ("dty", "ty", "v", "methods")

    def __init__(self, dty, ty, v, methods):
        self.dty, self.ty, self.v, self.methods = dty, ty, v, methods


class IterV(Val):
    """iterator: kind and parts; base iterators over a sequence carry lo/hi positions"""
    __slots__ = ("kind", "p")

    def __init__(self, kind, **p):
        self.kind, self.p = kind, p

    def __repr__(self):
        return "Iter:%s%r" % (self.kind, self.p)

    def with_(self, **kw):
        d = dict(self.p)
        d.update(kw)
        return IterV(self.kind, **d)


class LazyVec(Val):
    """a vector given element-wise by an iterator chain over a sequence; seen: the cells its elements were computed from"""
    __slots__ = ("ty", "it", "seen")

    def __init__(self, ty, it, seen=None):
        self.ty, self.it, self.seen = ty, it, seen


class Opaque(Val):
    """a value nothing is claimed about (formatted strings and the like)"""
    __slots__ = ("ty", "tag")

    def __init__(self, ty, tag=""):
        self.ty, self.tag = ty, tag

    def __repr__(self):
        return "Opaque(%s)" % (self.tag,)


class StrV(Val):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class _U(Val):
    def __repr__(self):
        return "UNINIT"


UNINIT = _U()


# ------------------------------------------------------------------------------------------------ state

class State:
    __slots__ = ("heap", "arcs", "pc", "ghost", "trace", "panicking", "ptrs", "hist")
    counter = itertools.count(1)

    def __init__(self):
        self.heap, self.arcs, self.pc, self.ghost, self.trace = {}, {}, (), {}, ()
        self.panicking = False
        self.ptrs = ()
        self.hist = ()

    def clone(self):
        s = State()
        s.heap, s.arcs, s.pc = dict(self.heap), dict(self.arcs), self.pc
        s.ghost, s.trace, s.panicking = dict(self.ghost), self.trace, self.panicking
        s.ptrs, s.hist = self.ptrs, self.hist
        return s

    def new(self, v):
        loc = next(State.counter)
        self.heap[loc] = v
        return loc

    def assume(self, *cs):
        self.pc = self.pc + tuple(c for c in cs if not z3.is_true(c))

    def event(self, *e):
        self.trace = self.trace + (e,)


class Ob:
    def __init__(self, name, status, detail="", secs=0.0, smt=None):
        self.name, self.status, self.detail, self.secs, self.smt = name, status, detail, secs, smt
        self.vacuous = False


class Solver:
    """discharges obligations; counts queries and time"""

    def __init__(self, timeout=20000, keep_smt=False):
        self.timeout, self.keep = timeout, keep_smt
        self.deadline = None
        self.queries = 0
        self.secs = 0.0
        self.axioms = []      # callables: list of terms -> list of axiom instances
        self.obs = []
        self.seen_pc = {}

    def collect(self, fs):
        return instances(self.axioms, fs)

    def check(self, fs, timeout=None):
        left = timeout or self.timeout
        if self.deadline is not None:
            rest = int(1000 * (self.deadline - time.time()))
            if rest <= 0:
                raise Unsupported("time budget used up")
            left = min(left, max(rest, 500))
        s = z3.Solver()
        s.set("timeout", left)
        s.set("random_seed", 1)
        for f in fs:
            s.add(f)
        for a in self.collect(fs):
            s.add(a)
        t = time.time()
        r = s.check()
        self.secs += time.time() - t
        self.queries += 1
        return r, s

    def feasible(self, pc):
        r, _ = self.check(list(pc), 4000)
        return r != z3.unsat

    prefix = ""

    def reachable(self, pc):
        k = tuple(f.get_id() for f in pc)
        if k not in self.seen_pc:
            keep.extend(pc)
            self.seen_pc[k] = self.check(list(pc), 4000)[0] != z3.unsat
        return self.seen_pc[k]

    def prove(self, name, pc, goal, extra=()):
        name = self.prefix + name
        t = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        r, s = self.check(list(pc) + list(extra) + [z3.Not(goal)])
        d = time.time() - t
        smt = s.to_smt2() if self.keep else None
        if r == z3.unsat:
            ob = Ob(name, "proved", "", d, smt)
            # vacuity guard: is the path to this obligation satisfiable at all?
            ob.vacuous = not z3.is_false(goal) and not self.reachable(pc)
        elif r == z3.sat:
            m = s.model()
            ob = Ob(name, "refuted", "goal %s\nmodel %s" % (str(goal)[:1500], str(m)[:3000]), d, smt)
        else:
            ob = Ob(name, "unknown", s.reason_unknown(), d, smt)
        self.obs.append(ob)
        return ob.status == "proved"

    def fail(self, name, detail):
        self.obs.append(Ob(self.prefix + name, "refuted", detail))

    def ok(self, name):
        self.obs.append(Ob(self.prefix + name, "proved", "by structure"))


def instances(axioms, fs, rounds=6, limit=4000):
    """Explicit instantiation: every axiom generator sees every subterm and returns the instances it wants."""
    if not axioms:
        return []
    seen, out, todo = set(), [], list(fs)
    done = set()
    for _ in range(rounds):
        terms = []
        stack = list(todo)
        todo = []
        while stack:
            e = stack.pop()
            if not z3.is_expr(e):
                continue
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            keep.append(e)
            terms.append(e)
            if z3.is_quantifier(e):
                continue
            stack += e.children()
        new = []
        for ax in axioms:
            for t in terms:
                for n in ax(t) or ():
                    if n.get_id() not in done:
                        done.add(n.get_id())
                        keep.append(n)
                        new.append(n)
        if not new:
            break
        out += new
        todo = new
        if len(out) > limit:
            raise Unsupported("axiom instantiation does not settle")
    return out


keep = []      # keeps z3 terms alive so that ids stay unique
