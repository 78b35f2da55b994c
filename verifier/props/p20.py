"""P20: the document commands, over the contracts of the save and delete operations (P10, P11) and of lazy documents."""
from common import *
from props.lazy import LAZY, REPO, Lazy
from props.p19 import FS, TEXTS

CRATES = ("plotline_cli",)
CLI = "document::DocumentCli"
COMMAND = "plotline_cli::document::DocumentCommand"
DOCUMENT = "plotline_cli::document::Document"
STRING = "alloc::string::String"
TRUSTED = ["FromStr of ids, String::into_bytes, anyhow::Error::{new,msg,from} and PathBuf::clone: pure functions which do not panic",
           "printing to standard output: a write succeeds or fails; what a Debug argument prints is a function of the value"]


class Cli:
    def __init__(self, u):
        self.u = u
        self.parse = []
        u.hooks.append(self.hook)
        self.fs = FS(u)

    def setup(self, st):
        u, p = self.u, self.u.p
        self_ty, cmd_ty = u.arg_tys()
        ct = p.T[self_ty]["elem"]
        fs = p.fields(ct)
        arc_of = lambda path: (lambda f: p.adt_path(f) == ARC and p.adt_path(p.T[f]["args"][0]) == path)
        self.i_schema = u.fidx(ct, arc_of(SCHEMA), "schema")
        self.i_repo = u.fidx(ct, lambda f: p.adt_path(f) == ARC and p.adt_path(p.T[f]["args"][0]) != SCHEMA, "repository")
        if len(fs) != 2:
            raise Unsupported("the command line has fields the contract does not know")
        f = [None, None]
        self.schema = st.new(u.havoc(u.ex, st, p.T[fs[self.i_schema]]["args"][0], "schema"))
        self.repo = st.new(u.sym(p.T[fs[self.i_repo]]["args"][0], "repository"))
        for i, l in ((self.i_schema, self.schema), (self.i_repo, self.repo)):
            st.arcs[l] = u.const("count", z3.IntSort())
            st.assume(st.arcs[l] >= 1)
            f[i] = ArcV(fs[i], l)
        st.ghost["ops"], st.ghost["lines"] = (), I(0)
        self.cli = st.new(Agg(ct, 0, f))
        return Ref(self.cli), cmd_ty

    # the command: given id and what is asked
    def command(self, cmd_ty, act, content):
        u, p = self.u, self.u.p
        if p.adt_path(cmd_ty) != COMMAND:
            raise Unsupported("command not recognised")
        fs = p.fields(cmd_ty)
        str_opt = lambda f: p.adt_path(f) == OPTION and p.adt_path(p.T[f]["args"][0]) == STRING
        i_id = u.fidx(cmd_ty, str_opt, "id")
        i_sub = u.fidx(cmd_ty, lambda f: not str_opt(f) and p.is_enum(f), "subcommand")
        if len(fs) != 2:
            raise Unsupported("command has fields the contract does not know")
        sub = fs[i_sub]
        vs = p.adts[sub]["variants"]
        n = [k for k, v in enumerate(vs) if v["name"] == act]
        if len(n) != 1 or len(vs) != 3:
            raise Unsupported("subcommand not recognised")
        v = vs[n[0]]
        args = []
        for fn_, ft in v["fields"]:
            if p.adts.get(ft, {}).get("kind") != "struct" or len(p.fields(ft)) != 1 or not str_opt(p.fields(ft)[0]):
                raise Unsupported("arguments of the command not recognised")
            ot = p.fields(ft)[0]
            o = Agg(ot, 0, ()) if content is None else Agg(ot, 1, (Sym(p.T[ot]["args"][0], content),))
            args.append(Agg(ft, 0, (o,)))
        f = [None, None]
        return fs, i_id, i_sub, Agg(sub, n[0], args)

    def event(self, kind, st, **kw):
        st.ghost["ops"] = st.ghost["ops"] + (dict(kw, kind=kind),)

    def hook(self, ex, st, fn, args, dty, stack):
        tr, name, self_ = fn.get("trait"), fn.get("name"), fn.get("self") or ""
        u, p = self.u, self.u.p
        if name == "execute" and (self_.endswith("ops::save::Save") or self_.endswith("ops::delete::Delete")):
            kind = "save" if self_.endswith("Save") else "delete"
            op = u.ex.expand(args[0], 0)
            if len(op.f) != 1:
                raise Unsupported("operation has fields the contract does not know")
            tx = args[1]
            if not (isinstance(tx, Agg) and p.adt_path(tx.ty) == BG):
                raise Unsupported("transaction not recognised")
            at = self.schema_of(ex, st, tx)
            self.event(kind, st, what=op.f[0], at=at, state=st.clone())
            et = p.T[dty]["args"][1]
            e = u.const("failure", p.sort(et))
            out = []
            for r in ("ok", "err"):
                s = st.clone()
                s.ghost["ops"] = s.ghost["ops"][:-1] + (dict(s.ghost["ops"][-1], end=r),)
                out.append(("ret", s, Agg(dty, 0, (u.ex.unit_val(),)) if r == "ok" else Agg(dty, 1, (Sym(et, e),))))
            # the operation may panic in a trigger
            s = st.clone()
            s.ghost["ops"] = s.ghost["ops"][:-1] + (dict(s.ghost["ops"][-1], end="panic"),)
            out.append(("panic", s, None))
            return out
        if tr == "core::str::traits::FromStr" and name == "from_str":
            a = self.fs.text(ex, st, args[0])
            f = z3.Function("parsed<%s>" % p.sort(dty), a.sort(), p.sort(dty))
            ex.assumed["FromStr::from_str of ids is a pure function"] = 1
            r = f(a)
            self.parse = [f]
            et = p.T[dty]["args"][1]
            if p.T[et]["k"] == "never":
                st.assume(p.sort(dty).recognizer(0)(r))
            return [("ret", st, Sym(dty, r))]
        if (fn.get("path") or "").startswith("anyhow::") or (fn.get("path") or "").startswith("<anyhow::"):
            return [("ret", st, Sym(dty, u.const("error", p.sort(dty))))]
        if tr == "core::clone::Clone" and name == "clone" and self_ == "std::path::PathBuf":
            return [("ret", st, bi.through(ex, st, args[0]))]
        if (fn.get("path") or "").endswith("io::stdio::stdout") or name == "lock" and self_ == "std::io::stdio::Stdout":
            return [("ret", st, Opaque(dty, "stdout"))]
        if self_ == "core::fmt::rt::Argument" and name in ("new_debug", "new_display"):
            v = bi.through(ex, st, args[0])
            return [("ret", st, Opaque(dty, ("arg", v)))]
        if self_ == "core::fmt::Arguments" and name == "new":
            arr = bi.through(ex, st, args[-1])
            if not isinstance(arr, Agg):
                raise Unsupported("format arguments not recognised")
            return [("ret", st, Opaque(dty, ("line", tuple(arr.f))))]
        if self_ == "alloc::io::buffered::bufwriter::BufWriter" and tr is None and name in ("new", "with_capacity") or \
                self_ == "std::io::buffered::bufwriter::BufWriter" and tr is None and name in ("new", "with_capacity"):
            w = bi.through(ex, st, args[-1])
            if not (isinstance(w, Opaque) and w.tag == "stdout"):
                raise Unsupported("writer not recognised")
            ex.assumed["BufWriter passes on what is written to it, at the latest when dropped"] = 1
            return [("ret", st, Opaque(dty, "stdout"))]
        if name == "flush" and tr in ("core::io::write::Write", "std::io::Write"):
            s2 = st.clone()
            s2.ghost["write failed"] = True
            et = u.p.T[dty]["args"][1]
            return [("ret", st, Agg(dty, 0, (u.ex.unit_val(),))), ("ret", s2, Agg(dty, 1, (u.sym(et, "io"),)))]
        if tr == "plotline::document::DocumentRepository" and name == "find_by_id" and fn.get("k") == "unresolved":
            # whatever the repository has; looking it up may fail
            s2 = st.clone()
            s2.ghost["lookup failed"] = True
            return [("ret", st, Sym(dty, u.const("found", p.sort(dty)))), ("panic", s2, None)]
        if name == "write_fmt" and tr in ("core::io::write::Write", "std::io::Write"):
            ln = args[1]
            if not (isinstance(ln, Opaque) and isinstance(ln.tag, tuple)):
                raise Unsupported("line not recognised")
            return self.line(ex, st, [x.tag[1] for x in ln.tag[1] if isinstance(x, Opaque) and isinstance(x.tag, tuple)], dty)
        if fn.get("path") == "std::io::stdio::_print":
            ln = args[0]
            if not (isinstance(ln, Opaque) and isinstance(ln.tag, tuple)):
                raise Unsupported("line not recognised")
            return self.line(ex, st, [x.tag[1] for x in ln.tag[1] if isinstance(x, Opaque) and isinstance(x.tag, tuple)], None)
        return None

    def bytes_of(self, s):
        p = self.u.p
        return self.fs.bytes(s, p.sort(p.fields(self.u.ty(DOCUMENT))[self.u.fidx(self.u.ty(DOCUMENT), self.u.is_path(VEC), "bytes")]))

    def schema_of(self, ex, st, tx):
        """address of the schema a root transaction works on"""
        p = self.u.p
        c = [x for x, f in zip(tx.f, p.fields(tx.ty)) if p.T[f]["k"] == "ref" and p.adt_path(p.T[f]["elem"]) == SCHEMA]
        if len(c) != 1:
            raise Unsupported("transaction not recognised")
        return bi.deep_addr(ex, st, c[0])[0]

    def line(self, ex, st, vals, dty):
        """one more line: prints the id of the next document of the graph"""
        u = self.u
        arr, n = bi.vals_fn(ex, self.map)
        k = st.ghost["lines"]
        ids = [v for v in vals if isinstance(v, Sym) and str(v.t.sort()) == str(self.map.sort().domain())]
        if len(vals) != 1 or len(ids) != 1:
            raise Unsupported("line printed is not an id")
        u.prove("each line prints the id of the next document", st, z3.And(k < n, ids[0].t == self.idf(z3.Select(arr, k))))
        st.ghost["lines"] = z3.simplify(k + 1)
        s2 = st.clone()
        s2.ghost["write failed"] = True
        if dty is None:
            return [("ret", st, u.ex.unit_val()), ("panic", s2, None)]
        et = u.p.T[dty]["args"][1]
        return [("ret", st, Agg(dty, 0, (u.ex.unit_val(),))), ("ret", s2, Agg(dty, 1, (u.sym(et, "io"),)))]


def execute(u, act, given, content):
    u.find("plotline_cli", "execute", CLI, False)
    C = Cli(u)
    p = u.p
    st = State()
    me, cmd_ty = C.setup(st)
    text = u.const("text", p.sort(u.ty(STRING))) if content else None
    fs, i_id, i_sub, sub = C.command(cmd_ty, act, text)
    ot = fs[i_id]
    raw = u.const("id", p.sort(p.T[ot]["args"][0]))
    f = [None, None]
    f[i_id] = Agg(ot, 1, (Sym(p.T[ot]["args"][0], raw),)) if given else Agg(ot, 0, ())
    f[i_sub] = sub
    # the graph
    gl = [n for n, t in enumerate(p.fields(st.heap[C.schema].ty)) if p.adt_path(t) == LOCK]
    if len(gl) != 1:
        raise Unsupported("graph of the schema not recognised")
    graph = st.heap[C.schema].f[gl[0]]
    C.map = u.the_map(graph.v)
    ids = C.map.sort().domain()
    node = C.map.sort().range().accessor(1, 0).range()
    lty = u.ty(LAZY)
    lf = p.fields(lty)
    L = Lazy(u, lty)
    C.idf = lambda t: p.acc(lty, 0, L.i_id, t)
    u.loop_f = lambda ex, s, it: None if act != "List" else {"cells": [(("ghost", "lines"), lambda i: i)], "facts": []}
    before = st.clone()
    good = 0
    outs = u.call(st, [me, Agg(cmd_ty, 0, f)])
    for k, s, v in outs:
        ops = s.ghost["ops"]
        if k == "abort":
            u.never("no abort: %s" % v, s)
            continue
        u.prove("at most one operation", s, z3.BoolVal(len(ops) <= 1))
        b0 = before.clone()
        b0.arcs = s.arcs          # how often the repository is shared is not observable
        same_heap(u, s, b0, "outside of its operation a command changes nothing")
        if len(ops) > 1:
            continue
        for o in ops:
            u.prove("the operation works on the schema of the command line", s, z3.BoolVal(o["at"] == (C.schema, ())))
            u.prove("the operation is the one asked for", s, z3.BoolVal(o["kind"] == act.lower()))
            u.prove("without an id nothing is done", s, z3.BoolVal(given))
        if act == "List":
            _, n = bi.vals_fn(u.ex, C.map)
            if k == "panic":
                u.prove("listing panics only if writing fails or the graph is not accessible", s,
                        z3.Or(z3.BoolVal(bool(s.ghost.get("write failed"))), graph.poison))
                continue
            for s2, a in u.cases(s, v):
                if a.v == 0:
                    good += 1
                    u.prove("every id is printed once", s2, s2.ghost["lines"] == n)
                else:
                    u.prove("listing fails only if writing fails or the graph is not accessible", s2,
                            z3.Or(z3.BoolVal(bool(s2.ghost.get("write failed"))), graph.poison))
            continue
        u.prove("nothing is printed", s, s.ghost["lines"] == 0)
        if k == "panic":
            u.prove("a panic comes from the operation", s, z3.BoolVal(len(ops) == 1 and ops[0]["end"] == "panic" or bool(s.ghost.get("lookup failed"))))
            continue
        u.prove("a panic of the operation is passed on", s, z3.BoolVal(all(o["end"] != "panic" for o in ops)))
        if given:
            if not C.parse:
                raise Unsupported("parsing of the id not recognised")
            ps, pv = C.parse[0].range(), C.parse[0](raw)
            okp, idv = ps.recognizer(0)(pv), ps.accessor(0, 0)(pv)
        for s2, a in u.cases(s, v):
            if a.v == 0:
                good += 1
                u.prove("a command succeeds only if its operation did", s2, z3.BoolVal(len(ops) == 1 and ops[0]["end"] == "ok"))
            else:
                if not ops:
                    u.prove("without an operation it fails only for lack of a valid id", s2, z3.Not(okp) if given else z3.BoolVal(True))
                else:
                    u.prove("it fails only if the operation failed", s2, z3.BoolVal(ops[0]["end"] == "err"))
        for o in ops:
            if not given:
                continue
            u.prove("the operation runs only for a valid id", s, okp)
            if o["kind"] == "delete":
                u.prove("exactly the given id is deleted", s, u.ex.lower(o["state"], o["what"]) == idv)
            elif o["kind"] == "save":
                x = o["what"]
                if not (isinstance(x, Agg) and x.ty == lty):
                    raise Unsupported("document being saved not recognised")
                r, i, c = (u.ex.get1(x, ("f", 0, n)) for n in (L.i_repo, L.i_id, L.i_val))
                u.prove("what is saved is known by the given id", s, u.ex.lower(o["state"], i) == idv)
                u.prove("what is saved belongs to the repository of the command line", s, z3.BoolVal(isinstance(r, ArcV) and r.loc == C.repo))
                from props.lazy import loaded
                u.prove("what is saved carries its content", s, loaded(c))
                d = c.v if hasattr(c, "v") else None
                ds = u.ex.lower(o["state"], d)
                dt = L.doc_ty
                i_bytes = u.fidx(dt, u.is_path(VEC), "bytes")
                i_path = u.fidx(dt, u.is_path("std::path::PathBuf"), "path")
                srt = p.sort(dt)
                got = p.acc(dt, 0, i_bytes, ds)
                want = C.bytes_of(text) if content else None
                if content:
                    u.prove("what is saved has the given content", s, got == want)
                else:
                    u.prove("without content what is saved is empty", s, p.vec_len(got) == 0)
                u.prove("the document carries the given id", s, p.acc(dt, 0, i_path, ds) == idv)
    if given or act == "List":
        if not good:
            raise Unsupported("no successful path")


def check(v):
    for act in ("Delete", "Save"):
        for given in (True, False):
            for content in (("text", None) if act == "Save" else (None,)):
                v.unit("DocumentCli::execute %s%s%s" % (act, "" if given else " without id",
                       " with content" if content else ""), execute, act, given, content)
    v.unit("DocumentCli::execute List", execute, "List", False, None)
