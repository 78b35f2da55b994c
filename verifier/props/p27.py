"""P27: the program runs the command on the documents of the directory and extension it was given."""
from common import *
from props.p01 import inserts
from props.p19 import FS

CRATES = ("plotline_bin",)
REPOSITORY = "plotline_cli::repository::LocalDocumentRepository"
CLI = "plotline_cli::document::DocumentCli"
PATHBUF = "std::path::PathBuf"
STRING = "alloc::string::String"
TRUSTED = ["clap: what parsing the command line yields is an arbitrary value of the argument type (a failing parse ends the process)",
           "tracing_subscriber: setting up the log has no effect on the program",
           "LocalDocumentRepository::all (P19): an arbitrary finite sequence of documents of that repository",
           "DocumentCli::execute (P20): succeeds, fails or panics"]


def check(v):
    v.unit("main", main)


def fields_of(u, v):
    """directory and extension of a repository value"""
    p = u.p
    fs = p.fields(v.ty)
    if len(fs) != 2:
        raise Unsupported("the repository has fields the contract does not know")
    v = u.ex.expand(v, 0)
    return v.f[u.fidx(v.ty, u.is_path(PATHBUF), "directory")], v.f[u.fidx(v.ty, u.is_path(STRING), "extension")]


def own_id(u, ty):
    """the id a document carries: the field of the type of ids"""
    n = u.fidx(ty, u.is_path(PATHBUF), "id of a document")
    return lambda t: u.p.acc(ty, 0, n, t)


def main(u):
    u.find("plotline_bin", "main", None, False)
    p = u.p
    FS(u)
    st = State()
    st.ghost["runs"] = ()
    seq = {}

    def hook(ex, s, fn, args, dty, stack):
        path, name, tr, self_ = fn.get("path") or "", fn.get("name"), fn.get("trait") or "", fn.get("self") or ""
        if tr.endswith("derive::Parser") and name == "parse":
            if "args" in s.ghost:
                raise Unsupported("the command line is read twice")
            s.ghost["args"] = ex.expand(u.havoc(ex, s, dty, "args"), 0)
            return [("ret", s, s.ghost["args"])]
        if "tracing_subscriber::" in path or self_.startswith("tracing_subscriber::"):
            return [("ret", s, ex.unit_val() if p.T[dty]["k"] == "tuple" else Opaque(dty, "log"))]
        if path == "std::io::stdio::_eprint":
            return [("ret", s, ex.unit_val())]
        if self_ == REPOSITORY and name == "all":
            a = bi.through(ex, s, args[0])
            if not isinstance(a, ArcV):
                raise Unsupported("repository not recognised")
            s.ghost["listed"] = s.ghost.get("listed", ()) + (s.heap[a.loc],)
            if not seq:
                gt = u.ty(GRAPH)
                seq["n"], seq["fold"], seq["items"] = inserts(u, s, gt, lambda ty: own_id(u, ty))
            return [("ret", s, seq["items"]())]
        if self_ == CLI and name == "execute":
            me = bi.through(ex, s, args[0])
            e = u.const("outcome", p.sort(dty))
            s.ghost["runs"] = s.ghost["runs"] + ((me, args[1], e, s.clone()),)
            s2 = s.clone()
            s2.ghost["end"] = "panic"
            return [("ret", s, Sym(dty, e)), ("panic", s2, None)]
        return None
    u.hooks.insert(0, hook)
    some = False
    for k, s, v in u.call(st, []):
        if k == "abort":
            u.never("no abort: %s" % v, s)
            continue
        runs = s.ghost["runs"]
        u.prove("the command runs exactly once", s, z3.BoolVal(len(runs) == 1))
        if len(runs) != 1:
            continue
        if k == "panic":
            u.prove("a panic comes from the command", s, z3.BoolVal(s.ghost.get("end") == "panic"))
            continue
        some = True
        u.prove("a panic of the command is passed on", s, z3.BoolVal(s.ghost.get("end") != "panic"))
        me, cmd, res, at = runs[0]
        u.prove("the outcome of the command is the program's", s, u.ex.lower(s, v) == res)
        a = s.ghost["args"]
        dirs = [x for x in flat(u, a) if p.adt_path(x.ty) == PATHBUF]
        exts = [x for x in flat(u, a) if p.adt_path(x.ty) == STRING]
        cmds = [x for x in flat(u, a) if x.ty == cmd.ty]
        if len(dirs) != 1 or len(exts) != 1:
            raise Unsupported("arguments of the program not recognised")
        if cmds:
            u.same("the command run is the one given", at, cmd, cmds[0])
        else:
            subs = [x for x in a.f if isinstance(x, (Sym, Agg)) and p.is_enum(x.ty)]
            if len(subs) != 1:
                raise Unsupported("command of the program not recognised")
            t = u.ex.lower(at, subs[0])
            ways = [p.acc(subs[0].ty, n, 0, t) for n, w in enumerate(p.adts[subs[0].ty]["variants"])
                    if len(w["fields"]) == 1 and w["fields"][0][1] == cmd.ty]
            if len(ways) != 1:
                raise Unsupported("command of the program not recognised")
            u.prove("the command run is the one given", at, u.ex.lower(at, cmd) == ways[0])
        arcs = {p.adt_path(x.ty and p.T[x.ty]["args"][0]): x for x in me.f if isinstance(x, ArcV)}
        if set(arcs) != {SCHEMA, REPOSITORY} or len(me.f) != 2:
            raise Unsupported("the command line has fields the contract does not know")
        listed = at.ghost.get("listed", ())
        u.prove("the documents are listed once", at, z3.BoolVal(len(listed) == 1))
        for what, r in [("listed from", x) for x in listed] + [("loaded from", at.heap[arcs[REPOSITORY].loc])]:
            d, e = fields_of(u, r)
            u.same("documents are %s the directory given" % what, at, d, dirs[0])
            u.same("documents are %s files of the extension given" % what, at, e, exts[0])
        if len(listed) != 1:
            continue
        sch = at.heap[arcs[SCHEMA].loc]
        lk = None
        for n, f in enumerate(p.fields(sch.ty)):
            x = u.ex.get1(sch, ("f", 0, n))
            if isinstance(x, LockV):
                lk = x
            else:
                for m in u.maps(x):
                    kk = u.const("k", m.sort().domain())
                    u.prove("the schema has no triggers and no resources", at, z3.Not(bi.is_some(z3.Select(m, kk))))
        if lk is None:
            raise Unsupported("graph of the schema not recognised")
        u.prove("the graph holds exactly the documents listed", at, u.the_map(lk.v) == seq["fold"](seq["n"]))
        u.prove("the graph can be used", at, z3.And(z3.BoolVal(lk.r == 0 and not lk.w) if not z3.is_expr(lk.r) else lk.r == 0,
                                                    z3.Not(lk.poison) if z3.is_expr(lk.poison) else z3.BoolVal(not lk.poison)))
    if not some:
        raise Unsupported("no path returns")


def flat(u, v):
    """the values a struct is made of"""
    out = []
    for x in v.f:
        if isinstance(x, (Agg, Sym)) and x.ty is not None:
            out.append(x)
    return out
