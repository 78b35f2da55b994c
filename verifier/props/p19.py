"""P19: the local repository, over contracts of paths, strings, the directory walk and the pattern matcher.

A path is a directory part and a file name (or something without a file name); texts are strings of the solver."""
import ast
import re
from common import *
from props.lazy import LAZY, Lazy, loaded

CRATES = ("plotline_cli",)
REPOSITORY = "plotline_cli::repository::LocalDocumentRepository"
DOCUMENT = "plotline_cli::document::Document"
PATHS = ("std::path::PathBuf", "std::path::Path")
TEXTS = ("alloc::string::String", "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr", "alloc::borrow::Cow", "str")
REGEX = "regex::regex::string::Regex"
TRUSTED = ["std::path: file_name, with_file_name, with_extension, join and strip_prefix as documented, on a path seen as directory part and file name",
           "str::split yields the parts between the separators; with_extension(\"\") cuts a name before its last dot",
           "regex: a pattern made of an escaped dot, an escaped text and '$' matches what ends with a dot and that text; regex::escape",
           "ignore::Walk (and WalkBuilder without limits or filters) yields every file under the directory that is not hidden or ignored once, and files only from under it",
           "std::fs::read and Path::is_file answer from one state of the file system",
           "names that are not UTF-8 end with a dot and the extension exactly if their lossy form does; extensions have no path separator"]
S = z3.StringSort()
# what ignore::WalkBuilder does by default (standard_filters sets the first six)
TOGGLES = {**{x: True for x in ("hidden", "parents", "ignore", "git_ignore", "git_global", "git_exclude", "standard_filters", "require_git")},
           **{x: False for x in ("follow_links", "same_file_system", "ignore_case_insensitive", "skip_stdout")}}


class FS:
    """sorts and functions of the model of paths and texts"""

    def __init__(self, u):
        self.u = u
        p = self.p = u.p
        if "fs" not in p.__dict__:
            d = z3.Datatype("PathModel")
            dirs = z3.DeclareSort("Dir")
            d.declare("P", ("path_dir", dirs), ("path_name", S))
            d.declare("X", ("path_other", dirs))
            p.fs = d.create()
            p.dirs = dirs
            p.sort_over = {**{x: p.fs for x in PATHS}, **{x: S for x in TEXTS}, REGEX: S}
        self.P, self.D = p.fs, p.dirs
        fs, D = self.P, self.D
        self.joindir = z3.Function("JOINDIR", fs, D, D)
        self.reldir = z3.Function("RELDIR", D, fs, D)
        self.under = z3.Function("UNDER", D, fs, z3.BoolSort())
        self.cut = z3.Function("CUT", S, S)
        self.xdir = z3.Function("XDIR", D, D)
        self.par = z3.Function("PARENT", D, D)          # X(PARENT(d)): the directory d as a path
        self.nodir = z3.Const("NODIR", D)               # the directory part of a bare name
        self.escape = z3.Function("ESCAPE", S, S)
        self.isfile = z3.Function("ISFILE", fs, z3.BoolSort())
        self.parts = z3.Function("PARTS", S, z3.IntSort())
        self.part = z3.Function("PART", S, z3.IntSort(), S)
        self.seq = self.ext = None
        self.patterns = []
        u.s.axioms.append(self.axiom)
        u.hooks.append(self.hook)

    def is_p(self, t):
        return self.P.recognizer(0)(t)

    def dir(self, t):
        return z3.simplify(self.P.accessor(0, 0)(t))

    def name(self, t):
        return z3.simplify(self.P.accessor(0, 1)(t))

    def mk(self, d, n):
        return self.P.constructor(0)(d, n)

    def join(self, ctx, t):
        """join of a relative path"""
        return z3.If(self.is_p(t), self.mk(self.joindir(ctx, self.dir(t)), self.name(t)),
                     self.P.constructor(1)(self.joindir(ctx, self.P.accessor(1, 0)(t))))

    def with_extension(self, t, w):
        c = self.cut(self.name(t))
        n = z3.If(w == z3.StringVal(""), c, z3.Concat(c, z3.StringVal("."), w))
        return z3.simplify(z3.If(self.is_p(t), self.mk(self.dir(t), n), t))

    def axiom(self, t):
        if not z3.is_app(t):
            return
        n = t.decl().name()
        if n == "JOINDIR":
            # a bare name put under the directory of a path; directories put under one another
            c, d = t.children()
            if d.eq(self.nodir) and z3.is_app(c) and c.decl().eq(self.P.constructor(1)):
                q = c.arg(0)
                if z3.is_app(q) and q.decl().name() == "PARENT":
                    yield t == q.arg(0)
                elif z3.is_app(q) and q.decl().name() == "JOINDIR" and z3.is_app(q.arg(1)) and q.arg(1).decl().name() == "PARENT":
                    yield t == self.joindir(q.arg(0), q.arg(1).arg(0))
        if n == "bytes":
            yield z3.Implies(t.arg(0) == z3.StringVal(""), self.u.p.vec_len(t) == 0)
        if n == "SHOWN" and self.ext is not None:
            # the text of a path ends with its name, after a separator or nothing; extensions have no separator
            x = t.arg(0)
            pre = z3.Function("SHOWNDIR", self.D, S)(self.P.accessor(0, 0)(x))
            nm = self.P.accessor(0, 1)(x)
            end = z3.Concat(z3.StringVal("."), self.ext)
            yield z3.Implies(self.is_p(x), t == z3.Concat(pre, nm))
            yield z3.Implies(self.is_p(x), z3.SuffixOf(end, t) == z3.SuffixOf(end, nm))
        if n == "RELDIR":
            d, c = t.children()
            yield z3.Implies(self.under(d, c), self.joindir(c, t) == d)
        if n == "CUT":
            x = t.arg(0)
            dot = z3.StringVal(".")
            yield z3.Implies(z3.Not(z3.Contains(x, dot)), t == x)
            for a, b in self.seq.split_at(x) if self.seq else ():
                # the definition of the file stem, for a name made of a non-empty part, a dot and a part without dots
                yield z3.Implies(z3.And(x == z3.Concat(a, dot, b), z3.Not(z3.Contains(b, dot)), a != z3.StringVal("")), t == a)
        if n == "JOINDIR" and str(t.arg(0)) == "X(EMPTYDIR)":
            yield t == t.arg(1)
        if n == "PARTS":
            yield t >= 1
        if n == "PART":
            yield z3.Not(z3.Contains(t, z3.StringVal(".")))

    # ---- values
    def text(self, ex, st, v):
        v = bi.through(ex, st, v)
        if isinstance(v, StrV):
            return z3.StringVal(v.s if hasattr(v, "s") else v.v)
        if isinstance(v, Sym):
            if v.t.sort() == S:
                return v.t
            if v.t.sort() == self.P:
                raise Unsupported("path used as text")
        raise Unsupported("text expected, got %r" % (v,))

    def bytes(self, t, srt):
        return z3.Function("bytes", S, srt)(t)

    def pat(self, ex, st, x):
        """a text or a character"""
        if isinstance(x, Sym) and self.u.p.T[x.ty]["k"] == "char":
            c = conc(x.t)
            if c is None:
                raise Unsupported("character not known")
            return z3.StringVal(chr(c))
        return self.text(ex, st, x)

    def path(self, ex, st, v, dirs=False):
        v = bi.through(ex, st, v)
        if isinstance(v, Sym) and v.t.sort() == self.P:
            if not dirs and "PARENT" in str(v.t) and not z3.is_true(z3.simplify(self.is_p(v.t))):
                raise Unsupported("name of a directory")
            return v.t
        if isinstance(v, (StrV, Sym)):
            t = self.text(ex, st, v)
            if not dirs or z3.is_string_value(t) and (t.as_string() in ("", ".", "..") or "/" in t.as_string()):
                raise Unsupported("text used as a path")
            return self.mk(self.nodir, t)
        raise Unsupported("path expected, got %r" % (v,))

    def give(self, st, dty, t):
        """a text or path as a value of type dty (by value or by reference)"""
        e = self.u.p.T[dty]
        if e["k"] == "ref":
            return Ref(st.new(Sym(e["elem"], t)))
        return Sym(dty, t)

    # ---- contracts
    def hook(self, ex, st, fn, args, dty, stack):
        tr, name, self_, path = fn.get("trait"), fn.get("name"), fn.get("self") or "", fn.get("path") or ""
        u, p = self.u, self.u.p
        R = lambda v: [("ret", st, v)]
        if self_ in PATHS or self_ in TEXTS or path.startswith(("core::str::", "alloc::str::")):
            if tr in ("core::clone::Clone", "alloc::borrow::ToOwned", "alloc::string::ToString") or name in ("to_path_buf", "to_os_string", "to_string_lossy", "as_os_str",
                    "as_path", "as_str", "as_ref", "into_owned", "into_string", "into_os_string", "as_os_string", "borrow") and tr in (None, "core::convert::AsRef", "core::borrow::Borrow"):
                v = bi.through(ex, st, args[0])
                if isinstance(v, StrV):
                    return R(self.give(st, dty, self.text(ex, st, v)))
                if isinstance(v, Sym) and v.t.sort() in (S, self.P):
                    t = p.T[dty]
                    want = p.sort(t["elem"] if t["k"] == "ref" else dty)
                    if want == S and v.t.sort() == self.P and (name == "to_string_lossy" or tr == "alloc::string::ToString"):
                        return R(self.give(st, dty, z3.Function("SHOWN", self.P, S)(v.t)))
                    if want != v.t.sort():
                        raise Unsupported("conversion between texts and paths")
                    return R(self.give(st, dty, v.t))
                return None
            if tr == "core::cmp::PartialEq" and name in ("eq", "ne"):
                try:
                    a, b = self.text(ex, st, args[0]), self.text(ex, st, args[1])
                except Unsupported:
                    return None
                return R(ex.mk_bool(a == b if name == "eq" else a != b))
        if tr in ("core::convert::From", "core::convert::Into") and name in ("from", "into") and p.adt_path(dty) in PATHS + TEXTS and len(args) == 1:
            v = bi.through(ex, st, args[0])
            if isinstance(v, (StrV, Sym)):
                t = self.text(ex, st, v) if isinstance(v, StrV) else v.t
                if t.sort() == p.sort(dty):
                    return R(Sym(dty, t))
        if tr == "core::default::Default" and p.T[dty]["k"] == "ref" and p.sort(p.T[dty]["elem"]) == S:
            return R(self.give(st, dty, z3.StringVal("")))
        if self_ in ("alloc::string::String", "std::ffi::os_str::OsString"):
            if name == "new" and not args or tr == "core::default::Default":
                return R(Sym(dty, z3.StringVal("")))
            if name in ("push", "push_str") and tr is None:
                a, v = bi.deep_addr(ex, st, args[0])
                x = args[1]
                if isinstance(x, Sym) and p.T[x.ty]["k"] == "char":
                    c = conc(x.t)
                    if c is None:
                        raise Unsupported("character pushed")
                    w = z3.StringVal(chr(c))
                else:
                    w = self.text(ex, st, x)
                ex.store(st, a, Sym(v.ty, z3.Concat(v.t, w)))
                return R(ex.unit_val())
        if self_ == "std::path::PathBuf" and (tr == "core::default::Default" or name == "new" and tr is None) and not args:
            return R(Sym(dty, self.P.constructor(1)(z3.Const("EMPTYDIR", self.D))))
        if self_ == "std::path::Path" and tr is None:
            if name == "new":
                return R(self.give(st, dty, self.path(ex, st, args[0])))
            t = self.path(ex, st, args[0], name in ("join", "parent", "ends_with", "starts_with", "to_path_buf"))
            if name == "parent":
                out = []
                for s, b in ex.fork(st, self.is_p(t)):
                    if not b:
                        # a directory: it has a parent or, being a root or empty, has not
                        some = z3.Function("HASPARENT", self.P, z3.BoolSort())(t)
                        for s2, y in ex.fork(s, some):
                            up = z3.Function("UPPER", self.P, self.P)(t)
                            if y:
                                s2.assume(up != t)
                            out.append(("ret", s2, bi.opt(ex, dty, self.give(s2, p.T[dty]["args"][0], up)) if y else bi.opt(ex, dty)))
                        continue
                    if "PARENT" in str(t):
                        raise Unsupported("parent of a parent")
                    out.append(("ret", s, bi.opt(ex, dty, self.give(s, p.T[dty]["args"][0], z3.simplify(self.P.constructor(1)(self.par(self.dir(t))))))))
                return out
            if name in ("ends_with", "starts_with"):
                v = bi.through(ex, st, args[1])
                w = self.path(ex, st, v) if isinstance(v, Sym) and v.t.sort() == self.P else None
                if name == "starts_with" and w is not None and ex.s.prove("paths compared have a file name", st.pc, self.is_p(t)):
                    # under the directory, or the very path
                    return R(ex.mk_bool(z3.Or(t == w, self.under(self.dir(t), w))))
                if name == "ends_with" and w is None:
                    # a path with a file name ends with a single name exactly if that is its name
                    x = self.name(self.path(ex, st, v, True))
                    if "PARENT" not in str(t):
                        return R(ex.mk_bool(z3.If(self.is_p(t), self.name(t) == x, z3.Function("ENDS", self.P, S, z3.BoolSort())(t, x))))
                    return R(ex.mk_bool(z3.Function("ENDS", self.P, S, z3.BoolSort())(t, x)))
                if name == "starts_with" and w is None and z3.is_string_value(self.text(ex, st, v)):
                    return R(ex.mk_bool(z3.Function("STARTS", self.P, S, z3.BoolSort())(t, self.text(ex, st, v))))
                raise Unsupported("path compared by " + name)
            if name == "file_name":
                out = []
                for s, b in ex.fork(st, self.is_p(t)):
                    et = p.T[dty]["args"][0]
                    out.append(("ret", s, bi.opt(ex, dty, self.give(s, et, self.name(t))) if b else bi.opt(ex, dty)))
                return out
            if name == "with_file_name":
                w = self.text(ex, st, args[1])
                d = z3.If(self.is_p(t), self.dir(t), self.xdir(self.P.accessor(1, 0)(t)))
                return R(Sym(dty, self.mk(z3.simplify(d), w)))
            if name == "with_extension":
                return R(Sym(dty, self.with_extension(t, self.text(ex, st, args[1]))))
            if name == "join":
                return R(Sym(dty, z3.simplify(self.join(t, self.path(ex, st, args[1], True)))))
            if name == "is_file":
                return R(ex.mk_bool(self.isfile(t)))
            if name in ("file_stem", "extension"):
                n = self.name(t)
                f = z3.Function("EXTENSION", S, S)
                has = self.is_p(t) if name == "file_stem" else z3.And(self.is_p(t), z3.Function("HASEXT", S, z3.BoolSort())(n))
                w = self.cut(n) if name == "file_stem" else f(n)
                out = []
                for s, b in ex.fork(st, has):
                    if b and name == "extension":
                        s.assume(n == z3.Concat(self.cut(n), z3.StringVal("."), w), z3.Not(z3.Contains(w, z3.StringVal("."))), self.cut(n) != z3.StringVal(""))
                    elif name == "extension":
                        s.assume(z3.Implies(self.is_p(t), self.cut(n) == n))
                    out.append(("ret", s, bi.opt(ex, dty, self.give(s, p.T[dty]["args"][0], w)) if b else bi.opt(ex, dty)))
                return out
            if name == "is_symlink":
                return R(ex.mk_bool(z3.Function("is_symlink", t.sort(), z3.BoolSort())(t)))
            if name in ("exists", "is_dir"):
                # something that is no file may be there as well
                other = z3.Function("isdir", t.sort(), z3.BoolSort())(t)
                return R(ex.mk_bool(z3.And(other, z3.Not(self.isfile(t))) if name == "is_dir" else z3.Or(self.isfile(t), other)))
            if name == "strip_prefix":
                c = self.path(ex, st, args[1])
                okt, et = p.T[dty]["args"]
                X = self.P.constructor(1)
                d = z3.simplify(z3.If(self.is_p(t), self.dir(t), self.P.accessor(1, 0)(t)))
                rel = z3.simplify(z3.If(self.is_p(t), self.mk(self.reldir(d, c), self.name(t)), X(self.reldir(d, c))))
                out = []
                for s, b in ex.fork(st, self.under(d, c)):
                    if b:
                        out.append(("ret", s, Agg(dty, 0, (self.give(s, okt, rel),))))
                        continue
                    for s2, same in ex.fork(s, t == c):
                        out.append(("ret", s2, Agg(dty, 0, (self.give(s2, okt, X(self.nodir)),)) if same else Agg(dty, 1, (u.sym(et, "noprefix"),))))
                return out
        if self_ == "std::path::PathBuf" and tr is None and name in ("push", "set_file_name", "set_extension"):
            a, v = bi.deep_addr(ex, st, args[0])
            t = self.path(ex, st, v, name == "push")
            if name == "push":
                ex.store(st, a, Sym(v.ty, z3.simplify(self.join(t, self.path(ex, st, args[1], True)))))
                return R(ex.unit_val())
            w = self.text(ex, st, args[1])
            if name == "set_file_name":
                d = z3.If(self.is_p(t), self.dir(t), self.xdir(self.P.accessor(1, 0)(t)))
                ex.store(st, a, Sym(v.ty, self.mk(z3.simplify(d), w)))
                return R(ex.unit_val())
            ex.store(st, a, Sym(v.ty, self.with_extension(t, w)))
            return R(ex.mk_bool(self.is_p(t)))
        if path == "std::fs::read":
            t = self.path(ex, st, args[0])
            f = z3.Function("READ", self.P, p.sort(dty))
            st.ghost["reads"] = st.ghost["reads"] + (t,)
            return R(Sym(dty, f(t)))
        if path in ("std::fs::metadata", "std::fs::symlink_metadata") or self_ == "std::path::Path" and name in ("metadata", "symlink_metadata"):
            # of what is known there is only that a file has some
            t = self.path(ex, st, args[0])
            r = z3.Function("METADATA_" + name, self.P, p.sort(dty))(t)
            st.assume(z3.Implies(self.isfile(t), p.sort(dty).recognizer(0)(r)))
            return R(Sym(dty, r))
        if path == "std::fs::read_to_string" or path == "alloc::string::String::from_utf8":
            rs = self.read_type()
            vec = [x for x in (p.T[rs]["args"][0],)][0]
            out = []
            if name == "from_utf8":
                arr, n, _ = bi.vec_of(ex, st, bi.through(ex, st, args[0]))
                w, ok = p.vec_mk(arr, n), None
            else:
                t = self.path(ex, st, args[0])
                st.ghost["reads"] = st.ghost["reads"] + (t,)
                g = z3.Function("READ", self.P, p.sort(rs))(t)
                w, ok = p.sort(rs).accessor(0, 0)(g), p.sort(rs).recognizer(0)(g)
            txt = z3.Function("LOSSY", w.sort(), S)(w)
            utf8 = z3.Function("UTF8", w.sort(), z3.BoolSort())(w)
            for s, b in ex.fork(st, utf8 if ok is None else z3.And(ok, utf8)):
                if b:
                    s.assume(self.bytes(txt, w.sort()) == w)
                    out.append(("ret", s, Agg(dty, 0, (Sym(p.T[dty]["args"][0], txt),))))
                else:
                    out.append(("ret", s, Agg(dty, 1, (u.sym(p.T[dty]["args"][1], "notext"),))))
            return out
        if self_ in ("std::fs::Metadata", "std::fs::FileType") and tr is None and len(args) == 1:
            e = bi.through(ex, st, args[0])
            r = z3.Function(self_ + "::" + name, e.t.sort(), p.sort(dty))(e.t)
            if name == "len":
                st.assume(r >= 0)
            return R(Sym(dty, r))
        if path.startswith("std::fs::") or path.startswith("std::os::"):
            raise Unsupported("file system access: " + path)
        if path == "regex::escape":
            return R(Sym(dty, self.escape(self.text(ex, st, args[0]))))
        if path == "core::fmt::rt::Argument::<'_>::new_display":
            try:
                return R(Opaque(dty, ("arg", self.text(ex, st, args[0]))))
            except Unsupported:
                return R(Opaque(dty, "formatted"))
        if self_ == "core::fmt::Arguments" and name == "new":
            return R(Opaque(dty, ("text", self.template(ex, st, args))))
        if path == "alloc::fmt::format":
            a = args[0]
            if isinstance(a, Opaque) and isinstance(a.tag, tuple) and a.tag[1] is not None:
                return R(Sym(dty, a.tag[1]))
            raise Unsupported("formatted text not recognised")
        if self_ == REGEX and name == "new":
            t = self.text(ex, st, args[0])
            k = len(self.patterns)
            self.patterns.append(self.pattern(t))
            return R(Agg(dty, 0, (Sym(p.T[dty]["args"][0], z3.StringVal("pattern %d" % k)),)))
        if self_ == REGEX and name == "is_match":
            re_ = bi.through(ex, st, args[0])
            t = z3.simplify(re_.t)
            if not (z3.is_string_value(t) and t.as_string().startswith("pattern ")):
                raise Unsupported("pattern not known")
            return R(ex.mk_bool(self.patterns[int(t.as_string()[8:])](self.text(ex, st, args[1]))))
        if path in ("core::str::<impl str>::ends_with", "core::str::<impl str>::starts_with", "core::str::<impl str>::contains"):
            t, w = self.text(ex, st, args[0]), self.pat(ex, st, args[1])
            return R(ex.mk_bool({"ends_with": z3.SuffixOf, "starts_with": z3.PrefixOf, "contains": lambda b, a: z3.Contains(a, b)}[name](w, t)))
        if path in ("core::str::<impl str>::strip_suffix", "core::str::<impl str>::strip_prefix"):
            t, w = self.text(ex, st, args[0]), self.pat(ex, st, args[1])
            at = z3.Length(w) if name == "strip_prefix" else I(0)
            out = []
            for s, b in ex.fork(st, (z3.PrefixOf if name == "strip_prefix" else z3.SuffixOf)(w, t)):
                out.append(("ret", s, bi.opt(ex, dty, self.give(s, p.T[dty]["args"][0], z3.SubString(t, at, z3.Length(t) - z3.Length(w)))) if b else bi.opt(ex, dty)))
            return out
        if path == "core::str::<impl str>::eq_ignore_ascii_case":
            t, w = self.text(ex, st, args[0]), self.text(ex, st, args[1])
            return R(ex.mk_bool(z3.Or(t == w, z3.Function("SAME_BUT_CASE", S, S, z3.BoolSort())(t, w))))
        if path.startswith(("core::str::<impl str>::", "alloc::str::<impl str>::")) and name in ("trim", "trim_start", "trim_end", "trim_start_matches", "trim_end_matches",
                "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat",
                "trim_matches") and p.T[dty]["k"] in ("ref", "adt"):
            # another text, depending on nothing else
            ts, key = [self.text(ex, st, args[0])], [name]
            for x in args[1:]:
                try:
                    ts.append(self.text(ex, st, x))
                except Unsupported:
                    c = conc(x.t) if isinstance(x, Sym) else None
                    if c is None:
                        raise Unsupported("text changed by " + name)
                    key.append(str(c))
            f = z3.Function("TEXT_" + "_".join(key), *([S] * len(ts) + [S]))
            return R(self.give(st, dty, f(*ts)))
        if name in ("as_bytes", "into_bytes") and (self_ in TEXTS or path.startswith("core::str::<impl str>::")):
            vt = p.T[dty]["elem"] if p.T[dty]["k"] == "ref" else dty
            r = Sym(vt, self.bytes(self.text(ex, st, args[0]), p.sort(vt)))
            return R(Ref(st.new(r)) if p.T[dty]["k"] == "ref" else r)
        if tr in ("core::convert::From", "core::convert::Into") and p.adt_path(dty) == VEC and len(args) == 1 and p.adt_path(getattr(args[0], "ty", None) or 0) in TEXTS:
            return R(Sym(dty, self.bytes(self.text(ex, st, args[0]), p.sort(dty))))
        if path in ("alloc::string::String::from_utf8_lossy", "alloc::string::String::from_utf8_lossy_owned"):
            v = bi.through(ex, st, args[0])
            arr, n, _ = bi.vec_of(ex, st, v)
            w = p.vec_mk(arr, n)
            return R(Sym(dty, z3.Function("LOSSY", w.sort(), S)(w)))
        if path == "core::str::<impl str>::split":
            c = args[1]
            if not (isinstance(c, Sym) and p.T[c.ty]["k"] == "char" and conc(c.t) == ord(".")):
                raise Unsupported("split not by a dot")
            t = self.text(ex, st, args[0])
            ty = p.bys.get("&str")
            return R(IterV("seq", mode="opaque", lo=I(0), hi=self.parts(t), ety=ty,
                           item=lambda ex, s, i: Ref(s.new(Sym(p.T[ty]["elem"], self.part(t, i))))))
        if self_ == "ignore::walk::DirEntry" and name in ("path", "file_name", "into_path"):
            e = bi.through(ex, st, args[0])
            t = self.pathof(e.t)
            if name == "file_name":
                f = z3.Function("ENTRYNAME", e.t.sort(), S)
                return R(self.give(st, dty, f(e.t)))
            return R(self.give(st, dty, t))
        if self_ == "ignore::walk::DirEntry" and tr is None and name in ("metadata", "file_type", "depth", "path_is_symlink"):
            # nothing is known about these but that they depend on the entry
            e = bi.through(ex, st, args[0])
            r = z3.Function("ENTRY_" + name, e.t.sort(), p.sort(dty))(e.t)
            if name == "depth":
                st.assume(r >= 0)
            return R(Sym(dty, r))
        if self_ == "ignore::walk::Walk" and name == "new":
            return R(self.walk(st, self.path(ex, st, args[0]), True))
        if self_ == "ignore::walk::WalkBuilder":
            # Walk::new(path) is WalkBuilder::new(path).build()
            if name == "new":
                return R(Opaque(dty, ("walk", self.path(ex, st, args[0]), True)))
            a, b = bi.deep_addr(ex, st, args[0])
            if not (isinstance(b, Opaque) and isinstance(b.tag, tuple) and b.tag[0] == "walk"):
                raise Unsupported("directory walk not recognised")
            if name == "build":
                return R(self.walk(st, b.tag[1], b.tag[2]))
            none = len(args) == 2 and p.adt_path(getattr(args[1], "ty", None) or 0) == OPTION and isinstance(args[1], Agg) and args[1].v == 0
            if name in ("max_depth", "max_filesize"):
                # a limit leaves out files
                ex.store(st, a, Opaque(b.ty, ("walk", b.tag[1], b.tag[2] if none else False)))
                return R(args[0])
            if name == "add_custom_ignore_filename":
                # files that such a file names are left out
                ex.store(st, a, Opaque(b.ty, ("walk", b.tag[1], False)))
                return R(args[0])
            if none and name == "min_depth" or name in ("sort_by_file_path", "sort_by_file_name", "threads"):
                return R(args[0])
            if name in TOGGLES and len(args) == 2 and isinstance(args[1], Sym):
                c = conc(args[1].t)
                if c is None:
                    raise Unsupported("directory walk changed by " + name)
                if bool(c) == TOGGLES[name]:
                    return R(args[0])       # as it is by default
                # other files are walked
                ex.store(st, a, Opaque(b.ty, ("walk", b.tag[1], False)))
                return R(args[0])
            raise Unsupported("directory walk changed by " + name)
        if tr == "core::convert::AsRef" and name == "as_ref":
            return R(args[0])
        return None

    def walk(self, st, t, all_):
        """the entries of a walk of the directory t"""
        u, p = self.u, self.u.p
        u.prove("the directory of the repository is walked", st, t == self.context)
        if not all_:
            u.prove("no file is left out or walked in addition by options of the walk", st, z3.BoolVal(False))
        n = u.const("entries", z3.IntSort())
        st.assume(n > 0)
        it = [x for x in p.T if x["k"] == "adt" and x["path"] == RESULT and p.adt_path(x["args"][0]) == "ignore::walk::DirEntry"]
        if len(it) != 1:
            raise Unsupported("entries of the walk not recognised")
        ty = p.T.index(it[0])
        f = z3.Function("ENTRY", z3.IntSort(), p.sort(ty))
        self.entry = (f, ty)
        return IterV("seq", mode="opaque", lo=I(0), hi=n, ety=ty, item=lambda ex, s, i: Sym(ty, f(i)))

    def read_type(self):
        """what reading a file gives"""
        p = self.u.p
        rt = [i for i, t in enumerate(p.T) if t["k"] == "adt" and t["path"] == RESULT and p.adt_path(t["args"][0]) == VEC
              and p.adt_path(t["args"][1]) == "core::io::error::Error"]
        if not rt:
            raise Unsupported("files are not read whole")
        return rt[0]

    def pathof(self, e):
        return z3.Function("PATHOF", e.sort(), self.P)(e)

    def template(self, ex, st, args):
        """text of a format template with all arguments known, or None"""
        tm = bi.through(ex, st, args[0])
        arr = bi.through(ex, st, args[1])
        try:
            raw = ast.literal_eval(tm.tag) if isinstance(tm, Opaque) else None
        except Exception:
            raw = None
        if raw is None or not isinstance(arr, Agg):
            return None
        vals = [x.tag[1] if isinstance(x, Opaque) and isinstance(x.tag, tuple) else None for x in arr.f]
        parts, i, k = [], 0, 0
        while i < len(raw):
            b = raw[i]
            if b == 0:
                break
            if b == 0xC0:
                if k >= len(vals) or vals[k] is None:
                    return None
                parts.append(vals[k])
                k += 1
                i += 1
            elif b < 0x80:
                parts.append(z3.StringVal(raw[i + 1:i + 1 + b].decode("utf-8")))
                i += 1 + b
            else:
                return None
        if k != len(vals):
            return None
        return z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else z3.StringVal("")

    def pattern(self, t):
        """the texts a pattern matches"""
        def flat(x):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                return [z for y in x.children() for z in flat(y)]
            return [x]
        ps = flat(t)
        lit = [z3.is_string_value(x) for x in ps]
        if len(ps) in (2, 3) and lit[0] and not lit[1] and (len(ps) == 2 or lit[2]):
            unesc = lambda x: re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m[1], 16)), x.as_string())
            head, tail = unesc(ps[0]), unesc(ps[2]) if len(ps) == 3 else ""
            fold = head.startswith("(?i)")
            head = head[4:] if fold else head
            quoted = z3.is_app(ps[1]) and ps[1].decl().name() == "ESCAPE"
            if head in ("\\.", "[.]", ".") and tail in ("$", "\\z", ""):
                w = z3.Concat(z3.StringVal("."), ps[1].arg(0) if quoted else ps[1])
                exact = z3.SuffixOf if tail else lambda w, x: z3.Contains(x, w)
                # without the escapes, or ignoring case, other names match as well
                more = z3.Function("MATCHES_" + "".join("%02x" % ord(c) for c in unesc(ps[0])) + str(quoted) + tail, S, S, z3.BoolSort())
                if not fold and quoted and head != ".":
                    return lambda x: exact(w, x)
                if quoted:
                    return lambda x: z3.Or(exact(w, x), more(w, x))
                return lambda x: more(w, x)
        raise Unsupported("pattern not recognised: %s" % [str(x) for x in ps])


def repository(u, F, st, ty):
    p = u.p
    if p.adt_path(ty) != REPOSITORY:
        raise Unsupported("repository type not recognised")
    fs = p.fields(ty)
    i_c = u.fidx(ty, u.is_path(*PATHS), "directory")
    i_e = u.fidx(ty, lambda f: p.adt_path(f) in TEXTS, "extension")
    if len(fs) != 2:
        raise Unsupported("repository has fields the contract does not know")
    f = [None, None]
    F.context = u.const("context", F.P)
    F.ext = u.const("ext", S)
    f[i_c], f[i_e] = Sym(fs[i_c], F.context), Sym(fs[i_e], F.ext)
    st.ghost["reads"] = ()
    return st.new(Agg(ty, 0, f))


DOT = z3.StringVal(".")


def find_by_id(u):
    u.find("plotline_cli", "find_by_id", "LocalDocumentRepository", "plotline::document::DocumentRepository")
    p = u.p
    F = FS(u)
    st = State()
    a0, a1 = u.arg_tys()
    repo = repository(u, F, st, p.T[a0]["elem"])
    idv = u.const("id", F.P)
    st.assume(F.is_p(idv))
    u.satisfiable(st)
    want = F.join(F.context, F.mk(F.dir(idv), z3.Concat(F.name(idv), DOT, F.ext)))
    before = st.clone()
    oks = 0
    for s, r in u.returns(u.call(st, [Ref(repo), Ref(st.new(Sym(p.T[a1]["elem"], idv)))])):
        reads = s.ghost["reads"]
        u.prove("a document is read", s, z3.BoolVal(len(reads) > 0))
        for t in reads:
            u.prove("exactly the file named by the id, a dot and the extension is read", s, t == want)
        same_heap(u, s, before, "loading changes nothing")
        if not reads:
            continue
        rs = p.sort(F.read_type())
        got = z3.Function("READ", F.P, rs)(want)
        for s2, a in u.cases(s, r):
            if a.v == 0:
                u.prove("nothing is loaded only if there is no such file", s2, rs.recognizer(1)(got))
            else:
                oks += 1
                d = a.f[0]
                dt = d.ty
                i_b = u.fidx(dt, u.is_path(VEC), "bytes")
                u.prove("a document is loaded only from an existing file", s2, rs.recognizer(0)(got))
                u.prove("the bytes of the file are loaded", s2, p.acc(dt, 0, i_b, u.ex.lower(s2, d)) == rs.accessor(0, 0)(got))
    if not oks:
        raise Unsupported("no successful path")


class Q:
    """the name of a document followed by the first j parts of the extension"""

    def __init__(self, u, F, X):
        self.u, self.F, self.X = u, F, X
        self.n = F.parts(F.ext)
        self.q = z3.Function("Q", z3.IntSort(), S)
        self.j = z3.Function("JOINED", z3.IntSort(), S)
        self.w = z3.Function("SHORTENED", S, z3.IntSort(), S)
        F.seq = self
        u.s.axioms.append(self.axiom)

    def shortened(self, old):
        """a path with its name shortened i times"""
        F = self.F
        return lambda i: Sym(old.ty, z3.simplify(z3.If(F.is_p(old.t), F.mk(F.dir(old.t), self.w(F.name(old.t), i)), old.t)))

    def deep(self, i):
        """written as something minus two or more: not unfolded further"""
        i = z3.simplify(i)
        if z3.is_add(i):
            return any(z3.is_int_value(x) and x.as_long() < -1 for x in i.children())
        return z3.is_int_value(i) and i.as_long() < 0

    lemma = False

    def split_at(self, x):
        """candidates for a name and what follows its last dot"""
        out = [(self.q(self.n - 1), self.F.part(self.F.ext, self.n - 1))]
        if z3.is_app(x) and x.decl().name() == "Q":
            i = z3.simplify(x.arg(0) - 1)
            out.append((self.q(i), self.F.part(self.F.ext, i)))
        if z3.is_app(x) and x.decl().name() == "SHORTENED":
            i = z3.simplify(self.n - x.arg(1) - 1)
            out.append((self.q(i), self.F.part(self.F.ext, i)))
        return out

    def axiom(self, t):
        if z3.is_app(t) and t.decl().name() == "SHORTENED":
            # a name shortened i times
            x, i = t.arg(0), z3.simplify(t.arg(1))
            yield z3.Implies(i == 0, t == x)
            if not self.deep(i):
                yield z3.Implies(i > 0, t == self.F.cut(self.w(x, z3.simplify(i - 1))))
            if not self.lemma:
                yield z3.Implies(z3.And(i >= 0, i <= self.n, x == z3.Concat(self.X, DOT, self.F.ext), self.X != z3.StringVal("")),
                                 t == self.q(z3.simplify(self.n - i)))     # lemma "shortened"
            return
        if not (z3.is_app(t) and t.num_args() == 1 and t.decl().name() in ("Q", "JOINED")):
            return
        F, i = self.F, z3.simplify(t.arg(0))
        prev = z3.simplify(i - 1)
        part = F.part(F.ext, prev)
        if t.decl().name() == "JOINED":
            # the contract of split: the parts, joined by dots, are the text
            yield z3.Implies(i == 1, t == F.part(F.ext, I(0)))
            if not self.deep(i):
                yield z3.Implies(i > 1, t == z3.Concat(self.j(prev), DOT, part))
            yield z3.Implies(i == self.n, t == F.ext)
            return
        yield z3.Implies(i <= 0, t == self.X)
        if not self.deep(i):
            yield z3.Implies(i > 0, t == z3.Concat(self.q(prev), DOT, part))
        if not self.lemma:
            yield z3.Implies(i >= 1, t == z3.Concat(self.X, DOT, self.j(i)))     # lemma "parts"
            yield z3.Implies(self.X != z3.StringVal(""), t != z3.StringVal(""))    # lemma "not empty"


def listing(u):
    u.find("plotline_cli", "all", "LocalDocumentRepository", False)
    p = u.p
    F = FS(u)
    st = State()
    a0 = u.arg_tys()[0]
    arc = p.T[a0]["elem"]
    if p.adt_path(arc) != ARC:
        raise Unsupported("shared repository expected")
    repo = repository(u, F, st, p.T[arc]["args"][0])
    st.arcs[repo] = u.const("count", z3.IntSort())
    st.assume(st.arcs[repo] >= 1)
    me = st.new(ArcV(arc, repo))
    yes = no = 0
    for s0, r in u.returns(u.call(st, [Ref(me)])):
        if not isinstance(r, IterV):
            raise Unsupported("listing is not a lazy iterator")
        u.prove("making the list reads no document", s0, z3.BoolVal(not s0.ghost["reads"]))
        f, ety = F.entry
        base = bi.it_base(r)
        if base.kind != "seq" or base.p["mode"] != "opaque":
            raise Unsupported("listing is not made from the walk")
        # an arbitrary entry of the walk
        pos = u.const("pos", z3.IntSort())
        s1 = s0.clone()
        s1.assume(pos >= 0, pos < base.p["hi"])
        it = bi.it_advance(u.ex, r, pos)
        so = p.sort(ety)
        e = f(pos)
        okv = so.recognizer(0)(e)
        entry = so.accessor(0, 0)(e)
        path = F.pathof(entry)
        name = z3.Function("ENTRYNAME", entry.sort(), S)(entry)
        d = u.const("dir", F.D)
        # contract of the walk: a file has a name, is not hidden and lies under the directory
        s1.assume(z3.Implies(z3.And(okv, F.isfile(path)), z3.And(path == F.mk(d, name), F.under(d, F.context),
                                                                  z3.Not(z3.PrefixOf(DOT, name)), name != z3.StringVal(""))))
        X = u.const("X", S)
        end = z3.Concat(DOT, F.ext)
        s1.assume(z3.Implies(z3.SuffixOf(end, name), name == z3.Concat(X, end)))     # names the rest of the name
        listed = z3.And(okv, F.isfile(path), z3.SuffixOf(end, name))
        Qf = Q(u, F, X)
        n = Qf.n

        def loop(ex, s, it):
            if "acc" not in u.loop_cells:
                return None
            a = u.loop_cells["acc"]
            old = ex.load(s, a)
            if not (isinstance(old, Sym) and old.t.sort() == F.P):
                return None
            return {"cells": [(a, Qf.shortened(old))], "facts": []}
        u.loop_f = loop
        # a path changed by a loop over the parts of the extension
        u.cell_hints.append(lambda ex, s, it, a, old, Qf=Qf: None if not (isinstance(old, Sym) and old.t.sort() == F.P) else
                            Qf.shortened(old))
        for k, s, x, _ in bi.step(u.ex, s1, it, ()):
            if k in ("panic", "abort"):
                u.never("listing does not panic", s)
                continue
            if k == "end":
                u.never("every entry of the walk is looked at", s)
                continue
            u.prove("listing reads no document", s, z3.BoolVal(not s.ghost["reads"]))
            if k == "skip":
                no += 1
                u.prove("only what is not a document is left out", s, z3.Not(listed))
                continue
            yes += 1
            u.prove("only documents are listed", s, listed)
            if not (isinstance(x, Agg) and p.adt_path(x.ty) == LAZY):
                raise Unsupported("entry of the list not recognised")
            L = Lazy(u, x.ty)
            rp, i, c = (u.ex.get1(x, ("f", 0, j)) for j in (L.i_repo, L.i_id, L.i_val))
            u.prove("a listed document is loaded from this repository", s, z3.BoolVal(isinstance(rp, ArcV) and rp.loc == repo))
            u.prove("a listed document is not loaded yet", s, z3.Not(loaded(c)))
            u.prove("the id is the path below the directory without the dot and the extension", s,
                    u.ex.lower(s, i) == F.mk(F.reldir(d, F.context), X))
    if not yes or not no:
        raise Unsupported("no entry is listed or none is left out")


def lemmas(u):
    u.find("plotline_cli", "all", "LocalDocumentRepository", False)
    F = FS(u)
    F.ext, X = u.const("ext", S), u.const("X", S)
    Qf = Q(u, F, X)
    Qf.lemma = True
    j = u.const("j", z3.IntSort())
    E = z3.StringVal("")
    u.prove("parts, base", [Qf.n >= 1], Qf.q(I(1)) == z3.Concat(X, DOT, Qf.j(I(1))))
    u.prove("parts, step", [j >= 1, Qf.q(j) == z3.Concat(X, DOT, Qf.j(j))], Qf.q(j + 1) == z3.Concat(X, DOT, Qf.j(j + 1)))
    u.prove("not empty, base", [X != E], Qf.q(I(0)) != E)
    u.prove("not empty, step", [j >= 0, X != E, Qf.q(j) != E], Qf.q(j + 1) != E)
    # taking the extension apart from the end
    name = u.const("name", S)
    full = name == z3.Concat(X, DOT, F.ext)
    u.prove("shortened, base", [full, X != E, Qf.n >= 1, Qf.q(Qf.n) == z3.Concat(X, DOT, Qf.j(Qf.n))], Qf.w(name, I(0)) == Qf.q(Qf.n))
    u.prove("shortened, step", [full, j >= 0, j < Qf.n, Qf.w(name, j) == Qf.q(Qf.n - j), z3.Or(Qf.n - j - 1 == 0, Qf.q(Qf.n - j - 1) != E), X != E],
            Qf.w(name, j + 1) == Qf.q(Qf.n - j - 1))


def round_trip(u):
    """over the two contracts: loading by a listed id reads exactly the listed file"""
    u.find("plotline_cli", "all", "LocalDocumentRepository", False)
    F = FS(u)
    d, X, ext, ctx = u.const("dir", F.D), u.const("X", S), u.const("ext", S), u.const("context", F.P)
    name = z3.Concat(X, DOT, ext)
    st = State()
    st.assume(F.under(d, ctx))
    idv = F.mk(F.reldir(d, ctx), X)
    read = F.join(ctx, F.mk(F.dir(idv), z3.Concat(F.name(idv), DOT, ext)))
    u.prove("a listed document loads from its own file", st, read == F.mk(d, name))
    d2, X2 = u.const("dir2", F.D), u.const("X2", S)
    st.assume(F.under(d2, ctx))
    u.prove("different files have different ids", st, z3.Implies(F.mk(F.reldir(d2, ctx), X2) == idv, F.mk(d2, z3.Concat(X2, DOT, ext)) == F.mk(d, name)))


def check(v):
    v.unit("LocalDocumentRepository::find_by_id", find_by_id)
    v.unit("LocalDocumentRepository::all", listing)
    v.unit("lemma parts of the extension", lemmas)
    v.unit("lemma listed documents load", round_trip)
