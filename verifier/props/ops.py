"""Save::execute and Delete::execute against the contracts of Transaction::with and of a round of triggers."""
from common import *

TRIGGER = "plotline::schema::trigger::Trigger"
TSET = "plotline::schema::trigger::TriggerSet"
EVENTS = {"save": ("plotline::schema::ops::save::BeforeSave", "plotline::schema::ops::save::AfterSave"),
          "delete": ("plotline::schema::ops::delete::BeforeDelete", "plotline::schema::ops::delete::AfterDelete")}


class Op:
    def __init__(self, u, kind):
        self.u, self.kind = u, kind
        self.C = None
        u.hooks.append(self.hook)

    # ---- contracts of the callees
    def hook(self, ex, st, fn, args, dty, stack):
        tr, name, self_ = fn.get("trait"), fn.get("name"), fn.get("self") or ""
        if tr == TX and name == "with" and fn.get("k") == "unresolved":
            return self.with_(ex, st, args, dty, stack)
        if name == "select" and self_.endswith("trigger::TriggerSet"):
            return self.select(ex, st, fn, args, dty)
        if name == "execute" and tr == TRIGGER and self_.endswith("trigger::TriggerSelect"):
            return self.round(ex, st, args, dty)
        if tr == SOURCE and name in ("get", "contains") and isinstance(args[0], Ref) and self.C:
            a, v = bi.deep_addr(ex, st, args[0])
            if isinstance(v, Agg) and v.ty == self.C.ty:
                o = z3.Select(self.meaning(st, v), bi.key_of(ex, st, args[1]))
                return [("ret", st, ex.mk_bool(bi.is_some(o)) if name == "contains" else Sym(dty, o))]
        return None

    def meaning(self, st, v):
        """what a context reads, by the contract of Context::get"""
        lk = st.heap[self.C.ops_loc(v)]
        return self.C.log.apply(lk.v, self.base)

    def with_(self, ex, st, args, dty, stack):
        """runs the body once on a context of its own; success of the body is committed or reported as a failure"""
        u = self.u
        st.ghost["with"] = st.ghost.get("with", 0) + 1
        f = args[1]
        k = f.key if isinstance(f, Agg) else f.fn.get("key") if isinstance(f, FnV) else None
        if k not in ex.insts:
            raise Unsupported("body of the transaction not recognised")
        b = ex.insts[k]["body"]
        ct = [t for t in b["locals"][1:1 + b["argc"]] if u.p.adt_path(t) == CTX]
        if len(ct) != 1:
            raise Unsupported("body of the transaction not recognised")
        C = self.C = Ctx(u, ct[0])
        ctx, ops, log, base = arb_ctx(u, st, C, nested=True, poison=z3.BoolVal(False), target=None)
        self.base = base
        st.ghost["ops"], st.ghost["log0"] = ops, log
        st.ghost["rounds"] = ()
        self.schema = C.field(st.heap[ctx], C.i_schema)
        out = []
        for kind, s, v in ex.call_value(st, f, [st.heap[ctx]], dty, stack):
            if kind != "ret":
                s.ghost["end"] = "panic"
                out.append((kind, s, v))
                continue
            for s2, a in u.cases(s, v):
                if a.v == 0:
                    s3 = s2.clone()
                    s2.ghost["end"] = "committed"
                    out.append(("ret", s2, a))
                    s3.ghost["end"] = "refused"
                    et = u.p.T[dty]["args"][1]
                    e = u.const("refusal", u.p.sort(et))
                    s3.ghost["error"] = e
                    out.append(("ret", s3, Agg(dty, 1, (Sym(et, e),))))
                else:
                    s2.ghost["end"] = "body failed"
                    out.append(("ret", s2, a))
        return out

    def select(self, ex, st, fn, args, dty):
        u = self.u
        ts = [n for n, f in enumerate(u.p.fields(self.C.schema_ty)) if u.p.adt_path(f) == TSET]
        if len(ts) != 1 or not isinstance(args[0], Ref):
            raise Unsupported("triggers of the schema not recognised")
        a, _ = bi.deep_addr(ex, st, args[0])
        u.same("the schema's own triggers are asked", st, Ref(*a), Ref(self.schema.loc, self.schema.path + (("f", 0, ts[0]),)))
        ev = [u.p.adt_path(t) for t in fn["args"] if isinstance(t, int) and u.p.T[t]["k"] == "adt"]
        ev = [e for e in ev if e in EVENTS["save"] + EVENTS["delete"]]
        if len(ev) != 1:
            raise Unsupported("event not recognised")
        return [("ret", st, Opaque(dty, ("select", ev[0])))]

    def round(self, ex, st, args, dty):
        """one round of triggers: any program over the context's interface and the shared target"""
        u, C = self.u, self.C
        sel = bi.through(ex, st, args[0])
        if not (isinstance(sel, Opaque) and isinstance(sel.tag, tuple)):
            raise Unsupported("round of triggers not recognised")
        a, ctx = bi.deep_addr(ex, st, args[1])
        if not (isinstance(ctx, Agg) and ctx.ty == C.ty):
            raise Unsupported("context of the round not recognised")
        ops = C.ops_loc(ctx)
        lk = st.heap[ops]
        rd = {"event": sel.tag[1], "log": lk.v, "ops": ops, "locks": (lk.r, lk.w)}
        opt_ = u.ex.get1(C.field(ctx, C.i_target), ("f", 0, 0))
        tloc = None
        if isinstance(opt_, Agg) and opt_.v == 1 and isinstance(opt_.f[0], ArcV):
            tloc = opt_.f[0].loc
            t = st.heap[tloc]
            rd["target"], rd["tlocks"], rd["tpoison"] = t.v, (t.r, t.w), t.poison
        rd["tloc"] = tloc
        n = len(st.ghost["rounds"])
        # effects
        new = C.arb_log(st, "triggered%d" % n)
        st.heap[ops] = LockV(C.log.wrap(new), u.const("poisoned", z3.BoolSort()), lk.r, lk.w)
        rd["log2"] = new
        if tloc is not None:
            t = st.heap[tloc]
            tv = u.sym(t.v.ty, "target%d" % n)
            tp = u.const("tpoison%d" % n, z3.BoolSort())
            st.heap[tloc] = LockV(tv, tp, t.r, t.w)
            rd["target2"], rd["tpoison2"] = tv, tp
            if tloc in st.arcs:
                k = u.const("kept", z3.IntSort())
                st.assume(k >= 0)
                st.arcs[tloc] = st.arcs[tloc] + k
        out = []
        et = u.p.T[dty]["args"][1]
        e = u.const("failure%d" % n, u.p.sort(et))
        for end in ("ok", "err", "panic"):
            s = st.clone()
            r = dict(rd, end=end, error=e)
            s.ghost["rounds"] = st.ghost["rounds"] + (r,)
            if end == "ok":
                out.append(("ret", s, Agg(dty, 0, (u.ex.unit_val(),))))
            elif end == "err":
                out.append(("ret", s, Agg(dty, 1, (Sym(et, e),))))
            else:
                out.append(("panic", s, None))
        return out


def execute(u, kind):
    u.find("plotline", "execute", "ops::%s::%s" % (kind, kind.capitalize()), False)
    O = Op(u, kind)
    st = State()
    sty, txty = u.arg_tys()
    x = u.sym(sty, kind)
    parts = u.ex.expand(x, 0)
    if len(parts.f) != 1:
        raise Unsupported("operation has fields the contract does not know")
    given = parts.f[0].t
    oks = noops = 0
    for k, s, v in u.call(st, [parts, u.sym(txty, "tx")]):
        if k == "abort":
            u.never("no deadlock or abort: %s" % v, s)
            continue
        g = s.ghost
        u.prove("one transaction is used", s, z3.BoolVal(g.get("with") == 1))
        if g.get("with") != 1:
            continue
        C, L = O.C, O.C.log
        rounds = g["rounds"]
        lk = s.heap[g["ops"]]
        u.prove("no lock is held at the end", s, z3.BoolVal(conc(lk.r) == 0 and not lk.w and
                all(s.heap[r["tloc"]].r == 0 and not s.heap[r["tloc"]].w for r in rounds if r["tloc"] is not None)))
        m = lambda log: L.apply(log, O.base)
        log0 = g["log0"]
        names = [r["event"] for r in rounds]
        want = list(EVENTS[kind])
        u.prove("rounds run in order: before, after", s, z3.BoolVal(names == want[:len(names)]))
        if names != want[:len(names)]:
            continue
        for r in rounds:
            u.prove("rounds run in the operation's own context", s, z3.BoolVal(r["ops"] == g["ops"]))
            u.prove("triggers find every lock free", s, z3.BoolVal(r["locks"] == (0, False) and r.get("tlocks", (0, False)) == (0, False)))
        node0 = given if kind == "save" else None
        if kind == "delete":
            found = z3.Select(m(log0), given)
            if rounds:
                u.prove("triggers run only if the node exists", s, bi.is_some(found))
                node0 = L.opt.accessor(1, 0)(found)
        if rounds:
            b = rounds[0]
            u.prove("the before round starts with nothing done", s, m(b["log"]) == m(log0))
            u.prove("the before round is offered a target", s, z3.BoolVal("target" in b))
            if "target" in b:
                u.prove("the target is the node of the operation", s, b["target"].t == node0)
                u.prove("the target is accessible", s, z3.Not(b["tpoison"]))
        if len(rounds) == 2:
            b, a = rounds
            if kind == "save":
                if "target2" not in b:
                    continue
                t = b["target2"].t
                step = z3.Store(m(b["log2"]), L.idof(t), L.opt.constructor(1)(t))
                u.prove("between the rounds exactly the target, as the before round left it, is saved", s, m(a["log"]) == step)
            else:
                step = z3.Store(m(b["log2"]), given, L.opt.constructor(0)())
                u.prove("between the rounds exactly the id is deleted", s, m(a["log"]) == step)
            u.prove("the after round sees the same target", s, z3.BoolVal(a["tloc"] == b["tloc"]))
            if a["tloc"] == b["tloc"] and "target" in a:
                u.prove("the after round sees the target as the before round left it", s, a["target"].t == b["target2"].t)
            u.prove("the after round runs only if the before round succeeded", s, z3.BoolVal(b["end"] == "ok"))
        failed = [r for r in rounds if r["end"] != "ok"]
        if k == "panic":
            u.prove("no panic of its own", s, z3.BoolVal(bool(rounds) and rounds[-1]["end"] == "panic"))
            continue
        u.prove("a panic of a trigger is passed on", s, z3.BoolVal(all(r["end"] != "panic" for r in rounds)))
        for s2, a in u.cases(s, v):
            g = s2.ghost
            if a.v == 0:
                oks += 1
                u.prove("success only if both rounds succeeded and the transaction was committed", s2,
                        z3.BoolVal(len(rounds) == 2 and not failed and g["end"] == "committed"))
                if len(rounds) == 2:
                    u.prove("after the last round nothing more is done", s2, m(s2.heap[g["ops"]].v) == m(rounds[1]["log2"]))
            else:
                err = u.ex.lower(s2, a.f[0]) if not isinstance(a.f[0], Opaque) else None
                u.prove("a failure is reported only if nothing is committed", s2, z3.BoolVal(g["end"] != "committed"))
                if failed:
                    u.prove("the failure of a round is the one reported", s2, z3.BoolVal(err is not None) if err is None else err == failed[0]["error"])
                elif g["end"] == "refused":
                    pass
                elif kind == "delete" and not rounds:
                    noops += 1
                    u.prove("nothing to do only if the id is not present", s2, z3.Not(bi.is_some(z3.Select(m(log0), given))))
                    u.prove("a deletion with nothing to do changes nothing", s2, m(s2.heap[g["ops"]].v) == m(log0))
                    et = a.f[0].ty
                    nv = [n for n, x_ in enumerate(u.p.adts[et]["variants"]) if x_["name"] == "Noop"]
                    if len(nv) != 1:
                        raise Unsupported("the 'nothing to do' error is not recognised")
                    u.prove("it reports that there is nothing to do", s2, u.p.sort(et).recognizer(nv[0])(err))
                elif kind == "save" and len(rounds) == 1 and "tpoison2" in rounds[0]:
                    u.prove("it fails between the rounds only if the target became inaccessible", s2, rounds[0]["tpoison2"])
                else:
                    u.never("no failure without a cause", s2)
    if not oks or (kind == "delete" and not noops):
        raise Unsupported("no successful path")


def constructor(u, kind):
    u.find("plotline", "new", "ops::%s::%s" % (kind, kind.capitalize()), False)
    st = State()
    x = u.sym(u.arg_tys()[0], "x")
    for s, r in u.returns(u.call(st, [x])):
        parts = u.ex.expand(r, 0)
        if len(parts.f) != 1:
            raise Unsupported("operation has fields the contract does not know")
        u.same("the operation carries what it was made for", s, parts.f[0], x)


def check_op(v, kind):
    v.unit("%s::execute" % kind.capitalize(), execute, kind)
    v.unit("%s::new" % kind.capitalize(), constructor, kind)
    v.unit("Background::with", bg_with, {"success", "fail"})
    v.unit("Foreground::with", fg_with, {"success", "fail"})
    v.unit("Context::" + kind, ctx_write, kind)
    log_lemmas(v)
