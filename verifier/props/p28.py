"""P28: setting up a schema keeps what it already holds."""
from props.trig import *
from props.cell import with_resource, RESSET

CRATES = ("plotline",)
PLUGIN = "plotline::schema::plugin::Plugin"
TRUSTED = ["Plugin::install of user types: yields some schema or panics"]


def check(v):
    v.unit("Schema::from(Graph)", schema_new)
    v.unit("Schema::with_resource", with_resource, "schema")
    v.unit("Schema::with_trigger", with_trigger, "schema")
    v.unit("Schema::install", install)
    v.unit("Schema::resources", part_of, "resources", RESSET)
    v.unit("Schema::triggers", part_of, "triggers", TSET)


def install(u):
    """the plugin is asked once, gets the very schema, and what it makes of it is the outcome"""
    u.find("plotline", "install", "schema::Schema", False)
    sty, pty = u.arg_tys()
    st = State()
    st.ghost["asked"] = ()
    sch, plug = u.havoc(u.ex, st, sty, "self"), u.sym(pty, "plugin")
    before = st.clone()

    def hook(ex, s, fn, args, dty, stack):
        if fn.get("trait") == PLUGIN and fn["name"] == "install":
            if len(s.ghost["asked"]) > 2:
                raise Unsupported("the plugin is asked again and again")
            y = u.havoc(ex, s, dty, "made")
            s.ghost["asked"] = s.ghost["asked"] + ((args[0], args[1], y, s.clone()),)
            s2 = s.clone()
            s2.ghost["end"] = "panic"
            return [("ret", s, y), ("panic", s2, None)]
        return None
    u.hooks.append(hook)
    some = False
    for k, s, r in u.call(st, [sch, plug]):
        if k == "abort":
            u.never("no abort: %s" % r, s)
            continue
        asked = s.ghost["asked"]
        u.prove("the plugin is asked exactly once", s, z3.BoolVal(len(asked) == 1))
        if len(asked) != 1:
            continue
        a, b, y, at = asked[0]
        u.prove("the given plugin is asked", at, u.ex.lower(at, bi.through(u.ex, at, a)) == plug.t)
        whole(u, at, b, sch, "it is given the schema as it is")
        same_heap(u, at, before, "nothing is changed before the plugin is asked")
        u.prove("a panic of the plugin is passed on, and there is no other", s, z3.BoolVal((k == "panic") == (s.ghost.get("end") == "panic")))
        if k == "ret":
            some = True
            whole(u, s, r, y, "the schema the plugin makes is the outcome")
    if not some:
        raise Unsupported("no path returns")


def whole(u, s, a, b, name):
    for q in range(len(u.p.fields(b.ty))):
        u.same(name, s, u.ex.get1(a, ("f", 0, q)), u.ex.get1(b, ("f", 0, q)))


def part_of(u, name, path):
    """the accessor lends the part of this very schema"""
    u.find("plotline", name, "schema::Schema", False)
    st = State()
    sty = u.p.T[u.arg_tys()[0]]["elem"]
    loc = st.new(u.havoc(u.ex, st, sty, "self"))
    before = st.clone()
    i = u.fidx(sty, u.is_path(path), name)
    for s, r in u.returns(u.call(st, [Ref(loc)])):
        u.same("the very part of the schema is lent", s, r, Ref(loc, (("f", 0, i),)))
        same_heap(u, s, before, "nothing is changed")
