"""P13: triggers receive the operation's own context, target and resources."""
from props.trig import *
from props import ops
from props.cell import res_from


def check(v):
    all_signatures(v)
    v.unit("Ctx::from(&Context)", handle_from)
    v.unit("Ctx::transaction", fg_from_ctx, "handle")
    v.unit("Context::transaction", fg_from_ctx, "ctx")
    v.unit("Target::from(&Context)", target_from, "from")
    v.unit("Context::target", target_from, "method")
    v.unit("Context::with_target", with_target)
    v.unit("Context::resources", of_schema, "resources")
    v.unit("Context::from(&Background)", ctx_from_bg)
    v.unit("Context::from(&Foreground)", ctx_from_fg)
    v.unit("Save::execute", ops.execute, "save")
    v.unit("Delete::execute", ops.execute, "delete")
    v.unit("Res::from(&ResourceSet)", res_from, "set")
    v.unit("Res::from(&Context)", res_from, "ctx")
