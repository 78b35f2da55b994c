"""P15: the resource registry returns the last value registered for each type, shared."""
from props.cell import *
from props.trig import schema_new, of_schema


def check(v):
    v.unit("ResourceSet::default", empty_set)
    v.unit("Schema::from(Graph)", schema_new)
    v.unit("ResourceSet::with_resource", with_resource, "set")
    v.unit("Schema::with_resource", with_resource, "schema")
    v.unit("Res::from(&ResourceSet)", res_from, "set")
    v.unit("Res::from(&Context)", res_from, "ctx")
    v.unit("Context::resources", of_schema, "resources")
    v.unit("Res::exists", exists)
    for kind in ("read", "write"):
        v.unit("Res::" + kind, acquire, "resource::Res", kind)
    v.unit("ResReadGuard::try_deref", guard_deref, "resource::ResReadGuard", "try_deref")
    v.unit("ResWriteGuard::try_deref", guard_deref, "resource::ResWriteGuard", "try_deref")
    v.unit("ResWriteGuard::try_deref_mut", guard_deref, "resource::ResWriteGuard", "try_deref_mut")
