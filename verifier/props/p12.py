"""P12: exactly the triggers scheduled for an event run, in order, until one fails."""
from props.trig import *


def check(v):
    v.unit("TriggerSelect::execute", round_)
    v.unit("TriggerSelect::default", no_triggers)
    v.unit("TriggerSet::select", select)
    v.unit("TriggerSet::default", empty_set)
    v.unit("TriggerSet::with_trigger", with_trigger, "set")
    v.unit("Schema::with_trigger", with_trigger, "schema")
    v.unit("Schema::from(Graph)", schema_new)
    v.unit("Context::triggers", of_schema, "triggers")
    all_signatures(v)
