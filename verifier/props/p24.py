"""P24"""
from props.tree import *

CRATES = ("interval",)


def check(v):
    change_units(v)
    node_units(v, ("visit",))
    v.unit("IntervalSearchTree::for_each_intersection", tree_visit)
