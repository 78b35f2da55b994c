"""P23"""
from props.tree import *

CRATES = ("interval",)


def check(v):
    change_units(v)
    node_units(v, ("query",))
    v.unit("IntervalSearchTree::intersects", tree_query)
