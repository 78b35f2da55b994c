"""P25"""
from props.tree import *

CRATES = ("interval",)


def check(v):
    change_units(v)
