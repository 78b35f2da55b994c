"""P10: see ops.py"""
from props.ops import check_op


def check(v):
    check_op(v, "save")
