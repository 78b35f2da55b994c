"""P09: a failed nested transaction and a sibling never show through."""
from common import *
from props.p08 import fg_open


def check(v):
    v.unit("Foreground::with", fg_with, {"fail", "body"})
    fg_open(v)
    v.unit("Context::from(&Foreground)", ctx_from_fg)
    for n in ("save", "delete"):
        v.unit("Context::" + n, ctx_write, n)
    for n in ("get", "contains"):
        v.unit("Context::%s (nested)" % n, ctx_read, n, True)
    log_lemmas(v)
