"""P05: transaction reads see own latest writes, then the ancestors', then the graph."""
from common import *


def check(v):
    for n in ("get", "contains"):
        v.unit("Context::%s (outermost)" % n, ctx_read, n, False)
        v.unit("Context::%s (nested)" % n, ctx_read, n, True)
    for n in ("save", "delete"):
        v.unit("Context::" + n, ctx_write, n)
    v.unit("Context::from(&Background)", ctx_from_bg)
    v.unit("Context::from(&Foreground)", ctx_from_fg)
    log_lemmas(v)
