"""P08: a successful nested transaction merges into its parent exactly and in order."""
from common import *


def check(v):
    v.unit("Foreground::with", fg_with, {"success", "body"})
    fg_open(v)
    v.unit("Context::from(&Foreground)", ctx_from_fg)
    for n in ("save", "delete"):
        v.unit("Context::" + n, ctx_write, n)
    for n in ("get", "contains"):
        v.unit("Context::%s (nested)" % n, ctx_read, n, True)
    log_lemmas(v)


def fg_open(v):
    v.unit("Foreground::from(&Context)", fg_from_ctx, "from")
    v.unit("Context::transaction", fg_from_ctx, "ctx")
    v.unit("Ctx::transaction", fg_from_ctx, "handle")
