"""P06: a transaction that reports success has applied exactly its operations, in order."""
from common import *


def check(v):
    v.unit("Background::with", bg_with, {"success", "body"})
    v.unit("Background::from(&Schema)", bg_from_schema, "from")
    v.unit("Schema::transaction", bg_from_schema, "method")
    v.unit("Context::from(&Background)", ctx_from_bg)
    for n in ("save", "delete"):
        v.unit("Context::" + n, ctx_write, n)
    for n in ("get", "contains"):
        v.unit("Context::%s (outermost)" % n, ctx_read, n, False)
    log_lemmas(v)
