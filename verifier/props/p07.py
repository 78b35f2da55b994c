"""P07: a failed or panicking transaction leaves the graph exactly as it was."""
from common import *


def check(v):
    v.unit("Background::with", bg_with, {"fail", "body"})
    v.unit("Background::from(&Schema)", bg_from_schema, "from")
    v.unit("Schema::transaction", bg_from_schema, "method")
    v.unit("Context::from(&Background)", ctx_from_bg)
    for n in ("save", "delete"):
        v.unit("Context::" + n, ctx_write, n)
    v.unit("Foreground::with", fg_with, {"success", "fail"})
