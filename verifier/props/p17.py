"""P17: a lazy document loads its repository's document once and keeps its identity."""
from props.lazy import *


def check(v):
    v.unit("LazyDocument::builder", builder)
    v.unit("LazyDocument::new", new)
    v.unit("LazyDocument::id", get_id)
    v.unit("LazyDocument::clone", clone)
    v.unit("LazyDocument::try_deref", try_deref, False)
