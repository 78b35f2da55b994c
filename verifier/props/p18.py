"""P18: concurrent first readers of a lazy document all get the document."""
from props.lazy import *


def check(v):
    v.unit("LazyDocument::try_deref among other readers", try_deref, True)
    v.unit("LazyDocument::builder", builder)
    v.unit("LazyDocument::new", new)
