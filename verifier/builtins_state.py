"""Contracts for state outside of what a property is about: statics, atomics, thread locals, single-threaded cells, the process.

What such a place holds is unknown every time it is read: other threads and earlier calls may have put anything there. Code whose
observable behaviour depends on it is not proved; code which only counts or logs there is unaffected.
"""
import builtins_rs as b
from core import *
import z3

ATOMIC = "core::sync::atomic::Atomic"
CELL = "core::cell::Cell"
READS = {"load", "swap", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "fetch_nand", "fetch_max", "fetch_min",
         "compare_exchange", "compare_exchange_weak", "fetch_update", "compare_and_swap", "into_inner"}


def unknown(ex, st, ty):
    """an arbitrary value; the state is marked, so that no loop contract takes two readings for the same"""
    st.ghost["outside"] = st.ghost.get("outside", 0) + 1
    v = ex.unit.havoc(ex, st, ty, "outside")
    t = ex.p.T[ty]
    if t["k"] in ("int", "uint") and t["n"] not in ("u8", "i8"):
        # counters do not run over
        ex.assumed["numbers read from outside are below half of what their type holds"] = 1
        from execu import rng
        st.assume(v.t <= rng(t)[1] // 2)
    return v


def call(ex, st, fn, args, dty, stack):
    path, self_, name = fn.get("path") or "", fn.get("self") or "", fn.get("name") or ""
    if path.startswith(ATOMIC) or self_ == ATOMIC:
        if name == "store":
            ex.assumed["atomics: reading yields any value"] = 1
            return b.ret(st, ex.unit_val())
        if name == "new":
            return b.ret(st, Opaque(dty, "atomic"))
        if name in READS and name != "fetch_update":
            ex.assumed["atomics: reading yields any value"] = 1
            return b.ret(st, unknown(ex, st, dty))
    if path.startswith(CELL + "::<") and name in ("get", "set", "replace", "take", "new"):
        ex.assumed["cells: reading yields any value"] = 1
        if name == "set":
            return b.ret(st, ex.unit_val())
        if name == "new":
            return b.ret(st, Opaque(dty, "cell"))
        return b.ret(st, unknown(ex, st, dty))
    if path.startswith("std::thread::local::LocalKey") and name == "with":
        ex.assumed["thread locals hold any value"] = 1
        kty = fn["args"][0] if fn.get("args") else None
        st.ghost["outside"] = st.ghost.get("outside", 0) + 1
        return ex.call_value(st, args[1], [Ref(st.new(place(ex, st, kty)))], dty, stack)
    if path.startswith("std::thread::local::LocalKey") and name in ("get", "set", "take", "replace"):
        ex.assumed["thread locals hold any value"] = 1
        return b.ret(st, ex.unit_val() if name == "set" else unknown(ex, st, dty))
    if path in ("std::process::exit", "std::process::abort", "core::intrinsics::abort"):
        return [("abort", st, "the process ends")]
    if path.startswith("std::") and path.endswith("::panicking"):
        return b.ret(st, ex.mk_bool(True) if st.panicking else unknown(ex, st, dty))
    if path in ("std::env::var", "std::env::var_os", "std::env::temp_dir", "std::env::home_dir", "std::process::id", "std::thread::current::current",
                "std::thread::current::current_id") or path.startswith("std::thread::") and self_.endswith("::Thread") and name in ("name", "id") \
            or self_ in ("std::time::Instant", "std::time::SystemTime") and name in ("now", "elapsed", "duration_since") \
            or self_ == "core::time::Duration" and name.startswith(("as_", "subsec_")):
        ex.assumed["environment, clocks and threads: reading yields any value"] = 1
        return b.ret(st, unknown(ex, st, dty))
    if path == "core::ptr::eq" or path == "core::ptr::addr_eq":
        x, y = args
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.addr() == y.addr():
                return b.ret(st, ex.mk_bool(True))
            # two places may be one where a reference came from outside; what lies there is then the same
            r = unknown(ex, st, dty)
            e = ex.eq_term(st, ex.load(st, x.addr()), ex.load(st, y.addr()))
            if e is None:
                raise Unsupported("addresses of %r and %r" % (x, y))
            st.assume(z3.Implies(r.t, e))
            return b.ret(st, r)
    if path in ("std::panic::catch_unwind", "std::panicking::try", "std::panicking::catch_unwind"):
        ex.assumed["catch_unwind"] = 1
        return caught(ex, st, args[0], dty, stack)
    return None


def caught(ex, st, f, dty, stack):
    was = st.panicking
    if isinstance(f, Agg) and not f.key and len(f.f) == 1:
        f = f.f[0]
    rty, ety = ex.p.T[dty]["args"][:2]
    for k, s, v in ex.call_value(st, f, [], rty, stack):
        if k == "panic":
            s.panicking = was
            yield ("ret", s, Agg(dty, 1, (Opaque(ety, "what a panic carries"),)))
        elif k == "ret":
            yield ("ret", s, Agg(dty, 0, (v,)))
        else:
            yield (k, s, v)


def place(ex, st, ty):
    """the content of a place outside"""
    t = ex.p.T[ty]
    if t["k"] == "adt" and (t["path"].startswith(ATOMIC) or t["path"] == CELL):
        return Opaque(ty, "outside")
    return ex.unit.havoc(ex, st, ty, "outside")
