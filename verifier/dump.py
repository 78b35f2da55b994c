"""Obtains the verified text: the MIR rustc builds from /repo's current working tree.

Steps (all in a scratch directory that is removed afterwards):
  1. build the rustc driver mirdump (nightly rustc_private) if the cached binary is stale;
  2. copy /repo (without .git and target); patch `tracing` by a stub which evaluates the arguments of the log
     macros but prints nothing (the only thing the extraction drops);
  3. `cargo check` plotline and plotline-cli with the driver as rustc, overflow checks on;
  4. compile the interval plugin's own files with plugin.rs (which does not compile at this commit) left out.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ALLOW = ("core::option,core::result,core::cmp,core::convert,core::bool,core::ops,core::mem,core::clone,core::default,"
         "core::borrow,core::tuple,alloc::borrow,core::array::equality,core::marker,core::ptr::non_null,core::hint,"
         "core::slice::cmp,core::array,core::num,core::iter::traits::collect,core::iter::traits::iterator::Iterator::collect,plotline")


class DumpError(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=900):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise DumpError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver():
    src = os.path.join(VERIF, "verifier/mirdump/main.rs")
    ver = run(["rustc", "+nightly", "-V"])
    h = hashlib.sha256((open(src).read() + ver).encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mirdump-" + h)
    if not os.path.exists(out):
        d = tempfile.mkdtemp(prefix="mirdump.")
        try:
            run(["rustc", "+nightly", "-O", src, "-o", os.path.join(d, "mirdump"), "-C",
                 "link-arg=-Wl,-rpath,%s/lib" % sysroot()], cwd=d)
            shutil.copy(os.path.join(d, "mirdump"), out + ".tmp%d" % os.getpid())
            os.replace(out + ".tmp%d" % os.getpid(), out)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return out


MIRFLAGS = ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Coverflow-checks=on", "-Cdebug-assertions=off"]


def dump(want=("plotline", "plotline_cli", "interval"), repo=None, keep=None):
    """Returns {crate: parsed JSON}; raises DumpError if the code does not build."""
    repo = repo or REPO
    drv = driver()
    d = keep or tempfile.mkdtemp(prefix="verif-dump.")
    res = {}
    try:
        out = os.path.join(d, "out")
        os.makedirs(out, exist_ok=True)
        env = dict(os.environ, MIRDUMP_OUT=out, MIRDUMP_CRATES=",".join(want), MIRDUMP_ALLOW=ALLOW)
        for k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR"):
            env.pop(k, None)
        crates = [c for c in want if c in ("plotline", "plotline_cli")]
        program = [c for c in want if c == "plotline_bin"]
        if crates or program:
            r = os.path.join(d, "r")
            shutil.copytree(repo, r, ignore=shutil.ignore_patterns(".git", "target"), symlinks=True)
            cfg = 'patch.crates-io.tracing.path="%s"' % os.path.join(VERIF, "verifier/stubs/tracing")
            run(["cargo", "+nightly", "update", "--offline", "-p", "tracing", "--config", cfg], env=env, cwd=r)
            env2 = dict(env, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(d, "t"),
                        RUSTFLAGS=" ".join(MIRFLAGS), CARGO_INCREMENTAL="0")
            ps = []
            for c in crates:
                ps += ["-p", c.replace("_", "-")]
            if crates:
                run(["cargo", "+nightly", "check", "--offline", "--lib", "--config", cfg] + ps, env=env2, cwd=r)
            if program:
                run(["cargo", "+nightly", "check", "--offline", "--bin", "plotline", "-p", "plotline-cli", "--config", cfg], env=env2, cwd=r)
        if "interval" in want:
            iv = os.path.join(d, "iv")
            shutil.copytree(os.path.join(repo, "plugins/interval/src"), iv)
            open(os.path.join(iv, "plugin.rs"), "w").write("")
            run([drv, "--sysroot", sysroot(), "--edition", "2021", "--crate-type", "lib", "--crate-name", "interval",
                 "--cfg", 'feature="date"', "lib.rs", "--emit=metadata", "-o", "x.rmeta"] + MIRFLAGS, env=env, cwd=iv)
        for c in want:
            f = os.path.join(out, c + ".json")
            if not os.path.exists(f):
                raise DumpError("no MIR written for " + c)
            res[c] = json.load(open(f))
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
    return res


if __name__ == "__main__":
    t = time.time()
    r = dump(keep=sys.argv[1] if len(sys.argv) > 1 else None)
    print({k: len(v["roots"]) for k, v in r.items()}, "%.1fs" % (time.time() - t))
