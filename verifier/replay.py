"""Builds and runs the replay harness against the working tree."""
import hashlib, os, re, resource, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLI = ("P19", "P20", "P27")
PROGRAM = ("P27",)
INTERVAL = ("P21", "P22", "P23", "P24", "P25")


def env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def build(pid, repo):
    try:
        return build_interval(repo) if pid in INTERVAL else build_core(pid, repo)
    except Exception as ex:
        return {"error": "%s: %s" % (type(ex).__name__, ex)}


def place(repo, kind):
    h = hashlib.sha256(os.path.realpath(repo).encode()).hexdigest()[:8]
    d = os.path.join(VERIF, "build", "replay-%s-%s" % (kind, h))
    os.makedirs(d, exist_ok=True)
    return d


def write(f, s):
    if not os.path.exists(f) or open(f).read() != s:
        open(f, "w").write(s)


def build_core(pid, repo):
    d = place(repo, "core")
    src = os.path.join(VERIF, "harness", "core")
    write(os.path.join(d, "Cargo.toml"), open(os.path.join(src, "Cargo.toml.in")).read().replace("@REPO@", repo))
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f in os.listdir(os.path.join(src, "src")):
        write(os.path.join(d, "src", f), open(os.path.join(src, "src", f)).read())
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    cmd = ["cargo", "build", "--offline"]
    if pid in CLI:
        cmd += ["--features", "cli", "--target-dir", os.path.join(d, "target-cli")]
    else:
        cmd += ["--target-dir", os.path.join(d, "target")]
    t = time.time()
    p = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if p.returncode:
        return {"error": p.stdout[-6000:]}
    if pid in PROGRAM:
        # the program itself, in the same target directory
        cmd = ["cargo", "build", "--frozen", "--manifest-path", os.path.join(repo, "Cargo.toml"), "-p", "plotline-cli", "--bin", "plotline",
               "--target-dir", os.path.join(d, "target-cli")]
        p = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        if p.returncode:
            return {"error": p.stdout[-6000:]}
    return {"bin": os.path.join(d, "target-cli" if pid in CLI else "target", "debug", "replay"), "build_s": round(time.time() - t, 1)}


def build_interval(repo):
    d = place(repo, "interval")
    src = os.path.join(VERIF, "harness", "interval")
    iv = os.path.join(d, "src")
    shutil.rmtree(iv, ignore_errors=True)
    shutil.copytree(os.path.join(repo, "plugins/interval/src"), iv)
    open(os.path.join(iv, "plugin.rs"), "w").write("")
    shutil.copy(os.path.join(src, "harness.rs"), os.path.join(iv, "verif_harness.rs"))
    open(os.path.join(iv, "lib.rs"), "a").write("\n#[path = \"verif_harness.rs\"]\npub mod verif_harness;\n")
    open(os.path.join(d, "main.rs"), "w").write("fn main() { interval::verif_harness::main() }\n")
    t = time.time()
    out = os.path.join(d, "replay")
    if os.path.exists(out):
        os.unlink(out)
    for cmd in (["rustc", "--edition", "2021", "-A", "warnings", "-C", "opt-level=1", "-C", "overflow-checks=on", "--crate-type", "rlib",
                 "--crate-name", "interval", "--cfg", 'feature="date"', "src/lib.rs", "-o", "libinterval.rlib"],
                ["rustc", "--edition", "2021", "-C", "opt-level=1", "main.rs", "--extern", "interval=libinterval.rlib", "-o", "replay"]):
        p = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        if p.returncode:
            return {"error": p.stdout[-6000:]}
    return {"bin": out, "build_s": round(time.time() - t, 1)}


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(pid, b, tier, seed):
    if "bin" not in b:
        return {"status": "error", "text": b.get("error", "?")}
    cmd = [b["bin"], pid] + (["--deep"] if tier == "thorough" else [])
    e = dict(env(), VERIF_SEED=str(seed))
    if pid in PROGRAM:
        e["PLOTLINE_BIN"] = os.path.join(os.path.dirname(b["bin"]), "plotline")
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, errors="replace", preexec_fn=limit)
        code, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        code, out = None, ""
    res = {"bounded": "random histories from seed %d, one process, time budget %s s" % (seed, 150 if tier == "thorough" else 20),
           "secs": round(time.time() - t, 1), "build_s": b.get("build_s"), "cmd": "VERIF_SEED=%d %s" % (seed, " ".join(cmd))}
    m = re.search(r"^CASES (\d+)$", out, re.M)
    if m:
        res["cases"] = int(m.group(1))
    if code == 0 and "QUIET " + pid in out:
        res.update(status="quiet")
    elif code == 1 and "FAIL " + pid in out:
        res.update(status="fail", text=out[out.index("FAIL " + pid):].strip())
    elif code is None:
        res.update(status="fail", text="the harness does not return")
    elif code not in (None, 2) and (code != 0 or "QUIET" not in out):
        # the process died: name the case it was working on
        try:
            p = subprocess.run(cmd, env=dict(e, REPLAY_TRACE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, errors="replace", preexec_fn=limit)
            cases = [l for l in p.stderr.splitlines() if l.startswith("CASE ")]
        except subprocess.TimeoutExpired:
            cases = []
        res.update(status="fail", text="the process died (%s) on input [%s]" % (code, cases[-1][5:] if cases else "?"))
    else:
        res.update(status="error", text="exit %s\n%s\n%s" % (code, out[-2000:], ""))
    return res
