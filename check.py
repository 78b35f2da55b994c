#!/usr/bin/env python3-vt
"""check.py P05: decides one property on /repo's current working tree.

1. extracts the MIR of the code under test from the working tree (verifier/dump.py);
2. generates the obligations of every function under contract for the property and discharges them (z3; at the
   thorough tier every discharged obligation is checked a second time by cvc5);
3. replays: builds the replay harness against the working tree and runs the property's executable reading on it.
   It looks for a failing input when an obligation is refuted, stands in (labelled bounded) for a unit which the
   verifier could not decide, and exercises the trusted contracts otherwise.

Exit 0: nothing contradicts the property. Exit 1 with a VIOLATION line otherwise. VERIF_REPO names another tree
(for experiments only), VERIF_NO_REPLAY=1 leaves step 3 out, VERIF_SHOW=1 lists every obligation."""
import importlib, json, os, re, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "verifier"))
sys.setrecursionlimit(20000)
import dump as D
import replay
from unit import V
import core

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
AUX = re.compile(r" (init|step): ")


class Dumps(dict):
    def __init__(self, want):
        r = cached(want) if os.environ.get("VERIF_DUMP_CACHE") else D.dump(want)
        super().__init__(r)


def cached(want):
    """experiments only"""
    import hashlib
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(D.REPO)):
        ds[:] = sorted(d for d in ds if d not in (".git", "target"))
        for f in sorted(fs):
            h.update(f.encode() + open(os.path.join(root, f), "rb").read())
    for f in ("dump.py", "mirdump/main.rs"):
        h.update(open(os.path.join(VERIF, "verifier", f), "rb").read())
    f = os.path.join(os.environ["VERIF_DUMP_CACHE"], h.hexdigest()[:20] + "-" + "-".join(want) + ".json")
    if not os.path.exists(f):
        r = D.dump(want)
        json.dump(r, open(f + ".tmp%d" % os.getpid(), "w"))
        os.replace(f + ".tmp%d" % os.getpid(), f)
    return json.load(open(f))


def cvc5(obs):
    """second back end: every obligation z3 discharged, as SMT-LIB text"""
    agree = unknown = 0
    bad = []
    t0 = time.time()
    with tempfile.TemporaryDirectory() as d:
        for n, o in enumerate(obs):
            if not o.smt or time.time() - t0 > 250:
                continue
            f = os.path.join(d, "o.smt2")
            txt = o.smt
            open(f, "w").write("(set-logic ALL)\n" + txt)
            try:
                r = subprocess.run(["cvc5", "--tlimit=5000", "--arrays-exp", f], capture_output=True, text=True, timeout=20).stdout.strip()
            except subprocess.TimeoutExpired:
                r = "timeout"
            if r.startswith("unsat"):
                agree += 1
            elif r.startswith("sat"):
                bad.append(o.name)
            else:
                unknown += 1
    return {"agree": agree, "unknown": unknown, "disagree": bad, "secs": round(time.time() - t0, 1)}


def main():
    t0 = time.time()
    mod = importlib.import_module("props." + PID.lower())
    want = getattr(mod, "CRATES", ("plotline",))
    rep = {}
    th = None
    if not os.environ.get("VERIF_NO_REPLAY"):
        th = threading.Thread(target=lambda: rep.update(replay.build(PID, D.REPO)))
        th.start()
    broken = None
    dumps = {}
    try:
        dumps = Dumps(want)
    except D.DumpError as e:
        broken = "extraction failed: %s" % e
    v = V(PID, dumps, TIER, keep_smt=TIER == "thorough")
    if not broken:
        mod.check(v)
    obs, refuted, unknown, undecided = [], [], [], []
    funcs, inlined, assumed = {}, {}, {}
    for u in v.units:
        obs += u.small_refuted
        refuted += u.small_refuted
        if u.undecided:
            undecided.append((u.label, u.undecided))
            continue
        bad = [o for o in u.s.obs if o.status != "proved"]
        aux = [o for o in bad if AUX.search(o.name)]
        real = [o for o in u.s.obs if o.status == "proved"]
        if aux:
            # the invariants written for the loop do not fit the loop found: that says nothing about the property
            undecided.append((u.label, "loop contract does not fit: " + aux[0].name + "\n" + aux[0].detail[:2000]))
            continue
        if real and all(o.vacuous for o in real) and not bad:
            undecided.append((u.label, "every obligation is vacuous"))
            continue
        obs += u.s.obs
        refuted += [o for o in bad if o.status == "refuted"]
        unknown += [o for o in bad if o.status == "unknown"]
        funcs.update(u.functions)
        for e in u.exs:
            inlined.update(e.inlined)
            for k, n in e.assumed.items():
                assumed[k] = assumed.get(k, 0) + (n if isinstance(n, int) else 1)
    if broken:
        undecided.append(("extraction", broken))
    if not broken and not v.units:
        undecided.append(("units", "no unit was generated"))
    if os.environ.get("VERIF_SHOW"):
        for u in v.units:
            print("==", u.label, "%.1fs" % u.wall, u.undecided or "")
            for o in u.s.obs:
                print("   ", o.status, "VACUOUS" if o.vacuous else "", o.name, "" if o.status == "proved" else o.detail[:1500])
    second = cvc5([o for o in obs if o.status == "proved"]) if TIER == "thorough" else None
    if second and second["disagree"]:
        unknown += [o for o in obs if o.name in second["disagree"]]
    # ---------------------------------------------------------------- replay
    out = {"status": "skipped"}
    if th:
        th.join()
        out = replay.run(PID, rep, TIER, SEED)
    discharged = [o for o in obs if o.status == "proved"]
    violation = None
    if out["status"] == "fail":
        violation = out["text"]
    elif refuted:
        violation = ""
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": len(obs) + len(undecided), "discharged": len(discharged),
            "checker_cmd": "VERIF_TIER=%s python3-vt check.py %s (z3 %s%s)" % (TIER, PID, core.z3.get_version_string(), "; cvc5" if second else ""),
            "trusted_base": sorted(BASE + list(getattr(mod, "TRUSTED", [])) + ["std/user contract: %s" % k for k in assumed]),
            "functions_under_contract": funcs,
            "bodies_executed_in_place": inlined,
            "units": {u.label: {"obligations": len(u.s.obs), "queries": u.s.queries, "solver_s": round(u.s.secs, 2),
                                "wall_s": round(u.wall, 2), "undecided": u.undecided} for u in v.units},
            "solver_queries": sum(u.s.queries for u in v.units),
            "solver_s": round(sum(u.s.secs for u in v.units), 2),
            "by_back_end": {"z3": len([o for o in discharged if o.detail != "by structure"]),
                            "structural (no solver needed)": len([o for o in discharged if o.detail == "by structure"])},
            "vacuous_paths": len([o for o in discharged if o.vacuous]),
            "not_discharged": [{"name": o.name, "status": o.status} for o in obs if o.status != "proved"],
            "undecided_units_bounded_only": [{"unit": l, "reason": r[:1500]} for l, r in undecided],
            "samples": [o.name for o in discharged[:8]],
            "replay": {k: out[k] for k in out if k != "text"},
        },
        "assumptions": BASE + list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if violation is not None else 0,
    }
    if second:
        ev["coverage"]["second_back_end_cvc5"] = second
    if undecided or unknown:
        ev["coverage"]["explanation"] = ("the units listed under undecided_units_bounded_only / not_discharged were NOT proved on this "
                                         "run; the bounded replay stood in for them (random histories of bounded length, see replay)")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", PID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for l, r in undecided:
        print("UNDECIDED unit %s: %s" % (l, r.split("\n")[0][:300]))
    for o in unknown:
        print("UNDECIDED obligation %s (%s)" % (o.name, o.detail.split("\n")[0][:200]))
    if th and out["status"] == "error":
        print("replay harness unavailable: " + out["text"][-1500:])
    print("%s: %d obligations, %d discharged, %d refuted, %d units undecided, replay %s, %.1fs"
          % (PID, len(obs), len(discharged), len(refuted), len(undecided), out["status"], time.time() - t0))
    if violation is None:
        if broken and out["status"] == "error":
            return 2
        if (undecided or unknown) and th and out["status"] != "quiet":
            return 2
        return 0
    d = os.path.join(VERIF, "build", "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s.txt" % PID)
    with open(f, "w") as h:
        h.write("property %s\n" % PID)
        if violation:
            h.write("failing input on the real code: %s\nreproduce: %s\n" % (violation, out.get("cmd", "")))
        for o in refuted:
            h.write("failed obligation: %s\n%s\n\n" % (o.name, o.detail))
        for l, r in undecided:
            h.write("undecided: %s: %s\n\n" % (l, r))
    for o in refuted[:6]:
        print("failed obligation: " + o.name)
    if violation:
        print("failing input: " + violation[:1500])
    print("VIOLATION property=%s replay=%s%s" % (PID, f, "" if violation else " no-failing-input-found"))
    return 1


BASE = [
    "rustc (nightly): the MIR it builds at opt-level 0 is the semantics of the source",
    "the MIR executor and contract checker in /verif/verifier and the SMT solver",
    "extraction replaces `tracing` by a stub: log output is dropped, the arguments of log calls are not",
    "user-supplied types are lawful: Ord is a total order consistent with Eq, Clone yields an equal value, Identify::id and Property::all are pure; none of these panics",
    "allocation never fails and the stack suffices for every recursion that ends; reference counts and collection lengths do not overflow; integer arithmetic of the code itself is checked at machine width",
    "locks are modelled for the thread that runs the function (other threads: only where a unit adds interference)",
]

if __name__ == "__main__":
    sys.exit(main())
