import sys, json, importlib, time
sys.setrecursionlimit(20000)
from unit import V
pid = sys.argv[1]
import os
O = os.environ.get("DUMPS", "/tmp/x/out")
crates = {k: "%s/%s.json" % (O, k) for k in ("plotline", "plotline_cli", "interval", "plotline_bin")}
class D(dict):
    def __missing__(self, k):
        self[k] = json.load(open(crates[k])); return self[k]
v = V(pid, D())
t=time.time()
importlib.import_module("props." + pid.lower()).check(v)
for u in v.units:
    if len(sys.argv) > 2 and sys.argv[2] != "-q" and sys.argv[2] not in u.label: continue
    print("==", u.label, "%.1fs q=%d" % (u.wall, u.s.queries), u.undecided or "")
    from collections import Counter
    bad = [o for o in u.s.obs if o.status != "proved"]
    names = Counter(o.name[len(u.label) + 2:] + ("  [VACUOUS]" if o.vacuous else "") for o in u.s.obs if o.status == "proved")
    print("   proved:", "; ".join("%s%s" % (n, " x%d" % c if c > 1 else "") for n, c in names.items()) if u.undecided or "-q" not in sys.argv else len(u.s.obs))
    for o in bad:
        print("   !!", o.status, o.name, o.detail[:1500])
print("%.1f s" % (time.time()-t))
