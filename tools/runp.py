import sys, time, importlib
sys.path.insert(0, "/verif")
from pyvc.engine import Engine
prop = sys.argv[1]
m = importlib.import_module("contracts." + prop.lower())
e = Engine(prop, verbose="-v" in sys.argv)
only = [a for a in sys.argv[2:] if not a.startswith("-")]
t0 = time.time()
for name, f in m.CONTRACTS:
    if only and name not in only: continue
    t1 = time.time()
    n0 = len(e.obligations)
    e.run(name, f)
    obs = e.obligations[n0:]
    print("%-40s %3d obligations, %d failed, %.1fs" % (name, len(obs), sum(o.status != "discharged" for o in obs), time.time() - t1))
    seen = set()
    for o in obs:
        if o.status != "discharged":
            k = (o.label, o.detail[:60])
            if k in seen: continue
            seen.add(k)
            print("   FAILED [%s] %s: %s" % (o.path, o.label, o.detail[:400]))
print("total", len(e.obligations), "failed", len(e.failed()), "%.1fs" % (time.time() - t0), e.stats, sorted(e.assumed))
