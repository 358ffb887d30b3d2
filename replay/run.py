"""replay driver: run.py <property> [--seed N] [--seconds S]; prints one JSON line"""
import sys, os, json, argparse, importlib, traceback, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_SRC", "/repo/src"))
sys.dont_write_bytecode = True
import base
a = argparse.ArgumentParser()
a.add_argument("prop")
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a.add_argument("--seconds", type=float, default=60.0)
a.add_argument("--scale", type=int, default=1)
o = a.parse_args()
out = {"property": o.prop, "seed": o.seed}
t0 = time.time()
S = base.Search(o.seed, o.seconds, o.scale)
try:
    m = importlib.import_module(o.prop.lower())
    m.search(S)
    out["found"] = False
except base.Found as f:
    out.update(found=True, label=f.label, inputs=base.show(f.inputs), observed=base.show(f.observed), expected=base.show(f.expected))
except Exception as ex:
    tb = traceback.extract_tb(ex.__traceback__)
    inrepo = any("general_robotics_toolbox" in fr.filename and "/verif/" not in fr.filename for fr in tb)
    if inrepo:
        out.update(found=True, label="the code raised %s: %s" % (type(ex).__name__, ex), inputs="see traceback; re-run with the same seed",
                   observed=traceback.format_exc()[-3000:], expected="a result")
    else:
        out.update(found=None, error=traceback.format_exc()[-3000:])
out.update(evaluations=S.n, labels=S.labels, seconds=round(time.time() - t0, 2))
print(json.dumps(out))
