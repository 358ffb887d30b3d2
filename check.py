#!/usr/bin/env python3
"""check.py <property>: decides one property.

1. The functions under contract are extracted from /repo's current source and verified against
   the contracts in contracts/cNN.py: verification conditions for every path and every loop
   iteration, discharged by exact normal forms, z3 and cvc5.
2. The same contracts are replayed as run-time oracles on the real code (replay/cNN.py) to turn a
   failed obligation into a failing input.

Exit 0: every obligation discharged.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import sys, os, json, time, threading, subprocess, importlib, multiprocessing as mp, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if not sys.executable.startswith("/opt/veriftools") and os.environ.get("PYVC_REEXEC") != "1":
    os.environ["PYVC_REEXEC"] = "1"
    exe = "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else None
    import shutil
    exe = shutil.which("python3-vt") or PY
    os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO_PY = "/opt/venv/bin/python"
REPO = os.environ.get("PYVC_REPO", "/repo")
LIMIT = float(os.environ.get("PYVC_LIMIT", "640"))

TRUSTED = [
    "pyvc verification-condition generator: /repo's functions are executed by CPython over symbolic terms; loops, comprehensions, and/or/not, chained comparisons, len, range, isinstance are rewritten on the AST of the current source on every run, everything else runs unchanged",
    "numpy/math replaced by pyvc/npshim.py (specification of the numpy functions used, over exact terms)",
    "floating point numbers are treated as real numbers; arguments of sqrt/acos/asin and divisors are obliged to stay 1e-9 inside the domain unless the code guards them",
    "exact normal forms of Laurent polynomials (pyvc/terms.py) and z3 4.x / cvc5 for the remaining obligations",
    "every rotation matrix is that of a unit quaternion (parametrisation of the inputs)",
]


def run_contract(prop, name, q, part=None):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        from pyvc.engine import Engine
        m = importlib.import_module("contracts." + prop.lower())
        f = dict(m.CONTRACTS)[name]
        e = Engine(prop)
        e.run(name, f)
        import collections
        obs = collections.Counter()
        failed = []
        for o in e.obligations:
            obs[(o.label, o.status, o.backend)] += 1
            if o.status != "discharged":
                failed.append(dict(contract=name, obligation=o.label, path=o.path, backend=o.backend, output=o.detail))
        q.put((name, dict(n=len(e.obligations), ok=len(e.obligations) - len(failed), labels=sorted((list(k) + [v]) for k, v in obs.items()), failed=failed[:40], nfailed=len(failed),
                          stats=e.stats, secs=e.functions[name]["secs"], assumed=sorted(e.assumed))))
    except BaseException as ex:
        q.put((name, dict(n=1, ok=0, labels=[], nfailed=1, stats={}, secs=0, assumed=[], crash=True,
                          failed=[dict(contract=name, obligation="verification condition generation", path="", backend="engine", output=traceback.format_exc()[-3000:])])))


def prove(prop, deadline, enough=None):
    m = importlib.import_module("contracts." + prop.lower())
    names = [n for n, f in m.CONTRACTS]
    assert len(set(names)) == len(names)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = list(names)
    running = {}
    res = {}
    ncpu = min(8, os.cpu_count() or 4)
    import queue
    while todo or running:
        while todo and len(running) < ncpu:
            n = todo.pop(0)
            p = ctx.Process(target=run_contract, args=(prop, n, q), daemon=True)
            p.start()
            running[n] = p
        try:
            n, r = q.get(timeout=0.2)
            res[n] = r
            running.pop(n).join(2)
            continue
        except queue.Empty:
            pass
        if enough is not None and enough() and (any(r["nfailed"] for r in res.values()) or time.time() > deadline - 100):
            # a failing input is known and an obligation has failed: the verdict cannot change
            for n in list(running) + todo:
                if n in running:
                    running[n].kill()
                res[n] = dict(n=0, ok=0, labels=[], nfailed=0, stats={}, secs=0, assumed=[], failed=[], stopped=True)
            break
        late = time.time() > deadline
        for n, p in list(running.items()):
            if not p.is_alive() and n not in res:
                try:
                    n2, r = q.get(timeout=1)
                    res[n2] = r
                    running.pop(n2, None)
                    continue
                except queue.Empty:
                    pass
                why = "verifier process ended with code %s" % p.exitcode
            elif late:
                p.kill()
                why = "time limit of %d s" % LIMIT
            else:
                continue
            running.pop(n, None)
            res[n] = dict(n=1, ok=0, labels=[], nfailed=1, stats={}, secs=0, assumed=[], crash=True,
                          failed=[dict(contract=n, obligation="all obligations of the contract are discharged", path="", backend="engine", output=why)])
        if late and todo:
            for n in todo:
                res[n] = dict(n=1, ok=0, labels=[], nfailed=1, stats={}, secs=0, assumed=[], crash=True,
                              failed=[dict(contract=n, obligation="all obligations of the contract are discharged", path="", backend="engine", output="time limit of %d s" % LIMIT)])
            todo = []
    return m, [(n, res[n]) for n in names]


def replay_start(prop, seed, scale=1, seconds=60):
    env = dict(os.environ, PYTHONPATH=REPO + "/src", VERIF_SRC=REPO + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen([REPO_PY, os.path.join(HERE, "replay", "run.py"), prop, "--seed", str(seed), "--scale", str(scale), "--seconds", str(seconds)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=HERE)


def replay_result(p, seconds):
    try:
        out, err = p.communicate(timeout=seconds + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return {"found": None, "error": "time limit", "evaluations": 0}
    for l in reversed(out.decode("utf8", "replace").splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return {"found": None, "error": (out[-500:] + err[-2500:]).decode("utf8", "replace"), "evaluations": 0}


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l.strip())
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    thorough = tier == "thorough"
    EV = os.environ.get("PYVC_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    have_replay = os.path.exists(os.path.join(HERE, "replay", prop.lower() + ".py"))
    rr = []
    th = None
    if have_replay:
        rp = replay_start(prop, seed, 10 if thorough else 1, 300 if thorough else 60)
        th = threading.Thread(target=lambda: rr.append(replay_result(rp, 300 if thorough else 60)), daemon=True)
        th.start()
    m, res = prove(prop, t0 + LIMIT, lambda: any(r.get("found") for r in rr))
    n = sum(r["n"] for _, r in res)
    ok = sum(r["ok"] for _, r in res)
    failed = [f for _, r in res for f in r["failed"]]
    if th:
        th.join(400)
    found = next((r for r in rr if r.get("found")), None)
    if failed and not found and have_replay:
        # look harder for a failing input
        left = max(20, min(150, t0 + LIMIT + 120 - time.time()))
        more = [replay_start(prop, seed * 1000 + 17 + i, 8, left) for i in range(7)]
        mr = [replay_result(p, left) for p in more]
        rr += mr
        found = next((r for r in mr if r.get("found")), None)
    for r in rr:
        if r.get("found") is None:
            print("note: replay harness: %s" % str(r.get("error"))[-600:], file=sys.stderr)
    solver = {}
    for _, r in res:
        for k, v in r["stats"].items():
            solver[k] = solver.get(k, 0) + v
    backends = {}
    labels = []
    for c, r in res:
        for lab, st, be, cnt in r["labels"]:
            labels.append({"contract": c, "obligation": lab, "status": st, "backend": be, "count": cnt})
            if st == "discharged":
                backends[be] = backends.get(be, 0) + cnt
    assumed = sorted({a for _, r in res for a in r["assumed"]} | set(getattr(m, "ASSUMPTIONS", [])))
    cov = {"obligations": n, "discharged": ok, "checker_cmd": "python3-vt /verif/check.py %s" % prop,
           "trusted_base": TRUSTED + list(getattr(m, "TRUSTED", [])),
           "functions_under_contract": list(m.FUNCTIONS), "contracts": [c for c, _ in res],
           "source_sha256": sources(), "backends": backends, "solver": {k: round(v, 3) for k, v in solver.items()},
           "per_contract": {c: {"obligations": r["n"], "discharged": r["ok"], "seconds": r["secs"]} for c, r in res},
           "obligation_list": labels,
           "concrete_replay": {"role": "contracts evaluated as run-time oracles on the real code; not counted as proof", "evaluations": sum(r.get("evaluations", 0) for r in rr),
                               "seeds": [r.get("seed") for r in rr], "labels": (rr[0].get("labels") if rr else None)}}
    bounded = list(getattr(m, "BOUNDED", []))
    if bounded:
        cov["bounded_stand_ins"] = bounded
    viol = 1 if (failed or found) else 0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumed, "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known(prop):
        print(k)
    if n == 0:
        print("no obligations were generated")
        return 2
    print("%s: %d obligations, %d discharged, %d contracts, %d replay evaluations, %.1f s" % (prop, n, ok, len(res), cov["concrete_replay"]["evaluations"], time.time() - t0))
    if not viol:
        return 0
    path = os.path.join("evidence", "replay", prop + ".json")
    with open(os.path.join(EV, "replay", prop + ".json"), "w") as f:
        json.dump({"property": prop, "failed_obligations": failed, "failing_input": found,
                   "rerun": "PYTHONPATH=/repo/src %s %s/replay/run.py %s --seed %s" % (REPO_PY, HERE, prop, (found or {}).get("seed", seed))}, f, indent=1)
    for x in failed[:8]:
        print("failed obligation: [%s] %s: %s" % (x["contract"], x["obligation"], x["output"][:300].replace("\n", " ")))
    if found:
        print("failing input: %s: %s" % (found["label"], json.dumps(found.get("inputs"))[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


def sources():
    d = REPO + "/src/general_robotics_toolbox"
    return {f: hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16] for f in sorted(os.listdir(d)) if f.endswith(".py")}


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
