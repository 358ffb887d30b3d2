"""builds and tests the planted bugs: seed.py [id ...]   (definitions in tools/seeds/*.py)
Everything happens in a scratch copy under /tmp; results are kept in tools/seed_results.json"""
import sys, os, json, subprocess, shutil, tempfile, glob, time
V = "/verif"
ALL = {}
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        assert s["id"] not in ALL, s["id"]
        ALL[s["id"]] = s
SRC = "src/general_robotics_toolbox/"
DEMO = """#!/bin/bash
# cwd is the repository; exit 0 when the property holds
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(d):
    b = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -n 4 --timeout=300 test -rA 2>&1 | grep -c '^PASSED'", d, env=env)
    return int(r.stdout.strip().splitlines()[-1])


def one(sid, quick=False):
    s = ALL[sid]
    d = tempfile.mkdtemp(prefix="seed_")
    out = {"id": sid, "property": s["property"]}
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        R = d + "/repo"
        for i, (f, old, new) in enumerate(s["edits"]):
            p = R + "/" + SRC + f
            t = open(p).read()
            if t.count(old) != 1:
                out["error"] = "edit %d matches %d times" % (i, t.count(old))
                return out
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", R).stdout
        # changed lines must be lines of the original repository
        blame_bad = []
        for f in {f for f, _, _ in s["edits"]}:
            base = sh("git log --reverse --format=%H | head -1", R).stdout.strip()
            orig = set(sh("git show %s:%s" % (base, SRC + f), R).stdout.splitlines())
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            if removed and not any(l in orig for l in removed if l.strip()):
                blame_bad.append(f)
        if blame_bad:
            out["warning"] = "removes only lines that are not in the original"
        sd = V + "/seeded/" + sid
        os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "w").write(diff)
        open(sd + "/demo.sh", "w").write(DEMO)
        os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % sd, "/repo")
        b = sh("bash %s/demo.sh" % sd, R)
        out["demo_clean"], out["demo_patched"] = a.returncode, b.returncode
        if a.returncode:
            out["demo_out"] = a.stdout[-800:]
        elif b.returncode == 0:
            out["demo_out"] = b.stdout[-800:]
        if not quick:
            out["tests"] = tests(R)
        t0 = time.time()
        env = dict(os.environ, PYVC_REPO=R, PYVC_EVIDENCE=d + "/ev")
        c = sh("python3 check.py %s" % s["property"], V, env=env)
        out["check"] = c.returncode
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        out["verdict"] = ("concrete" if v and "no-failing" not in v[0] else "proof only" if v else "MISSED")
        ob = [l for l in c.stdout.splitlines() if l.startswith("failed obligation")]
        out["proof_failed"] = bool(ob)
        out["obligation"] = ob[0][:200] if ob else ""
        out["secs"] = round(time.time() - t0, 1)
        if c.returncode not in (0, 1):
            out["check_out"] = c.stdout[-1500:]
        return out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    rf = V + "/tools/seed_results.json"
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    quick = "-q" in sys.argv
    if not ids:
        ids = [i for i in ALL if i not in res]
    if ids == ["all"]:
        ids = list(ALL)
    exp = []
    for a in ids:
        exp += [a] if a in ALL else [i for i in ALL if ALL[i]["property"] == a or i.startswith(a)]
    for i in exp:
        r = one(i, quick)
        if quick and "tests" in res.get(i, {}):
            r["tests"] = res[i]["tests"]
        res[i] = r
        good = r.get("demo_clean") == 0 and r.get("demo_patched") and r.get("tests", 46) >= 46
        print("%-8s %s %s %s" % ("ok" if good and r.get("verdict") != "MISSED" else "PROBLEM", i, r.get("verdict"), {k: v for k, v in r.items() if k not in ("id", "verdict", "check")}), flush=True)
        json.dump(res, open(rf, "w"), indent=1, sort_keys=True)
