from base import *


def search(S):
    g = import_g()
    ik = import_i()
    for k in S.loop(500):
        n = int(S.rng.integers(1, 7))
        jt = [int(S.rng.random() < 0.3) for _ in range(n)]
        wide = S.rng.choice([0.5, 1.2, 2.2, 3.3], size=n, p=[0.4, 0.3, 0.2, 0.1]) * math.pi
        if n > 4:
            wide = np.minimum(wide, 1.4 * math.pi)
        mid = S.rng.uniform(-3, 3, size=n)
        lo, up = mid - wide, mid + wide * S.rng.uniform(0.7, 1.3, size=n)
        if S.flip(0.3):
            lo = np.round(lo / math.pi) * math.pi - 0.1
        r = chain(S, g, n=n, with_aux=False)
        r.joint_type = np.array(jt) if S.flip() else jt
        r.joint_lower_limit, r.joint_upper_limit = lo, up
        confs = []
        for _ in range(int(S.rng.integers(0, 5))):
            c = lo + S.rng.random(n) * (up - lo)
            # away from the limits and their turns, where rounding would decide
            if all(abs((b - x) / (2 * math.pi) - round((b - x) / (2 * math.pi))) > 1e-4 for x, l, u in zip(c, lo, up) for b in (l, u)):
                confs.append(c)
        if confs and S.flip(0.5):
            v = [x for x in variants(confs[0], jt, lo, up)]
            if v:
                confs.append(v[int(S.rng.integers(len(v)))])
        if confs and S.flip(0.3):
            # a turn that ends just inside or just outside of a limit
            j = int(S.rng.integers(n))
            d = 2 * math.pi * int(S.rng.integers(0, 3)) + S.pick([-1, 1]) * 10.0 ** S.rng.uniform(-8, -5)
            if S.flip() and confs[0][j] + d > max(c[j] for c in confs):
                up[j] = confs[0][j] + d
            elif confs[0][j] - d < min(c[j] for c in confs):
                lo[j] = confs[0][j] - d
        last = None
        if S.flip():
            last = S.pick([list, tuple, np.array])([float(x) for x in mid + S.rng.normal(size=n)])
        i = dict(robot=r, theta_v=confs, last_joints=last)
        before = freeze([r, confs, last])
        f = ik.equivalent_configurations
        res = S.call("equivalent_configurations", lambda: f(r, confs, last) if last is not None or S.flip() else f(r, confs), i)
        S.ok("frame: arguments are not modified", freeze([r, confs, last]) == before, i)
        S.ok("a list is returned", isinstance(res, list) and all(np.shape(x) == (n,) for x in res), i, res)
        near = lambda a, b: bool(np.allclose(a, b, rtol=1e-7, atol=1e-7))
        for x in res:
            S.ok("a variant is within the limits", np.all(x >= lo - 1e-9) and np.all(x <= up + 1e-9), i, x)
            S.ok("nothing already given is returned", not any(near(c, x) for c in confs), i, x)
            S.ok("a configuration differs from a given one by full turns of revolute joints", any(turned(c, x, jt) for c in confs), i, x)
            S.ok("a variant is not one of the arguments", not any(x is c for c in confs), i, x)
        for c in confs:
            for v in variants(c, jt, lo, up):
                S.ok("every variant of a given configuration is given or returned", any(near(v, x) for x in res) or any(near(v, y) for y in confs), i, v)
        if last is not None:
            d = [np.linalg.norm(x - np.array(last)) for x in res]
            S.ok("with last_joints the list is ordered by distance to it", all(a <= b + 1e-9 for a, b in zip(d, d[1:])), i, d)


def turned(c, x, jt):
    m = (x - c) / (2 * math.pi)
    return np.all(np.abs(m - np.round(m)) < 1e-9) and all(abs(m[j]) < 1e-9 for j in range(len(jt)) if jt[j] != 0) and np.any(np.abs(m) > 0.5)


def variants(c, jt, lo, up):
    opts = []
    for j in range(len(jt)):
        ms = [0]
        if jt[j] == 0:
            ms = [m for m in range(-12, 13) if lo[j] - 1e-12 <= c[j] + 2 * math.pi * m <= up[j] + 1e-12]
        opts.append(ms)
    for m in itertools.product(*opts):
        if any(m):
            yield c + 2 * math.pi * np.array(m)
