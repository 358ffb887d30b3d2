from base import *


def near(r, t, tol):
    return any(abs(math.sin((float(x) - t) / 2)) * 2 <= tol for x in r)


def search(S):
    g = import_g()
    for _ in S.loop(4000):
        k = S.unit()
        e1 = S.perp(k)
        sc = 10.0 ** float(S.rng.uniform(-1, 1))
        rho, mu = [float(x) for x in S.rng.uniform(0.1, 1, size=2)]
        if S.flip(0.3):
            mu = rho
        al, be = [float(x) for x in S.rng.normal(size=2) * S.rng.integers(0, 2, size=2)]
        b = S.angle()
        p = sc * (rho * e1 + al * k)
        q = sc * (mu * (rod(k, b) @ e1) + be * k)
        if S.flip(0.1):
            q = sc * mu * p / np.linalg.norm(p)
            b = 0.0
        t = S.angle()
        d = float(np.linalg.norm(q + rod(k, t) @ p))
        i = {"p": p, "q": q, "k": k, "d": d, "t": t}
        a = [np.array(x) for x in (p, q, k)]
        f = frames(*a)
        r = S.call("subproblem3", lambda: g.subproblem3(*a, d), i)
        S.ok("arguments are not modified", f == frames(*a), i)
        # away from the stretched and folded arm
        u = abs(math.sin(t - b))
        if u > 1e-4:
            S.ok("two solutions", len(r) == 2, i, r)
            S.ok("every solution is contained", near(r, t, 1e-7 + 1e-7 / u), i, r)
        for x in r:
            S.ok("finite", np.ndim(x) == 0 and math.isfinite(float(x)), i, r)
            S.ok("|q + rot(k, theta) p| = d", abs(np.linalg.norm(q + rod(k, float(x)) @ p) ** 2 - d ** 2) <= 1e-7 * sc * sc * (1 + al * al + be * be), i, r)
        # out of reach on either side
        pp, qp = sc * rho, sc * mu
        h = sc * (al + be) if abs((p + q) @ k - sc * (al + be)) < 1e-9 else float((p + q) @ k)
        pn, qn = np.linalg.norm(p - (p @ k) * k), np.linalg.norm(q - (q @ k) * k)
        hi = math.sqrt(h * h + (pn + qn) ** 2)
        lo = math.sqrt(h * h + (pn - qn) ** 2)
        for far in (hi * float(S.pick([1.0001, 1.01, 1.5, 10])) + 1e-3 * sc, lo * float(S.pick([0.9999, 0.9, 0.5, 0])) - 1e-3 * sc):
            if far < 0:
                continue
            i = {"p": p, "q": q, "k": k, "d": far}
            r = S.call("subproblem3", lambda: g.subproblem3(p, q, k, far), i)
            S.ok("empty when no rotation gives the distance", len(r) == 0, i, r)
