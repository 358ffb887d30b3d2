from base import *


def near(r, t, tol):
    return any(abs(math.sin((float(x) - t) / 2)) * 2 <= tol for x in r)


def search(S):
    g = import_g()
    for _ in S.loop(4000):
        k = S.unit()
        e1 = S.perp(k)
        sc = 10.0 ** float(S.rng.uniform(-1, 1))
        rho, mu = [float(x) for x in S.rng.uniform(0.1, 1, size=2)]
        al, be = [float(x) for x in S.rng.normal(size=2) * S.rng.integers(0, 2, size=2)]
        b = S.angle()
        p = sc * (rho * e1 + al * k)
        q = sc * (mu * (rod(k, b) @ e1) + be * k)
        t = S.angle()
        d = float(p @ rod(k, t) @ q)
        i = {"p": p, "q": q, "k": k, "d": d, "t": t}
        a = [np.array(x) for x in (p, q, k)]
        f = frames(*a)
        r = S.call("subproblem4", lambda: g.subproblem4(*a, d), i)
        S.ok("arguments are not modified", f == frames(*a), i)
        u = abs(math.sin(t + b))
        if u > 1e-4:
            S.ok("two solutions", len(r) == 2, i, r)
            S.ok("every solution is contained", near(r, t, 1e-7 + 1e-7 / u), i, r)
        for x in r:
            S.ok("finite", np.ndim(x) == 0 and math.isfinite(float(x)), i, r)
            S.ok("p . rot(k, theta) q = d", abs(p @ rod(k, float(x)) @ q - d) <= 1e-7 * sc * sc * (1 + abs(al * be)), i, r)
        pn, qn = np.linalg.norm(p - (p @ k) * k), np.linalg.norm(q - (q @ k) * k)
        m = (p @ k) * (q @ k)
        for s in (1, -1):
            far = m + s * pn * qn * (1 + float(S.pick([1e-3, 0.1, 1, 10])))
            i = {"p": p, "q": q, "k": k, "d": far}
            r = S.call("subproblem4", lambda: g.subproblem4(p, q, k, far), i)
            S.ok("empty when no rotation gives the displacement", len(r) == 0, i, r)
        # on the axis: exact multiples of a coordinate axis
        k = np.eye(3)[S.rng.integers(3)] * S.pick([1.0, -1.0])
        v = S.vec() if S.flip() else float(S.rng.normal()) * k
        p, q = (k * float(S.rng.normal()), v) if S.flip() else (v, k * float(S.rng.normal()))
        d = float((p @ k) * (q @ k))
        i = {"p": p, "q": q, "k": k, "d": d}
        for dd in (d, d + 1e-3):
            r = S.call("subproblem4 on the axis", lambda: g.subproblem4(p, q, k, dd), i)
            for x in r:
                S.ok("finite", np.ndim(x) == 0 and math.isfinite(float(x)), i, r)
                S.ok("p . rot(k, theta) q = d", abs(p @ rod(k, float(x)) @ q - dd) <= 1e-9, i, r)
