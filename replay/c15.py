from base import *


def search(S):
    g = import_g()
    for _ in S.loop(4000):
        k = S.unit()
        t = S.angle(math.pi)
        # p not parallel to k, possibly nearly so
        n = 10.0 ** float(S.rng.uniform(-3, 3))
        s = S.pick([1.0, 1.0, 0.3, 1e-2, 1e-4, 1e-6])
        al = float(S.rng.normal()) if S.flip(0.7) else 0.0
        e1 = S.perp(k)
        p = n * (s * e1 + al * k)
        kk = k * float(S.pick([1.0, 1.0, 2.0, 0.1, 100.0]))
        q = rod(k, t) @ p
        m = np.linalg.norm(p)
        if np.linalg.norm(n * s * e1) < 1e-4 * m:
            pass
        i = {"p": p, "q": q, "k": kk, "t": t}
        a = [S.form(x, ("array", "list")) for x in (p, q, kk)]
        f = frames(*a)
        th = S.call("subproblem1", lambda: g.subproblem1(*a), i)
        S.ok("arguments are not modified", f == frames(*a), i)
        S.ok("theta is a number in [-pi, pi]", np.ndim(th) == 0 and abs(float(th)) <= math.pi + 1e-12, i, th)
        S.close("rot(k, theta) p = q", rod(k, float(th)) @ p, q, 2e-8 + 1e-9 * m, i)
        # subproblem 0
        p0 = n * e1
        q0 = rod(k, t) @ p0
        i = {"p": p0, "q": q0, "k": k, "t": t}
        a = [np.array(x) for x in (p0, q0, k)]
        th = S.call("subproblem0", lambda: g.subproblem0(*a), i)
        S.ok("theta is a number in [-pi, pi]", np.ndim(th) == 0 and abs(float(th)) <= math.pi + 1e-12, i, th)
        S.close("rot(k, theta) p = q (subproblem0)", rod(k, float(th)) @ p0, q0, 1e-9 * n + 1e-7 * n, i)
        d = float(S.pick([-1, 1])) * 10.0 ** float(S.rng.uniform(-6.5, 1))
        pb = p0 + d * n * k
        qb = q0 + d * n * k
        S.raises("subproblem0 rejects p that is not perpendicular", lambda: g.subproblem0(pb, q0, k), {"p": pb, "q": q0, "k": k})
        S.raises("subproblem0 rejects q that is not perpendicular", lambda: g.subproblem0(p0, qb, k), {"p": p0, "q": qb, "k": k})
        S.raises("subproblem0 rejects p and q that are not perpendicular", lambda: g.subproblem0(pb, qb, k), {"p": pb, "q": qb, "k": k})
