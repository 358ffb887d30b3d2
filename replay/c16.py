from base import *


def contains(sols, want, tol):
    for a, b in sols:
        if all(abs(math.sin((x - y) / 2)) * 2 <= tol for x, y in zip((a, b), want)):
            return True
    return False


def search(S):
    g = import_g()
    for _ in S.loop(3000):
        k1 = S.unit()
        b = S.pick([math.pi / 2, math.pi / 2, 0.4, 2.5, 1e-2, math.pi - 1e-2, float(S.rng.uniform(0.05, 3.09)), 10.0 ** float(S.rng.uniform(-4.5, -2))])
        n0 = S.perp(k1)
        k2 = rod(n0, b) @ k1
        n = np.cross(k1, k2)
        sc = 10.0 ** float(S.rng.uniform(-1, 1))
        t1, t2 = S.angle(), S.angle()
        kind = int(S.rng.integers(4))
        a0, a1, y = [float(x) for x in S.rng.uniform(0.2, 1, size=3) * S.rng.choice([-1, 1], size=3)]
        if kind == 1 and S.flip():
            a0, a1 = float(S.pick([a0, 0.0])), float(S.pick([a1, 0.0]))
        if kind < 2:
            y = float(S.pick([y, y * 1e-2])) if math.sin(b) > 9e-3 else y
            c = sc * (a0 * k1 + a1 * k2 + y * n0)
            p, q = rod(k2, -t2) @ c, rod(k1, t1) @ c
            i = {"p": p, "q": q, "k1": k1, "k2": k2, "t1": t1, "t2": t2}
            a = [np.array(x) for x in (p, q, k1, k2)]
            f = frames(*a)
            r = S.call("subproblem2", lambda: g.subproblem2(*a), i)
            S.ok("arguments are not modified", f == frames(*a), i)
            S.ok("one or two solutions", 1 <= len(r) <= 2, i, r)
            for x in r:
                S.close("q = rot(k1, t1) rot(k2, t2) p", rod(k1, float(x[0])) @ rod(k2, float(x[1])) @ p, q, 1e-6 * sc / abs(math.sin(b)) ** 2, i)
            S.ok("every solution is contained", contains(r, (t1, t2), 1e-5 / abs(y) / abs(math.sin(b)) ** 2), i, r)
        elif kind == 2:
            # exactly representable tangency: orthogonal axes along coordinate axes, integer data
            E = np.eye(3)
            j = S.rng.permutation(3)
            k1, k2 = E[j[0]] * S.pick([-1, 1]), E[j[1]] * S.pick([-1, 1])
            u, v = [float(x) for x in S.rng.integers(1, 5, size=2)]
            c = u * k1 + v * k2
            m1, m2 = int(S.rng.integers(4)), int(S.rng.integers(4))
            p, q = np.round(rod(k2, -m2 * math.pi / 2) @ c), np.round(rod(k1, m1 * math.pi / 2) @ c)
            i = {"p": p, "q": q, "k1": k1, "k2": k2}
            r = S.call("subproblem2", lambda: g.subproblem2(p, q, k1, k2), i)
            S.ok("one solution when the cones touch", len(r) == 1, i, r)
            S.close("q = rot(k1, t1) rot(k2, t2) p (touching)", rod(k1, float(r[0][0])) @ rod(k2, float(r[0][1])) @ p, q, 1e-7 * (u + v), i)
            S.ok("the solution is contained", contains(r, (m1 * math.pi / 2, m2 * math.pi / 2), 1e-6), i, r)
        else:
            # no intersection
            p, q = sc * S.unit(), sc * S.unit()
            k12 = k1 @ k2
            a = np.array([k12 * (p @ k2) - q @ k1, k12 * (q @ k1) - p @ k2]) / (k12 ** 2 - 1)
            D = p @ p - a @ a - 2 * a[0] * a[1] * k12
            i = {"p": p, "q": q, "k1": k1, "k2": k2}
            r = S.call("subproblem2", lambda: g.subproblem2(p, q, k1, k2), i)
            if D < -1e-6 * sc ** 2 / math.sin(b) ** 4:
                S.ok("empty when the cones do not intersect", len(r) == 0, i, r)
            elif D > 1e-6 * sc ** 2 / math.sin(b) ** 4:
                S.ok("two solutions when the cones intersect", len(r) == 2, i, r)
            for s in (1, -1):
                r = S.call("subproblem2 with parallel axes", lambda: g.subproblem2(p, q, np.eye(3)[2], s * np.eye(3)[2]), i)
                S.ok("empty for parallel axes", len(r) == 0, i, r)
