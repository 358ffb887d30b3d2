from base import *

EX, EY, EZ = np.eye(3)


def offset(S):
    """vector with a component off the shoulder axis"""
    while True:
        v = S.vec() if S.flip() else S.rng.normal(size=3)
        if math.hypot(v[0], v[2]) > 0.1 and np.max(np.abs(v)) < 20:
            return v


def small(S):
    v = S.vec()
    m = np.max(np.abs(v))
    return v if m < 20 else v * 10 / m


def limits(S, kw):
    c = S.rng.integers(4)
    if c == 0:
        return kw
    if c == 1:
        lo, up = -S.rng.uniform(0.5, 3.2, 6), S.rng.uniform(0.5, 3.2, 6)
    elif c == 2:
        lo, up = -S.rng.uniform(3, 12, 6), S.rng.uniform(3, 12, 6)
    else:
        m = S.rng.uniform(-5, 5, 6)
        w = S.rng.uniform(1.5, 7, 6)
        lo, up = m - w, m + w
    kw["joint_lower_limit"], kw["joint_upper_limit"] = lo, up
    return kw


def opw(S, g, lim=True):
    s = S.rng.choice([-1.0, 1.0], 6)
    if S.flip(0.7):
        w = [s[3] * EX, s[4] * EY, s[5] * EX]
        P4, P5 = S.rng.normal() * EX * S.flip(), S.rng.normal() * EX * S.flip()
        if S.flip(0.3):
            w = [s[3] * EZ, s[4] * EY, s[5] * EZ]
            P4, P5 = S.rng.normal() * EZ * S.flip(), S.rng.normal() * EZ * S.flip()
    else:
        h4 = S.rotation()[:, 0]

        def mk():
            while True:
                v = S.rotation()[:, 0]
                if np.linalg.norm(np.cross(v, h4)) > 0.3:
                    return v
        w = [mk(), h4, mk()]
        P4 = P5 = np.zeros(3)
    H = np.array([s[0] * EZ, s[1] * EY, s[1] * EY] + w).T
    P = np.array([small(S), small(S), offset(S), offset(S) - P4, P4, P5, small(S)]).T
    return g.Robot(H, P, [0] * 6, **aux(S, g, limits(S, {}) if lim else {}))


def ur(S, g, lim=True, sign=None):
    s = sign or S.pick([-1.0, 1.0])
    H = np.array([EZ, s * EY, s * EY, s * EY, -EZ, s * EY]).T
    if S.flip():
        P = np.array([small(S), EZ * S.rng.normal(), EX * S.rng.uniform(0.2, 1), EX * S.rng.uniform(0.2, 1) + EY * S.rng.normal(), EZ * S.rng.normal(), EY * S.rng.normal(), EY * S.rng.normal()]).T
    else:
        P = np.array([small(S), small(S), offset(S), offset(S), small(S), EY * S.rng.normal() * S.flip(), small(S)]).T
    return g.Robot(H, P, [0] * 6, **aux(S, g, limits(S, {}) if lim else {}))


def pose(S, g, r):
    """mostly reachable poses, among them singular ones; sometimes any pose"""
    q = S.rng.uniform(-3, 3, 6)
    if r.joint_lower_limit is not None and S.flip(0.7):
        q = r.joint_lower_limit + S.rng.random(6) * (r.joint_upper_limit - r.joint_lower_limit)
    c = S.rng.integers(8)
    if c == 0:
        q[4] = 0
    elif c == 1:
        q[4] = math.pi
    elif c == 2:
        q[:] = 0
    elif c == 3:
        q = np.round(q / (math.pi / 2)) * math.pi / 2
    M = fk(r, q)
    if S.flip(0.1):
        M = mat_h(S.rotation(), S.rng.normal(size=3) * 2)
    return g.Transform(M[:3, :3], M[:3, 3]), q


def last(S, q):
    c = S.rng.integers(4)
    if c == 0:
        return None
    v = q + S.rng.normal(size=6) * S.pick([0.01, 1.0]) if c == 1 else S.rng.uniform(-9, 9, 6)
    return S.form(v, ("list", "array", "tuple"))


def reach(S, g, name, r, T, lst, q):
    i = dict(robot=r, desired_pose=T, last_joints=lst)
    before = freeze([r, T, lst])
    f = getattr(g, name)
    sol = S.call(name, (lambda: f(r, T)) if lst is None and S.flip() else (lambda: f(r, T, lst)), i)
    S.ok("a list is returned", isinstance(sol, list), i, sol)
    S.ok("frame: arguments are not modified", freeze([r, T, lst]) == before, i)
    s = 1 + np.sum(np.abs(r.P)) + np.max(np.abs(T.p))
    for x in sol:
        x = np.asarray(x, dtype=float)
        S.ok("a solution is a vector of six angles", x.shape == (6,) and bool(np.all(np.isfinite(x))), i, x)
        M = fk(r, x)
        S.close("the solution reaches the desired rotation", M[:3, :3], T.R, 2e-5, i)
        S.close("the solution reaches the desired position", M[:3, 3], np.asarray(T.p, dtype=float).reshape(3), 2e-5 * s, i)
    return sol, i


def limited(S, g, name, r, T, lst, q):
    sol, i = reach(S, g, name, r, T, lst, q)
    lo, up = r.joint_lower_limit, r.joint_upper_limit
    for x in sol:
        if lo is not None:
            S.ok("every angle is within the joint limits", bool(np.all(x >= lo) and np.all(x <= up)), i, x, [lo, up])
        S.call("fwdkin accepts the solution", lambda: g.fwdkin(r, x), i)
        if lst is not None:
            for j in range(6):
                for m in (-3, -2, -1, 1, 2, 3):
                    y = x[j] + 2 * math.pi * m
                    if lo is None or (lo[j] + 1e-6 < y < up[j] - 1e-6):
                        S.ok("no turn within the limits is closer to last_joints", abs(y - lst[j]) > abs(x[j] - lst[j]) - 1e-6, i, x, [j, y])
    if lst is not None:
        d = [float(np.linalg.norm(np.asarray(x) - np.asarray(lst))) for x in sol]
        S.ok("the solutions are ordered by their distance to last_joints", all(a <= b + 1e-9 for a, b in zip(d, d[1:])), i, d)
    return sol
