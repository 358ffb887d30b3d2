from base import *


def errors(robot, pose, q):
    """position error in the tool frame and sin(theta/2) k of the orientation error"""
    M = fk(robot, q)
    R, p = M[:3, :3], M[:3, 3]
    EP = R.T @ (p - np.asarray(pose.p, dtype=float).reshape(3))
    E = np.asarray(pose.R, dtype=float).T @ R
    v = np.array([E[2, 1] - E[1, 2], E[0, 2] - E[2, 0], E[1, 0] - E[0, 1]]) / 2      # sin(theta) k
    half = math.sqrt(max(0.0, (1 + np.trace(E)) / 4))                                # cos(theta/2)
    if half < 1e-3:
        w, V = np.linalg.eigh((E + E.T) / 2)
        s = V[:, -1] * math.sqrt(max(0.0, 1 - half * half))
    else:
        s = v / (2 * half)
    return np.concatenate([np.abs(s), np.abs(EP)])


def search(S):
    g = import_g()
    for k in S.loop(160):
        n = int(S.rng.integers(1, 9)) if k % 3 else 6
        kind = S.pick([(0,), (0, 1), (0, 1), (1,)])
        r = chain(S, g, n=n, types=kind, limits=S.flip(), with_aux=S.flip(0.6))
        rotary = [r.joint_type[j] in (0, 2) for j in range(n)]
        goal = np.array([S.rng.uniform(-3, 3) if x else S.rng.uniform(-2, 2) for x in rotary])
        M = fk(r, goal)
        pose = g.Transform(M[:3, :3], M[:3, 3])
        if S.flip(0.1):
            pose = g.Transform(S.rotation(), S.rng.normal(size=3) * 50)
        spread = S.pick([0.0, 1e-6, 0.05, 0.3, 1.5])
        q0 = goal + S.rng.normal(size=n) * spread
        if S.flip(0.4):
            q0 = q0 + np.array([2 * math.pi * S.rng.integers(-3, 4) if x else 0.0 for x in rotary])
        seed = S.pick([lambda: [float(x) for x in q0], lambda: q0.copy(), lambda: tuple(float(x) for x in q0)])()
        kw = {}
        if S.flip():
            kw["max_steps"] = int(S.pick([0, 1, 2, 5, 40, 300]))
        if S.flip():
            kw["tol"] = float(S.pick([1e-2, 1e-3, 1e-6]))
        if S.flip(0.3):
            kw["Kp"], kw["KR"] = np.eye(3) * S.rng.uniform(0.2, 1.0), np.eye(3) * S.rng.uniform(0.2, 1.0)
        tol = kw.get("tol", 1e-4)
        i = dict(robot=r, desired_pose=pose, q_current=seed, **kw)
        calls = [0]
        count(g, calls)
        before = freeze([r, pose, seed, kw])
        try:
            res = S.call("iterative_invkin", lambda: g.iterative_invkin(r, pose, seed, **kw), i)
        finally:
            count(g, None)
        S.ok("frame: arguments are not modified", freeze([r, pose, seed, kw]) == before, i)
        S.ok("the result is (converged, [configuration])", isinstance(res, tuple) and len(res) == 2 and len(res[1]) == 1 and np.shape(res[1][0]) == (n,), i, res)
        conv, x = bool(res[0]), np.asarray(res[1][0], dtype=float)
        S.ok("at most max_steps iterations are made", calls[0] <= 2 * kw.get("max_steps", 200) + 2, i, calls[0])
        e = errors(r, pose, x)
        if conv:
            S.ok("when convergence is reported, every component of the errors is below the tolerance", np.all(e < tol * (1 + 1e-6) + 1e-9), i, [res, e.tolist()])
        if kw.get("max_steps", 200) and np.all(errors(r, pose, q0) < tol * 0.99 - 1e-9):
            S.ok("a seed at the pose converges", conv, i, res)
        for j in range(n):
            if rotary[j]:
                S.ok("revolute joints are returned on the turn nearest the seed", abs(x[j] - q0[j]) <= math.pi + 1e-6, i, res)
        if kw.get("max_steps", 200) == 0:
            S.ok("without iterations the seed is returned", not conv and np.allclose(x, q0, atol=1e-9), i, res)


_fk = {}


def count(g, c):
    """counts the evaluations of the forward kinematics"""
    ik = import_i()
    if "f" not in _fk:
        _fk["f"] = ik.rox.fwdkin
    f = _fk["f"]
    if c is None:
        ik.rox.fwdkin = f
        return

    def h(*a, **k):
        c[0] += 1
        return f(*a, **k)
    ik.rox.fwdkin = h
