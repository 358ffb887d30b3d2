from base import *


def theta_form(S, th):
    return S.pick([lambda: [float(x) for x in th], lambda: np.array(th, dtype=float), lambda: tuple(float(x) for x in th)])() if len(th) else np.array(th, dtype=float)


def limits_of(robot):
    return robot.joint_lower_limit is not None and robot.joint_upper_limit is not None


def out_of_range(S, r, th):
    """a joint vector with exactly one joint outside its limits"""
    n = len(th)
    j = int(S.rng.integers(n))
    b = np.array(th, dtype=float)
    d = float(S.pick([1e-9, 1e-3, 0.5, 10.0]))
    b[j] = r.joint_upper_limit[j] + d if S.flip() else r.joint_lower_limit[j] - d
    return b


def search(S):
    g = import_g()
    for k in S.loop(1200):
        n = int(S.rng.integers(0, 9)) if k % 3 else None
        r = chain(S, g, n=n, types=(0, 1, 2, 3), limits=S.flip())
        th = joints(S, r)
        i = dict(robot=r, theta=th)
        arg = theta_form(S, th)
        before = freeze([r, arg])
        T1 = S.call("fwdkin", lambda: g.fwdkin(r, arg), i)
        S.ok("the pose is a Transform", isinstance(T1, g.Transform), i, T1)
        M = fk(r, th)
        s = 1 + np.sum(np.abs(th)) + np.sum(np.abs(r.P))
        S.close("rotation is the product of the joint motions", T1.R, M[:3, :3], 1e-9 * s, i)
        S.close("position is that of the product of the joint motions", T1.p, M[:3, 3], 1e-8 * s, i)
        S.ok("frame: arguments are not modified", freeze([r, arg]) == before, i)
        if limits_of(r) and len(th):
            b = out_of_range(S, r, th)
            ib = dict(robot=r, theta=b)
            S.raises("a joint out of range raises an error", lambda: g.fwdkin(r, theta_form(S, b)), ib)
            T2 = S.call("fwdkin ignoring limits", lambda: g.fwdkin(r, b, True), ib)
            S.close("limits can be ignored", T4(T2), fk(r, b), 1e-8 * (s + 10), ib)
        elif len(th):
            lo, up = r.joint_lower_limit, r.joint_upper_limit
            if S.flip():
                r.joint_lower_limit = np.array(th) + 1
            else:
                r.joint_upper_limit = np.array(th) - 1
            T2 = S.call("a single limit is not enforced", lambda: g.fwdkin(r, th), i)
            S.close("a single limit is not enforced", T4(T2), M, 1e-8 * s, i)
