from base import *
from c12 import theta_form, limits_of, out_of_range


def jac(r, th):
    """velocity of the pose per joint rate, from the product of exponentials"""
    H, P = np.asarray(r.H, float), np.asarray(r.P, float)
    n = H.shape[1]
    R, p = np.eye(3), P[:, 0].copy()
    ax, at = [], []
    for i in range(n):
        ax.append(R @ H[:, i])
        at.append(p.copy())
        if r.joint_type[i] in (0, 2):
            R = R @ rod(H[:, i], th[i])
        else:
            p = p + R @ H[:, i] * th[i]
        p = p + R @ P[:, i + 1]
    M = mat_h(R, p)
    if r.T_flange is not None:
        M = M @ T4(r.T_flange)
    if r.R_tool is not None:
        M = M @ mat_h(r.R_tool, r.p_tool)
    pT = M[:3, 3]
    J = np.zeros((6, n))
    for i in range(n):
        if r.joint_type[i] in (0, 2):
            J[:3, i] = ax[i]
            J[3:, i] = np.cross(ax[i], pT - at[i])
        else:
            J[3:, i] = ax[i]
    B = np.eye(3) if r.T_base is None else r.T_base.R
    return np.vstack([B @ J[:3], B @ J[3:]]), ax, at, pT, B


def search(S):
    g = import_g()
    for k in S.loop(1200):
        n = int(S.rng.integers(0, 9)) if k % 3 else None
        r = chain(S, g, n=n, types=(0, 1), limits=S.flip())
        th = joints(S, r)
        i = dict(robot=r, theta=th)
        arg = theta_form(S, th)
        before = freeze([r, arg])
        J = S.call("robotjacobian", lambda: g.robotjacobian(r, arg), i)
        s = (1 + np.sum(np.abs(th)) + np.sum(np.abs(r.P)))
        S.close("columns are the velocities per unit rate", J, jac(r, th)[0], 1e-8 * s, i)
        S.ok("frame: arguments are not modified", freeze([r, arg]) == before, i)
        if limits_of(r) and len(th):
            b = out_of_range(S, r, th)
            ib = dict(robot=r, theta=b)
            S.raises("a joint out of range raises an error", lambda: g.robotjacobian(r, theta_form(S, b)), ib)
            J2 = S.call("ignoring limits", lambda: g.robotjacobian(r, b, True), ib)
            S.close("limits can be ignored", J2, jac(r, b)[0], 1e-8 * (s + 10), ib)
        elif len(th):
            if S.flip():
                r.joint_lower_limit = np.array(th) + 1
            else:
                r.joint_upper_limit = np.array(th) - 1
            J2 = S.call("a single limit is not enforced", lambda: g.robotjacobian(r, th), i)
            S.close("a single limit is not enforced", J2, J, 1e-8 * s, i)
    for _ in S.loop(300):
        m = int(S.rng.integers(0, 6))
        n = 3 + m
        H = np.array([S.unit() for _ in range(n)]).T.reshape(3, n)
        P = np.array([S.vec() for _ in range(n + 1)]).T.reshape(3, n + 1)
        jt = [3, 3, 2] + [int(S.rng.integers(2)) for _ in range(m)]
        r = g.Robot(H, P, np.array(jt) if S.flip() else jt, **aux(S, g))
        th = joints(S, r)
        i = dict(robot=r, theta=th)
        J = S.call("mobile base", lambda: g.robotjacobian(r, th), i)
        F, ax, at, pT, B = jac(r, th)
        want = np.zeros((6, n - 1))
        want[3:, 0] = B @ rod(H[:, 2], th[2]) @ H[:, 0]
        want[:, 1:] = F[:, 2:]
        S.close("mobile base: forward motion, turning motion, arm", J, want, 1e-8 * (1 + np.sum(np.abs(th)) + np.sum(np.abs(P))), i)
