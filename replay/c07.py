from base import *


def search(S):
    g = import_g()
    for n in S.loop(3000):
        p, q, r = S.vec(4), S.vec(4), S.vec(4)
        if S.flip(0.2):
            q = np.round(q * 3)
        a = S.form(q, ("list", "array"))
        fr = freeze(a)
        m = (1 + np.linalg.norm(p)) * (1 + np.linalg.norm(q)) * (1 + np.linalg.norm(r)) * 1e-12
        i = {"p": p, "q": a, "r": r}
        c = S.call("quatcomplement", lambda: g.quatcomplement(a), i)
        S.close("quatcomplement(q) is the conjugate", c, [q[0], -q[1], -q[2], -q[3]], 0, i)
        S.ok("arguments are not modified", freeze(a) == fr, i)
        fr = freeze(q)
        Q = S.call("quatproduct", lambda: g.quatproduct(q), i)
        S.close("quatproduct(q) p is the Hamilton product", Q @ p, qmul(q, p), m, i)
        S.close("q q* = |q|^2", Q @ c, [q @ q, 0, 0, 0], m * (1 + np.linalg.norm(q)), i)
        u, w = S.unit(4), S.vec()
        i = {"q": u, "w": w}
        fu = freeze(u)
        d = S.call("quatjacobian", lambda: g.quatjacobian(u), i) @ w
        S.close("quatjacobian(q) w is the quaternion rate of hat(w) q2R(q)", d, qmul([0] + list(w), u) / 2, 1e-10 * (1 + np.linalg.norm(w)), i)
        S.ok("arguments are not modified", freeze(q) == fr and freeze(u) == fu, i)
