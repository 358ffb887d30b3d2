from base import *


def search(S):
    g = import_g()
    for n in S.loop(3000):
        q, p = S.unit(4), S.unit(4)
        a = S.form(q, ("list", "array", "intlist"))
        fr = freeze(a)
        i = {"q": a, "p": p}
        R = S.call("q2R", lambda: g.q2R(a), i)
        S.close("q2R(q) is the rotation of q", R, qR(q), 1e-9, i)
        S.close("q2R(q) is orthonormal", R @ R.T, np.eye(3), 1e-9, i)
        S.close("q2R(q) = q2R(-q)", R, g.q2R(-q), 1e-12, i)
        S.close("q2R(p q) = q2R(p) q2R(q)", g.q2R(qmul(p, q)), g.q2R(p) @ R, 1e-9, i)
        S.ok("arguments are not modified", freeze(a) == fr, i)
        k, t = S.unit(), S.angle()
        a = S.form(k, ("array", "column"))
        if S.flip(0.1):
            t = int(round(t))
        fr = freeze(a)
        i = {"k": a, "theta": t}
        q = S.call("rot2q", lambda: g.rot2q(a, t), i)
        S.close("rot2q(k, theta) = [cos(theta/2), sin(theta/2) k]", q, [math.cos(t / 2)] + list(math.sin(t / 2) * k), 1e-9, i)
        S.close("q2R(rot2q(k, theta)) = rot(k, theta)", S.call("q2R", lambda: g.q2R(q), i), rod(k, t), 1e-9, i)
        S.ok("arguments are not modified", freeze(a) == fr, i)
