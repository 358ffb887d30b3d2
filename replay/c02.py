from base import *


def search(S):
    g = import_g()
    for _ in S.loop(4000):
        k, t, t2 = S.unit(), S.angle(), S.angle()
        a = S.form(k)
        fr = freeze(a)
        if S.flip(0.1):
            t = int(round(t))
        i = {"k": a, "theta": t}
        R = S.call("rot", lambda: g.rot(a, t), i)
        S.close("rot(k, theta) is the right-handed rotation", R, rod(k, t), 1e-9, i)
        S.close("rot(k, theta) is orthonormal", R @ R.T, np.eye(3), 1e-9, i)
        S.ok("arguments are not modified", freeze(a) == fr, i)
        i = {"k": a, "a": t, "b": t2}
        S.close("rot(k,a) rot(k,b) = rot(k,a+b)", R @ g.rot(a, t2), g.rot(a, t + t2), 1e-9, i)
        S.close("rot(k,-a) inverts rot(k,a)", R @ g.rot(a, -t), np.eye(3), 1e-9, i)
        S.close("rot(k,a) = rot(k,a+2 pi)", R, g.rot(a, t + 2 * math.pi), 1e-9, i)
