from base import *


def search(S):
    g = import_g()
    X, Y, Z = np.eye(3)
    for n in S.loop(6000):
        r, p, y = S.angle(), S.angle(), S.angle()
        a = S.form([r, p, y], ("list", "array", "tuple"))
        fr = freeze(a)
        i = {"rpy": a}
        R = S.call("rpy2R", lambda: g.rpy2R(a), i)
        want = rod(Z, y) @ rod(Y, p) @ rod(X, r)
        S.close("rpy2R([r,p,y]) = Rz(y) Ry(p) Rx(r)", R, want, 1e-9, i)
        S.ok("arguments are not modified", freeze(a) == fr, i)
        if S.flip(0.5):
            p = S.rng.choice([-1, 1]) * math.pi / 2 + S.rng.choice([-1, 1]) * 10.0 ** float(S.rng.uniform(-12, 0))
        M = rod(Z, y) @ rod(Y, p) @ rod(X, r)
        c = math.hypot(M[0, 0], M[1, 0])
        i = {"R": M}
        if c > 1e-13:
            fr = freeze(M)
            o = S.call("R2rpy", lambda: g.R2rpy(M), i)
            tol = 1e-7 + 1e-14 / c
            S.ok("pitch is in [-pi/2, pi/2]", abs(o[1]) <= math.pi / 2 + 1e-9, i, o)
            if tol < 1e-2:
                S.close("rpy2R(R2rpy(R)) = R", rod(Z, o[2]) @ rod(Y, o[1]) @ rod(X, o[0]), M, tol, i)
            S.ok("arguments are not modified", freeze(M) == fr, i)
        s = float(S.rng.choice([-1, 1]))
        t = S.angle()
        M = np.array([[0, s * math.sin(t), s * math.cos(t)], [0, math.cos(t), -math.sin(t)], [-s, 0, 0]])
        if S.flip(0.3):
            M[0, 0], M[1, 0] = S.rng.uniform(-1, 1, size=2) * 1e-16
        S.raises("R2rpy rejects the pitch singularity", lambda: g.R2rpy(M), {"R": M})
