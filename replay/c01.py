from base import *


def search(S):
    g = import_g()
    for _ in S.loop(3000):
        k, v = S.vec(), S.vec()
        if S.flip(0.2):
            k = np.round(k * 3)
        a = S.form(k)
        fr = freeze(a)
        i = {"k": a, "v": v}
        sc = 1e-12 * (1 + np.linalg.norm(k) * (1 + np.linalg.norm(v)))
        K = S.call("hat", lambda: g.hat(a), i)
        S.close("hat(k) v = k x v", K @ v, np.cross(k, v), sc, i)
        S.close("hat(k) is skew-symmetric", K.T, -K, 0, i)
        S.close("invhat(hat(k)) = k", S.call("invhat", lambda: g.invhat(K), i), k, 0, i)
        S.ok("arguments are not modified", freeze(a) == fr, i)
        M = S.rng.normal(size=(3, 3))
        if S.flip(0.3):
            M = np.round(M * 3).astype(int)
        i = {"M": M, "v": v}
        w = S.call("invhat", lambda: g.invhat(M), i)
        S.close("invhat(M) is the axis of the skew part", np.cross(w, v), ((M - M.T) / 2) @ v, 1e-12 * (1 + np.linalg.norm(v)), i)
        i = {"r": a}
        G = S.call("screw_matrix", lambda: g.screw_matrix(a), i)
        W = np.eye(6)
        W[:3, 3:] = hatm(k)
        S.close("screw_matrix(r) = [[I, hat(r)], [0, I]]", G, W, 0, i)
        b = S.vec()
        i = {"a": k, "b": b}
        S.close("screw_matrix(a) screw_matrix(b) = screw_matrix(a+b)", g.screw_matrix(k) @ g.screw_matrix(b), g.screw_matrix(k + b), 1e-12 * (1 + np.linalg.norm(k) + np.linalg.norm(b)), i)
