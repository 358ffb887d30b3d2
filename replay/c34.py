from base import *


def search(S):
    g = import_g()
    real = np.random.rand
    I = S.call("identity_transform", lambda: g.identity_transform(), {})
    S.close("identity_transform has R = I, p = 0", T4(I), np.eye(4), 0, {})
    drawn = []

    def fake(*a):
        x = real(*a)
        c = S.rng.integers(5)
        if c == 0 and np.size(x) > 1:
            x = np.asarray(x) * (S.rng.random(np.shape(x)) < 0.5)
            if not np.any(x):
                x.reshape(-1)[int(S.rng.integers(x.size))] = float(S.rng.random()) + 1e-3
        if c == 1:
            x = x * 1e-3
        if c == 2:
            x = x * 0 + (1 - 2.0 ** -53)
        drawn.append(np.array(x))
        return x
    np.random.seed(int(S.rng.integers(2 ** 31)))
    np.random.rand = fake
    try:
        for _ in S.loop(3000):
            del drawn[:]
            R = S.call("random_R", lambda: g.random_R(), {"drawn": drawn})
            i = {"drawn": list(drawn)}
            S.close("random_R is orthonormal", R @ R.T, np.eye(3), 1e-9, i)
            S.close("random_R has determinant 1", np.linalg.det(R), 1.0, 1e-9, i)
            p = S.call("random_p", lambda: g.random_p(), i)
            S.ok("random_p is in [0,1)^3", np.shape(p) == (3,) and np.all(p >= 0) and np.all(p < 1), i, p)
            T = S.call("random_transform", lambda: g.random_transform(), i)
            S.close("random_transform has a proper rotation", T.R @ T.R.T, np.eye(3), 1e-9, i)
            S.close("random_transform has determinant 1", np.linalg.det(T.R), 1.0, 1e-9, i)
            S.ok("random_transform has a position in [0,1)^3", np.shape(T.p) == (3,) and np.all(T.p >= 0) and np.all(T.p < 1), i, T)
            for X in (T * I, I * T):
                S.close("identity is neutral", T4(X), T4(T), 1e-12, {"T": T})
    finally:
        np.random.rand = real
