from base import *


def search(S):
    g = import_g()
    for _ in S.loop(6000):
        A = transform(S, g)
        i = {"A": A}
        S.ok("A == A", bool(A == A) is True and bool(A == g.Transform(A.R, A.p)), i)
        S.ok("A != A is false", bool(A != A) is False, i)
        S.ok("A.isclose(A)", A.isclose(A) and A.isclose(A, 1e-12), i)
        R, p = A.R.copy(), A.p.copy()
        onp = S.flip()
        j, k = S.rng.integers(3), S.rng.integers(3)
        b = p[j] if onp else R[j, k]
        thr = 1e-8 + 1e-6 * abs(b)

        def shifted(d):
            R2, p2 = R.copy(), p.copy()
            if onp:
                p2[j] += d
            else:
                R2[j, k] += d
            return g.Transform(R2, p2), abs((p2[j] if onp else R2[j, k]) - b)
        s = float(S.rng.choice([-1, 1]))
        f = float(S.pick([0.5, 0.9, 0.99, 1.01, 1.1, 2, 10, 1e3, 1e5, 1e6, 1e8]))
        # A is perturbed; A == B compares with the magnitude of B
        C, d = shifted(s * thr * f)
        i = {"A": C, "B": A}
        if d > thr * 1.001:
            S.ok("A == B is false when an entry differs by more", not bool(C == A), i)
            S.ok("A != B is its negation", bool(C != A) is True, i)
        elif d < thr * 0.999:
            S.ok("A == B is true when no entry differs by more", bool(C == A), i)
            S.ok("A != B is its negation", bool(C != A) is False, i)
        tol = 10.0 ** float(S.rng.uniform(-9, 0))
        C, d = shifted(s * tol * f)
        i = {"A": C, "B": A, "tol": tol}
        if d < tol * 0.999:
            S.ok("isclose is true when every entry is within tol", bool(C.isclose(A, tol)), i)
            S.ok("isclose is true when every entry is within tol (keyword)", bool(C.isclose(A, tol=tol)), i)
        elif d > tol * 1.001 + 1.001e-5 * abs(b):
            S.ok("isclose is false when an entry differs by more", not bool(C.isclose(A, tol)), i)
        C, d = shifted(s * 1e-6 * f)
        i = {"A": C, "B": A}
        if d < 1e-6 * 0.999:
            S.ok("isclose with the default tolerance is true", bool(C.isclose(A)), i)
        elif d > 1e-6 * 1.001 + 1.001e-5 * abs(b):
            S.ok("isclose with the default tolerance is false", not bool(C.isclose(A)), i)
