from base import *


def search(S):
    g = import_g()

    def mkT(n):
        R, p = S.rotation(), S.vec()
        return g.Transform(R, S.form(p, ("array", "column", "list")), n + "p" if S.flip(0.7) else None, n + "c" if S.flip(0.7) else None), R, p
    for _ in S.loop(3000):
        (A, RA, pA), (B, RB, pB), (C, RC, pC) = mkT("a"), mkT("b"), mkT("c")
        i = {"A": A, "B": B, "C": C}
        m = 1e-10 * (1 + np.linalg.norm(pA) + np.linalg.norm(pB) + np.linalg.norm(pC))
        fr = frames(A, B, C)
        S.close("R is stored", A.R, RA, 0, i)
        S.close("p is stored", A.p, pA, 0, i)
        X = S.call("A*B", lambda: A * B, i)
        S.close("rotation of A*B", X.R, RA @ RB, m, i)
        S.close("position of A*B", X.p, pA + RA @ pB, m, i)
        S.ok("A*B keeps A's parent and B's child", (X.parent_frame_id, X.child_frame_id) == (A.parent_frame_id, B.child_frame_id), i, (X.parent_frame_id, X.child_frame_id))
        Y, Z = (A * B) * C, A * (B * C)
        S.close("composition is associative", T4(Y), T4(Z), m, i)
        V = S.call("inv", lambda: A.inv(), i)
        S.close("A*A.inv() = I", T4(A * V), np.eye(4), m, i)
        S.close("A.inv()*A = I", T4(V * A), np.eye(4), m, i)
        S.ok("inv swaps parent and child", (V.parent_frame_id, V.child_frame_id) == (A.child_frame_id, A.parent_frame_id), i, (V.parent_frame_id, V.child_frame_id))
        S.close("inverse of a product", T4(X.inv()), T4(B.inv() * V), m, i)
        S.ok("position is a flat vector", X.p.shape == (3,) and V.p.shape == (3,) and A.p.shape == (3,), i)
        S.ok("operands are not modified", frames(A, B, C) == fr, i)
        N = g.Transform(RA, pA)
        S.ok("frames default to none", N.parent_frame_id is None and N.child_frame_id is None, i)
    for sh in [(), (1,), (3,), (9,), (2, 2), (2, 3), (3, 2), (4, 4), (3, 4), (1, 9), (9, 1), (1, 3, 3), (3, 3, 1), (0, 0), (6,), (3, 1), (1, 3), (4,), (2,), (0,), (2, 1), (4, 1), (3, 1, 1), (1, 3, 1), (3, 3)]:
        z = np.zeros(sh)
        if sh != (3, 3):
            S.raises("rotation that is not 3x3 is rejected", lambda: g.Transform(z, [0., 0, 0]), {"R": z})
            S.raises("rotation that is not 3x3 is rejected", lambda: g.Transform(z.tolist(), [0., 0, 0]), {"R": z.tolist()})
        if sh not in ((3,), (3, 1)):
            S.raises("position that is not a 3-vector is rejected", lambda: g.Transform(np.eye(3), z), {"p": z})
            S.raises("position that is not a 3-vector is rejected", lambda: g.Transform(np.eye(3), z.tolist()), {"p": z.tolist()})
