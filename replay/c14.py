from base import *


def search(S):
    g = import_g()
    for _ in S.loop(3000):
        r = chain(S, g, n=1)
        T = transform(S, g)
        A = np.eye(4)
        if r.T_flange is not None:
            A = A @ T4(r.T_flange)
        if r.R_tool is not None:
            A = A @ mat_h(r.R_tool, r.p_tool)
        B = T4(r.T_base) if r.T_base is not None else np.eye(4)
        i = {"robot": r, "T": T}
        fr = frames(r, T)
        m = 1e-9 * (1 + np.linalg.norm(T.p) + np.linalg.norm(A[:3, 3]) + np.linalg.norm(B[:3, 3]))
        X = S.call("apply", lambda: g.apply_robot_aux_transforms(r, T), i)
        S.close("apply = T_base T T_flange Tool", T4(X), B @ T4(T) @ A, m, i)
        Y = S.call("unapply", lambda: g.unapply_robot_aux_transforms(r, T), i)
        S.close("unapply = inv(T_base) T inv(T_flange Tool)", T4(Y), np.linalg.inv(B) @ T4(T) @ np.linalg.inv(A), m, i)
        S.close("unapply undoes apply", T4(g.unapply_robot_aux_transforms(r, X)), T4(T), m, i)
        S.close("apply undoes unapply", T4(g.apply_robot_aux_transforms(r, Y)), T4(T), m, i)
        S.ok("arguments are not modified", frames(r, T) == fr, i)
