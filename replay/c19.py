from ikrobots import *


def search(S):
    g = import_g()
    ik = import_i()
    for k in S.loop(700):
        if k % 2:
            r = opw(S, g)
            name = "robot6_sphericalwrist_invkin"
        else:
            r = ur(S, g)
            name = "ur_invkin"
        T, q = pose(S, g, r)
        l = last(S, q)
        limited(S, g, name, r, T, l, q)
        # unreachable
        if k % 10 == 0:
            far = g.Transform(S.rotation(), np.array([1.0, 2, 3]) * 1000)
            i = dict(robot=r, desired_pose=far, last_joints=l)
            sol = S.call("unreachable pose", lambda: getattr(g, name)(r, far, l), i)
            S.ok("a pose without solution gives an empty list", isinstance(sol, list) and len(sol) == 0, i, sol)
        # the normalisation itself
        for _ in range(10):
            j = int(S.rng.integers(6))
            th = float(S.rng.uniform(-math.pi, math.pi)) if S.flip(0.8) else S.angle()
            i = dict(robot=r, joint=j, theta=th, last_joints=l)
            x = S.call("normalize_joints", lambda: ik.normalize_joints(r, l)(j, [th]), i)
            lo, up = r.joint_lower_limit, r.joint_upper_limit
            inside = lambda y: lo is None or lo[j] + 1e-9 < y < up[j] - 1e-9
            S.ok("at most one angle for one angle", len(x) <= 1, i, x)
            if not x:
                S.ok("an angle is dropped only when it and its neighbouring turns are outside the limits", not any(inside(th + 2 * math.pi * m) for m in (-1, 0, 1)), i, x)
                continue
            t = (x[0] - th) / (2 * math.pi)
            S.ok("the angle is shifted by full turns", abs(t - round(t)) < 1e-9, i, x)
            if lo is not None:
                S.ok("the angle is within the limits", lo[j] <= x[0] <= up[j], i, x)
            if l is None and inside(th):
                S.ok("the angle is kept", abs(x[0] - th) < 1e-9, i, x)
            if l is not None:
                for m in range(-4, 5):
                    y = x[0] + 2 * math.pi * m
                    if inside(y):
                        S.ok("no turn within the limits is closer to last_joints", abs(y - l[j]) > abs(x[0] - l[j]) - 1e-6, i, x, y)
