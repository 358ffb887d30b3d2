from base import *


def search(S):
    g = import_g()
    for _ in S.loop(1500):
        n = int(S.rng.integers(0, 10))
        H = np.array([S.unit() for _ in range(n)]).T.reshape(3, n)
        P = np.array([S.vec() for _ in range(n + 1)]).T.reshape(3, n + 1)
        jt = [int(x) for x in S.rng.integers(0, 4, size=n)]
        if S.flip(0.3):
            H = H * (1 + S.rng.uniform(-1, 1, size=n) * 1e-6)

        def nums(m):
            v = S.rng.normal(size=m)
            return v if S.flip() else v.tolist()
        kw = {}
        for k in ("joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit"):
            if S.flip():
                kw[k] = nums(n)
        if S.flip():
            kw["M"] = [np.zeros((6, 6)) for _ in range(n + 1)]
        if S.flip():
            kw["R_tool"] = S.rotation()
        if S.flip():
            kw["p_tool"] = S.vec()
        if S.flip():
            kw["joint_names"] = ["j%d" % i for i in range(n)]
        for k in ("root_link_name", "tip_link_name"):
            if S.flip():
                kw[k] = k
        for k in ("T_flange", "T_base"):
            if S.flip():
                kw[k] = transform(S, g)
        i = dict(H=H, P=P, joint_type=jt, **kw)
        t = np.array(jt, dtype=int) if S.flip() else jt
        r = S.call("a well-formed robot", lambda: g.Robot(H, P, t, **kw), i)
        S.close("H is stored", r.H, H, 0, i)
        S.close("P is stored", r.P, P, 0, i)
        S.ok("joint types are stored", list(r.joint_type) == jt, i, r.joint_type)
        both = "joint_lower_limit" in kw and "joint_upper_limit" in kw
        for k in ("joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit", "M", "joint_names", "root_link_name", "tip_link_name", "T_flange", "T_base", "R_tool", "p_tool"):
            have = k in kw
            if k in ("joint_lower_limit", "joint_upper_limit"):
                have = both
            if k in ("R_tool", "p_tool"):
                have = "R_tool" in kw and "p_tool" in kw
            v = getattr(r, k)
            S.ok(k + " is exposed exactly when given", (v is not None) == have, i, v)
            if have:
                S.ok(k + " is stored", freeze(v) == freeze(kw[k]) or np.array_equal(v, kw[k]), i, v, kw[k])

        def bad(label, H=H, P=P, t=t, **o):
            S.raises("ill-formed robot is rejected: " + label, lambda: g.Robot(H, P, t, **dict(kw, **o)), dict(H=H, P=P, joint_type=t, **dict(kw, **o)))
        if n:
            j = int(S.rng.integers(n))
            Hb = H.copy()
            Hb[:, j] *= S.pick([0.0, 0.5, 2.0, -2.0, 1.001, 0.999])
            bad("axis that is not a unit vector", H=Hb)
            tb = list(jt)
            tb[j] = S.pick([-1, 4, 5, 7, 100, 0.5, 1.5, 2.999])
            bad("unknown joint type", t=tb)
            bad("too few joint types", t=jt[:-1])
            bad("P with N columns", P=P[:, :-1])
            l = nums(n)[:-1]
            both = dict(joint_lower_limit=nums(n), joint_upper_limit=nums(n))
            bad("short lower limit", **dict(both, joint_lower_limit=l))
            bad("short upper limit", **dict(both, joint_upper_limit=l))
            bad("short velocity limit", joint_vel_limit=l)
            bad("short acceleration limit", joint_acc_limit=l)
            bad("short names", joint_names=["a"] * (n - 1))
        l = nums(n + 1)
        both = dict(joint_lower_limit=nums(n), joint_upper_limit=nums(n))
        bad("long lower limit", **dict(both, joint_lower_limit=l))
        bad("long upper limit", **dict(both, joint_upper_limit=l))
        bad("long velocity limit", joint_vel_limit=l)
        bad("long acceleration limit", joint_acc_limit=l)
        bad("long names", joint_names=["a"] * (n + 1))
        bad("too many joint types", t=jt + [0])
        bad("P with N+2 columns", P=np.hstack([P, P[:, :1]]))
        bad("H with four rows", H=np.vstack([H, np.zeros((1, n))]))
        bad("P with four rows", P=np.vstack([P, np.zeros((1, n + 1))]))
        bad("P with two rows", P=P[:2])
        Ms = [np.zeros((6, 6)) for _ in range(n + 1)]
        bad("too few inertias", M=Ms[:-1])
        bad("too many inertias", M=Ms + Ms[:1])
        j = int(S.rng.integers(n + 1))
        Mb = list(Ms)
        Mb[j] = np.zeros(S.pick([(6, 5), (5, 6), (3, 3), (36,), (6, 7)]))
        bad("inertia of the wrong shape", M=Mb)
