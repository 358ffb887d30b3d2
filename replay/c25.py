"""random sequences of calls on a pool of shared arguments; after every call all of them are as they were"""
from ikrobots import *
import copy


def fz(a, seen=()):
    if isinstance(a, np.ndarray):
        return ("nd", a.shape, str(a.dtype), a.tobytes()) if a.dtype != object else ("nd", a.shape, [fz(x) for x in a.ravel().tolist()])
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [fz(x) for x in a])
    if isinstance(a, dict):
        return ("dict", [(k, fz(v)) for k, v in a.items()])
    if hasattr(a, "__dict__") and not callable(a):
        return ("obj", [(k, fz(v)) for k, v in sorted(vars(a).items()) if not k.startswith("_")])
    return ("v", repr(a))


def first(S, g, n):
    """a configuration, sometimes on the turn of another"""
    q = S.rng.uniform(-3, 3, n)
    if S.flip(0.3):
        q = q + 2 * math.pi * S.rng.integers(-2, 3, n)
    return S.form(q, ("list", "array", "array", "tuple"))


def search(S):
    g = import_g()
    ik = import_i()
    for k in S.loop(260):
        u = S.unit()
        pool = dict(
            v=[S.form(S.vec()) for _ in range(3)], u=[S.form(S.unit()) for _ in range(3)], k=u, R=[S.rotation() for _ in range(3)],
            q=[S.form(S.unit(4)) for _ in range(2)] + [-S.unit(4)], rpy=[S.form(S.rng.normal(size=3)) for _ in range(2)], t=float(S.rng.random()),
            T=[transform(S, g, S.flip()) for _ in range(3)], s=S.angle())
        w = S.rotation()
        pool["axes"] = [w[:, 0].copy(), w[:, 1].copy()]
        x, th = S.rng.normal(size=3), S.angle()
        pool["pq"] = [x, rod(u, th) @ x]
        pool["pp"] = [S.perp(u), S.perp(u)]
        chains = [chain(S, g) for _ in range(2)]
        mobile = chain(S, g, n=5, types=(0,), limits=False)
        mobile.joint_type = S.pick([[0, 1, 3, 0, 2], [3, 0, 2, 0, 0]])
        arms = [opw(S, g), ur(S, g)]
        pool["robots"] = chains + arms + [mobile]
        ths = [S.form(joints(S, r), ("list", "array", "array")) for r in chains]
        tm = S.form(S.rng.normal(size=5), ("list", "array"))
        goals, lasts = [], []
        for r in arms:
            T, q = pose(S, g, r)
            goals.append(T)
            l = last(S, q)
            lasts.append(l)
        reach = [g.Transform(fk(r, np.asarray(t))[:3, :3], fk(r, np.asarray(t))[:3, 3]) for r, t in zip(chains, ths)]
        seeds = [S.form(np.asarray(t, dtype=float) + 0.1 * S.rng.normal(size=len(t)), ("list", "array", "array")) for t in ths]
        if S.flip(0.3):
            seeds = [np.reshape(np.array(s, dtype=float), (-1, 1)) if S.flip() else s for s in seeds]
        gains = [np.eye(3) * 0.4, np.eye(3) * 0.6]
        lims = np.array([-9.5, -8.0, -7.0, -6.5, -10.0, -9.0]), np.array([9.5, 8.0, 7.0, 6.5, 10.0, 9.0])
        re = g.Robot(arms[0].H, arms[0].P, [0] * 6, joint_lower_limit=lims[0], joint_upper_limit=lims[1])
        confs = [S.rng.uniform(-3, 3, 6) for _ in range(int(S.rng.integers(1, 3)))]
        clast = first(S, g, 6)
        pool.update(ths=ths, tm=tm, goals=goals, lasts=lasts, reach=reach, seeds=seeds, gains=gains, re=re, confs=confs, clast=clast)
        P = pool
        c = [
            ("hat", lambda: g.hat(S.pick(P["v"]))), ("invhat", lambda: g.invhat(g.hat(S.pick(P["v"])))), ("rot", lambda: g.rot(S.pick(P["u"]), P["s"])),
            ("R2rot", lambda: g.R2rot(S.pick(P["R"]))), ("screw_matrix", lambda: g.screw_matrix(S.pick(P["v"]))), ("q2R", lambda: g.q2R(S.pick(P["q"]))),
            ("R2q", lambda: g.R2q(S.pick(P["R"]))), ("q2rot", lambda: g.q2rot(S.pick(P["q"]))), ("rot2q", lambda: g.rot2q(S.pick(P["u"]), P["s"])),
            ("quatcomplement", lambda: g.quatcomplement(S.pick(P["q"]))), ("quatproduct", lambda: g.quatproduct(S.pick(P["q"]))),
            ("quatjacobian", lambda: g.quatjacobian(S.pick(P["q"]))), ("rpy2R", lambda: g.rpy2R(S.pick(P["rpy"]))), ("R2rpy", lambda: g.R2rpy(S.pick(P["R"]))),
            ("slerp", lambda: g.slerp(S.pick(P["q"]), S.pick(P["q"]), P["t"])),
            ("Transform", lambda: g.Transform(S.pick(P["R"]), S.pick(P["v"]))), ("Transform.__mul__", lambda: S.pick(P["T"]) * S.pick(P["T"])),
            ("Transform.inv", lambda: S.pick(P["T"]).inv()), ("Transform.__eq__", lambda: S.pick(P["T"]) == S.pick(P["T"])),
            ("Transform.isclose", lambda: S.pick(P["T"]).isclose(S.pick(P["T"]))), ("Transform.__repr__", lambda: repr(S.pick(P["T"])) + str(S.pick(P["T"]))),
            ("subproblem0", lambda: g.subproblem0(P["pp"][0], P["pp"][1], P["k"])), ("subproblem1", lambda: g.subproblem1(P["pq"][0], P["pq"][1], P["k"])),
            ("subproblem2", lambda: g.subproblem2(S.pick(P["u"]), S.pick(P["u"]), P["axes"][0], P["axes"][1])),
            ("subproblem3", lambda: g.subproblem3(P["pq"][0], P["pp"][0], P["k"], abs(P["s"]))), ("subproblem4", lambda: g.subproblem4(P["pq"][0], P["pp"][0], P["k"], P["t"])),
            ("Robot", lambda: g.Robot(chains[0].H, chains[0].P, chains[0].joint_type, chains[0].joint_lower_limit, chains[0].joint_upper_limit)),
            ("robotjacobian of a mobile robot", lambda: g.robotjacobian(mobile, P["tm"])), ("fwdkin of a mobile robot", lambda: g.fwdkin(mobile, P["tm"])),
            ("equivalent_configurations", lambda: g.equivalent_configurations(re, P["confs"], P["clast"] if S.flip() else None)),
        ]
        for j in range(2):
            c += [("fwdkin", lambda j=j: g.fwdkin(chains[j], P["ths"][j])), ("robotjacobian", lambda j=j: g.robotjacobian(chains[j], P["ths"][j])),
                  ("apply_robot_aux_transforms", lambda j=j: g.apply_robot_aux_transforms(chains[j], S.pick(P["T"]))),
                  ("unapply_robot_aux_transforms", lambda j=j: g.unapply_robot_aux_transforms(chains[j], S.pick(P["T"]))),
                  ("iterative_invkin", lambda j=j: g.iterative_invkin(chains[j], P["reach"][j], P["seeds"][j], max_steps=S.pick([0, 1, 8]))),
                  ("iterative_invkin with gains", lambda j=j: g.iterative_invkin(chains[j], P["reach"][j], P["seeds"][j], max_steps=5, Kp=P["gains"][0], KR=P["gains"][1])),
                  (("robot6_sphericalwrist_invkin", "ur_invkin")[j], lambda j=j: (g.robot6_sphericalwrist_invkin, g.ur_invkin)[j](arms[j], P["goals"][j], P["lasts"][j] if S.flip(0.7) else None))]
        order = S.rng.permutation(len(c))
        before = {n: fz(x) for n, x in P.items()}
        orig = {}
        for n, x in P.items():
            try:
                orig[n] = copy.deepcopy(x)
            except Exception:
                orig[n] = x
        done = []
        for n in order:
            name, f = c[n]
            done.append(name)
            try:
                with np.errstate(all="ignore"):
                    f()
            except Exception:
                pass                    # not a matter of this property
            for nm, x in P.items():
                if fz(x) != before[nm]:
                    S.ok("frame: %s leaves its arguments as they were" % name, False, {"calls": done, "argument": nm, "before": orig[nm]}, x, orig[nm])
            S.n += 1
        defaults = [fz(list(f.__defaults__ or ())) for f in (g.iterative_invkin, g.fwdkin, g.robotjacobian)]
        S.ok("frame: default values are as they were", defaults == DEF.setdefault("d", defaults), {}, defaults)


DEF = {}
