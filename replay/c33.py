from base import *


class Grp:
    def __init__(self, S, T, n):
        from tesseract_robotics import tesseract_common as c
        self.frames = {}
        self.pose = {}
        for x in ("tip0", "tip1", "base1"):
            R, p = S.rotation(), S.rng.normal(size=3)
            self.pose[x] = mat_h(R, p)
            self.frames[x] = c.Isometry3d(mat_h(R, p))
        self.J = S.rng.normal(size=(6, n))
        self.sols = [S.rng.normal(size=(n, 1)) if S.flip() else S.rng.normal(size=n) for _ in range(int(S.rng.integers(0, 4)))]
        self.asked = []

    def calcFwdKin(self, th):
        self.asked.append(np.array(th))
        return self.frames

    def calcJacobian(self, th, base, link, *a):
        self.asked.append((np.array(th), base, link))
        return self.J

    def calcInvKin(self, iks, seed):
        self.asked.append((np.array(seed), [(np.array(i.pose.matrix()), i.tip_link_name, i.working_frame) for i in iks]))
        return self.sols

    def getBaseLinkName(self):
        return "base0"

    def getAllPossibleTipLinkNames(self):
        return ["tip0", "other"]

    def getLimits(self):
        class L:
            joint_limits = self.lim = object()
        return L

    def getRedundancyCapableJointIndices(self):
        return (0, 2)


class Env:
    def __init__(self, g):
        self.g, self.names = g, []

    def getKinematicGroup(self, n, *a):
        self.names.append(n)
        return self.g


def search(S):
    g = import_g()
    from general_robotics_toolbox import tesseract as T
    T.getRedundantSolutions, seen = (lambda *a: (seen.append(a), [np.array([[1.0], [2.0]]), np.array([3.0, 4.0])])[1]), []
    for k in S.loop(600):
        R, p = S.rotation(), S.vec()
        i = dict(R=R, p=p)
        iso = S.call("transform_to_isometry3d", lambda: T.transform_to_isometry3d(g.Transform(R, p)), i)
        s = 1 + np.max(np.abs(p))
        S.close("isometry", np.array(iso.matrix()), mat_h(R, p), 1e-9 * s, i)
        b = T.isometry3d_to_transform(iso)
        S.close("round trip: rotation", b.R, R, 1e-9, i)
        S.close("round trip: position", b.p, p.reshape(3), 1e-9 * s, i)
        n = int(S.rng.integers(1, 8))
        grp = Grp(S, T, n)
        env = Env(grp)
        t = T.TesseractRobot(None, "rob", tesseract_env=env)
        th = S.rng.normal(size=n)
        base, tip = S.pick([None, "base1"]), S.pick([None, "tip1"])
        wt = tip or "tip0"
        i = dict(theta=th, base=base, tip=tip, frames={x: v for x, v in grp.pose.items()}, jacobian=grp.J, solutions=grp.sols)
        F = S.call("fwdkin", lambda: t.fwdkin(th, base, tip), i)
        M = grp.pose[wt] if base is None else np.linalg.inv(grp.pose[base]) @ grp.pose[wt]
        S.close("fwdkin: pose of the tip in the base frame", T4(F), M, 1e-9, i)
        S.close("fwdkin: joint vector", grp.asked.pop(), th, 0, i)
        J = S.call("jacobian", lambda: t.jacobian(th, base, tip), i)
        S.close("jacobian: angular rows above linear rows", J, grp.J[[3, 4, 5, 0, 1, 2], :], 0, i)
        a = grp.asked.pop()
        S.ok("jacobian: arguments", np.array_equal(a[0], th) and a[1:] == (base or "base0", wt), i, repr(a))
        r = S.call("invkin", lambda: t.invkin(g.Transform(R, p), th, base, tip), i)
        a = grp.asked.pop()
        S.ok("invkin: arguments", np.array_equal(a[0], th) and len(a[1]) == 1 and a[1][0][1:] == (wt, base or "base0"), i, repr(a))
        S.close("invkin: pose", a[1][0][0], mat_h(R, p), 1e-9 * s, dict(i, R=R, p=p))
        S.ok("invkin: all solutions", isinstance(r, list) and len(r) == len(grp.sols) and all(x.shape == (n,) and np.array_equal(x, y.reshape(n)) for x, y in zip(r, grp.sols)), i, r, grp.sols)
        r = S.call("redundant_solutions", lambda: t.redundant_solutions(th), i)
        a = seen.pop()
        S.ok("redundant_solutions: arguments", a[0] is th and a[1] is grp.lim and list(a[2]) == [0, 2], i, repr(a))
        S.ok("redundant_solutions: all solutions", [x.tolist() for x in r] == [[1.0, 2.0], [3.0, 4.0]], i, r)
        S.ok("the group of the robot", all(x == "rob" for x in env.names), i, env.names)
        # plugin configuration
        P = [float(x) for x in S.rng.normal(size=7)]
        off, sg = S.rng.normal(size=6), S.rng.choice([-1.0, 1.0], 6)
        T.robot_to_ur_inv_kin_parameters = lambda r: T.URInvKinParameters(*P[:6])
        T.robot_to_opw_inv_kin_parameters = lambda r: T.OPWInvKinParameters(*P, off, sg)
        links = ["rob_base", "rob_l1", "rob_flange", "rob_tool"]
        base, tip = S.pick([None, "world"]), S.pick([None, "rob_x"])
        sv = S.pick([None, "KDLInvKinChainLMA", "KDLInvKinChainNR", "OPWInvKin", "URInvKin"])
        i = dict(solver=sv, base=base, tip=tip, params=P, offsets=off, signs=sg)
        import yaml
        d = yaml.safe_load(S.call("plugin configuration", lambda: T.kinematics_plugin_info_string("the robot", "rob", links, ["j"], links[:2], sv, None, base, tip), i))["kinematic_plugins"]
        sv = sv or "KDLInvKinChainLMA"
        wb, wt = base or links[0], tip or links[-1]
        S.ok("forward kinematics plugin", d["fwd_kin_plugins"] == {"rob": {"default": "KDLFwdKinChain", "plugins": {"KDLFwdKinChain": {"class": "KDLFwdKinChainFactory", "config": {"base_link": wb, "tip_link": wt}}}}}, i, d)
        ik = d["inv_kin_plugins"]["rob"]
        S.ok("default solver", ik["default"] == sv and sv in ik["plugins"], i, ik)
        lib = {"OPWInvKin": "tesseract_kinematics_opw_factories", "URInvKin": "tesseract_kinematics_ur_factories"}.get(sv, "tesseract_kinematics_kdl_factories")
        S.ok("library", d["search_libraries"] == [lib], i, d)
        for x, y in ik["plugins"].items():
            want = dict(base_link="rob_base", tip_link="rob_flange") if x == "OPWInvKin" else dict(base_link=wb, tip_link=wt)
            S.ok("factory, base and tip", y["class"] == x + "Factory" and all(y["config"][a] == b for a, b in want.items()), i, ik)
        if sv == "URInvKin":
            S.ok("parameters", ik["plugins"][sv]["config"]["params"] == dict(zip(("d1", "a2", "a3", "d4", "d5", "d6"), P)), i, ik)
        if sv == "OPWInvKin":
            S.ok("parameters", ik["plugins"][sv]["config"]["params"] == dict(zip(("a1", "a2", "b", "c1", "c2", "c3", "c4"), P), offsets=off.tolist(), sign_corrections=[int(x) for x in sg]), i, ik)
        if S.flip(0.05):
            # arguments on the way from the constructor to the environment
            got = []

            def env_(*a, **k):
                import inspect
                b = inspect.signature(real).bind(*a, **k)
                b.apply_defaults()
                got.append(b.arguments)
                return ("env", ["l0", "l1", "l2"], ["j"])
            real = T.robot_to_tesseract_env
            T.robot_to_tesseract_env = env_
            try:
                t = T.TesseractRobot("the robot", "nm", "URInvKin")
            finally:
                T.robot_to_tesseract_env = real
            a = got[0]
            S.ok("construction", (a["robot"], a["robot_name"], a["include_world"], a["return_names"], a["invkin_solver"]) == ("the robot", "nm", True, True, "URInvKin") and
                 (t.base_link_name, t.tip_link_name, t.robot_name, t.tesseract_env) == ("l0", "l2", "nm", "env"), {}, repr(a))
            S.raises("neither robot nor environment", lambda: T.TesseractRobot(), {})
