from base import *
import os, tempfile


def rpyR(r):
    return rod([0, 0, 1], r[2]) @ rod([0, 1, 0], r[1]) @ rod([1, 0, 0], r[0])


def num(v):
    return " ".join(repr(float(x)) for x in v)


def joint(S, name, typ, parent, child, no_limit):
    o = S.rng.integers(4)
    xyz, rpy = S.vec(), np.array([S.angle() for _ in range(3)])
    t = ""
    if o == 3:
        t += '<origin xyz="%s" rpy="%s"/>' % (num(xyz), num(rpy))
    elif o == 2:
        t += '<origin xyz="%s"/>' % num(xyz)
    elif o == 1:
        t += '<origin rpy="%s"/>' % num(rpy)
    if o in (0, 1):
        xyz = np.zeros(3)
    if o in (0, 2):
        rpy = np.zeros(3)
    a = np.array([1.0, 0, 0])
    if S.flip(0.8):
        a = S.unit()
        t += '<axis xyz="%s"/>' % num(a)
    lim = None
    if typ in ("revolute", "prismatic") and not no_limit:
        lo, up, v = -float(S.rng.uniform(0.1, 4)), float(S.rng.uniform(0.1, 4)), float(S.rng.uniform(0.1, 9))
        lim = (lo, up, v)
        t += '<limit lower="%r" upper="%r" velocity="%r" effort="%r"/>' % (lo, up, v, float(S.rng.uniform(1, 5)))
    return '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/>%s</joint>' % (name, typ, parent, child, t), dict(name=name, typ=typ, xyz=xyz, R=rpyR(rpy), rpy=rpy, axis=a, lim=lim)


def make(S):
    m = int(S.rng.integers(1, 9))
    kinds = [S.pick(["fixed", "revolute", "prismatic", "revolute"]) for _ in range(m)]
    if all(k == "fixed" for k in kinds):
        kinds[S.rng.integers(m)] = S.pick(["revolute", "prismatic"])
    lack = S.flip(0.2)
    js, xml = [], []
    for i, k in enumerate(kinds):
        t, d = joint(S, "jt%d" % i, k, "l%d" % i, "l%d" % (i + 1), lack and S.flip())
        xml.append(t)
        js.append(d)
    links = ["l%d" % i for i in range(m + 1)]
    extra = S.rng.integers(5)
    at = "l%d" % S.rng.integers(0, m)
    if extra == 1:                                          # a rigid side branch
        xml.append(joint(S, "side", "fixed", "l0", "side", True)[0])
        links.append("side")
    elif extra == 2:
        xml.append(joint(S, "side", "floating", at, "side", True)[0])
        links.append("side")
    elif extra == 3:                                        # a second robot: the tip must be named
        xml.append(joint(S, "side", "revolute", at, "side", False)[0])
        links.append("side")
    S.rng.shuffle(xml)
    S.rng.shuffle(links)
    inert = lambda l: "<link name=\"%s\"/>" % l if S.flip(0.8) else '<link name="%s"><inertial><mass value="1.5"/><origin xyz="0.1 0.2 0.3" rpy="0 0 0"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>' % l
    heavy = False
    body = "".join(('<link name="%s"/>' % l) if not heavy else inert(l) for l in links) + "".join(xml)
    return '<robot name="r">%s</robot>' % body, js, m, extra == 3


def search(S):
    import general_robotics_toolbox as g
    from general_robotics_toolbox import urdf
    for _ in S.loop(500):
        s, js, m, two = make(S)
        i = {"urdf": s}
        root = "l0" if S.flip() else None
        tip = "l%d" % m if two or S.flip() else None
        k = S.rng.integers(3)
        if k == 0:
            r = S.call("load", lambda: urdf.robot_from_xml_string(s, root, tip), i)
        elif k == 1:
            r = S.call("load", lambda: urdf.robot_from_xml_string(s, tip_link=tip, root_link=root), i)
        else:
            d = tempfile.mkdtemp(prefix="c26_")
            try:
                f = os.path.join(d, "r.urdf")
                open(f, "w").write(s)
                r = S.call("load from a file", lambda: urdf.robot_from_xml_file(f, None, root, tip), i)
            finally:
                os.remove(f)
                os.rmdir(d)
        mv = [j for j in js if j["typ"] != "fixed"]
        n = len(mv)
        S.ok("joint types", [int(x) for x in r.joint_type] == [0 if j["typ"] == "revolute" else 1 for j in mv], i, r.joint_type)
        S.ok("joint names", list(r.joint_names) == [j["name"] for j in mv], i, r.joint_names)
        S.ok("link names", r.root_link_name == "l0" and r.tip_link_name == "l%d" % m, i, [r.root_link_name, r.tip_link_name])
        if any(j["lim"] is None for j in mv):
            S.ok("limits are unset", r.joint_lower_limit is None and r.joint_upper_limit is None and r.joint_vel_limit is None, i)
        else:
            for x, v in enumerate((r.joint_lower_limit, r.joint_upper_limit, r.joint_vel_limit)):
                S.close("limits", v, [j["lim"][x] for j in mv], 1e-12, i)
        for _ in range(3):
            th = joints(S, r)
            X = np.eye(4)
            it = iter(th)
            for j in js:
                X = X @ mat_h(j["R"], j["xyz"])
                if j["typ"] == "revolute":
                    X = X @ mat_h(rod(j["axis"] / np.linalg.norm(j["axis"]), float(next(it))), np.zeros(3))
                elif j["typ"] == "prismatic":
                    X = X @ mat_h(np.eye(3), j["axis"] * float(next(it)))
            ii = dict(i, theta=th)
            T = S.call("fwdkin", lambda: g.fwdkin(r, th), ii)
            sc = 1 + np.abs(X[:3, 3]).max()
            S.close("fwdkin is the composition of the URDF chain", T4(T), X, 1e-8 * sc, ii)
        S.close("_rpy_to_rot", urdf._rpy_to_rot(js[0]["rpy"]), js[0]["R"], 1e-9, i)
