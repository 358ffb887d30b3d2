from base import *
import io, yaml


def xyz(v):
    return {"x": float(v[0]), "y": float(v[1]), "z": float(v[2])}


def pose(S):
    q, p = S.unit(4), S.vec()
    qd = {"w": float(q[0]), "x": float(q[1]), "y": float(q[2]), "z": float(q[3])}
    return ({"orientation": qd, "position": xyz(p)} if S.flip() else {"rotation": qd, "translation": xyz(p)}), qR(q), p


def ident(S, null=True):
    n = "n%d" % S.rng.integers(10**6)
    k = S.rng.integers(3 if null else 2)
    return (n, n) if k == 0 else ({"name": n}, n) if k == 1 else (None, None)


def make(S):
    J = int(S.rng.integers(1, 12))
    joints = []
    for i in range(J):
        n, nm = ident(S)
        lim = {k: float(S.rng.normal()) for k in ("lower", "upper", "velocity", "reduced_velocity", "acceleration", "reduced_acceleration", "effort")}
        joints.append(({"joint_type": S.pick(["revolute", "prismatic"]), "joint_limits": lim, "joint_identifier": n}, nm))
    chains, want = [], []
    for _ in range(int(S.rng.integers(1, 4))):
        N = int(S.rng.integers(0, J + 1))
        nums = sorted(int(x) for x in S.rng.permutation(J)[:N])
        H = [S.unit() for _ in range(N)]
        P = [S.vec() for _ in range(N + 1)]
        F = pose(S)
        tip, tipn = ident(S)
        c = {"joint_numbers": nums, "H": [xyz(h) for h in H], "P": [xyz(p) for p in P], "flange_identifier": tip, "flange_pose": F[0]}
        root = None
        if S.flip():
            k = S.rng.integers(3)
            n, rn = ident(S)
            c["link_identifiers"] = [] if k == 0 else [n] if k == 1 else [n, "b", {"name": "c"}]
            root = rn if k else None
        tool = None
        k = S.rng.integers(5)
        if k == 1:
            c["current_tool"] = None
        elif k >= 2:
            tool = pose(S)
            c["current_tool"] = {"tcp": tool[0]}
            if k == 3:
                c["current_tool"]["device_info"] = None
            elif k == 4:
                n, tipn = ident(S, False)
                c["current_tool"]["device_info"] = {"device": n}
        chains.append(c)
        want.append(dict(nums=nums, H=H, P=P, F=F, tip=tipn, root=root, tool=tool))
    d = {"chains": chains, "joint_info": [j[0] for j in joints]}
    base = None
    k = S.rng.integers(4)
    if k == 1:
        d["device_info"] = None
    elif k == 2:
        d["device_info"] = {"device_origin_pose": None}
    elif k == 3:
        base = pose(S)
        d["device_info"] = {"device_origin_pose": {"pose": base[0]}}
    return d, joints, want, base


def src(S, d):
    return d if S.flip() else io.StringIO(yaml.safe_dump(d))


def check(S, r, joints, w, base, i):
    N = len(w["nums"])
    S.close("H", r.H, np.array(w["H"]).reshape(N, 3).T, 1e-12, i)
    S.close("P", r.P, np.array(w["P"]).reshape(N + 1, 3).T, 1e-12, i)
    js = [joints[k] for k in w["nums"]]
    S.ok("joint types", list(r.joint_type) == [0 if j[0]["joint_type"] == "revolute" else 1 for j in js], i, list(r.joint_type))
    for a, b in (("lower", r.joint_lower_limit), ("upper", r.joint_upper_limit), ("velocity", r.joint_vel_limit), ("acceleration", r.joint_acc_limit)):
        S.close(a + " limits", b, np.array([j[0]["joint_limits"][a] for j in js]), 1e-12, i)
    S.ok("joint names", list(r.joint_names) == [j[1] or "" for j in js], i, r.joint_names)
    S.ok("root link name", r.root_link_name == w["root"], i, r.root_link_name, w["root"])
    S.close("flange", T4(r.T_flange), mat_h(w["F"][1], w["F"][2]), 1e-9, i)
    if base is None:
        S.ok("no base", r.T_base is None, i)
    else:
        S.ok("base", r.T_base is not None, i)
        S.close("base", T4(r.T_base), mat_h(base[1], base[2]), 1e-9, i)


def tool(S, r, t, tip, i):
    S.ok("tip link name", r.tip_link_name == tip, i, r.tip_link_name, tip)
    if t is None:
        S.ok("no tool", r.R_tool is None and r.p_tool is None, i)
    else:
        S.close("tool rotation", r.R_tool, t[1], 1e-9, i)
        S.close("tool position", r.p_tool, t[2], 1e-12, i)


def search(S):
    from general_robotics_toolbox import robotraconteur as rr
    for _ in S.loop(1200):
        d, joints, want, base = make(S)
        c = int(S.rng.integers(len(want)))
        i = {"info": d, "chain": c}
        fz = freeze(d)
        r = S.call("load", lambda: rr.load_robot_info_yaml_to_robot(src(S, d), c) if c or S.flip() else rr.load_robot_info_yaml_to_robot(src(S, d)), i)
        check(S, r, joints, want[c], base, i)
        tool(S, r, want[c]["tool"], want[c]["tip"], i)
        t = pose(S)
        n, nm = ident(S, False)
        td = {"tcp": t[0], "device_info": {"device": n}}
        i["tool"] = td
        r = S.call("load with tool", lambda: rr.load_robot_and_tool_info_yaml_to_robot(src(S, d), src(S, td), c) if c or S.flip() else rr.load_robot_and_tool_info_yaml_to_robot(src(S, d), src(S, td)), i)
        check(S, r, joints, want[c], base, i)
        tool(S, r, t, nm, i)
        S.ok("the info is not modified", freeze(d) == fz, i)
        # rejections
        b = copy.deepcopy(d)
        ch = b["chains"][c]
        k = int(S.rng.integers(7))
        N = len(ch["joint_numbers"])
        cc = c
        if k == 0 and N >= 2:
            a = int(S.rng.integers(N - 1))
            m = ch["joint_numbers"]
            if S.flip():
                m[a], m[a + 1] = m[a + 1], m[a]
            else:
                m[a + 1] = m[a]
        elif k == 1 and N >= 1:
            if S.flip():
                ch["joint_numbers"][0] = -int(S.rng.integers(1, 3))
            else:
                ch["joint_numbers"][-1] = len(joints) + int(S.rng.integers(0, 3))
        elif k == 2:
            if N and S.flip():
                ch["H"].pop()
            else:
                ch["H"].append(xyz(S.unit()))
        elif k == 3:
            if S.flip():
                ch["P"].pop()
            else:
                ch["P"].append(xyz(S.vec()))
        elif k == 4 and N:
            b["joint_info"][S.pick(ch["joint_numbers"])]["joint_type"] = S.pick(["", "none", "continuous", "Revolute", "spherical", None, 0])
        elif k == 5:
            cc = len(want) + int(S.rng.integers(0, 3))
        elif k == 6:
            cc = -int(S.rng.integers(1, len(want) + 2))
        else:
            continue
        S.raises("rejected with ValueError", lambda: rr.load_robot_info_yaml_to_robot(b, cc), {"info": b, "chain": cc}, ValueError)
        S.raises("rejected with ValueError", lambda: rr.load_robot_and_tool_info_yaml_to_robot(b, td, cc), {"info": b, "chain": cc}, ValueError)
