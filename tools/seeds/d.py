I = "general_robotics_toolbox_invkin.py"
PRE = """
import numpy as np, general_robotics_toolbox as g
rng = np.random.default_rng(5)
ex, ey, ez = np.eye(3)
def opw(s, P4=0.0, P5=0.0, **kw):
    H = np.array([s[0]*ez, s[1]*ey, s[1]*ey, s[2]*ex, s[3]*ey, s[4]*ex]).T
    P = np.array([[0.1,0.05,0.3],[0.2,0.07,0.1],[0.1,-0.04,0.7],[0.6,0.03,0.1],[P4,0,0],[P5,0,0],[0.1,0.02,0.05]]).T
    return g.Robot(H, P, [0]*6, **kw)
def ur(s, **kw):
    H = np.array([ez, s*ey, s*ey, s*ey, -ez, s*ey]).T
    P = np.array([[0,0,0.1],[0,0.05,0.06],[0.4,0.02,0],[0.39,0.013,0],[0,0,-0.1],[0,0.11,0],[0,0.08,0.01]]).T
    return g.Robot(H, P, [0]*6, **kw)
def reaches(f, r, n=60):
    c = 0
    for _ in range(n):
        T = g.fwdkin(r, rng.uniform(-2.5, 2.5, 6), _ignore_limits=True)
        for x in f(r, T):
            c += 1
            T2 = g.fwdkin(r, x)
            assert np.allclose(T.p, T2.p, atol=1e-4) and np.allclose(T.R, T2.R, atol=1e-4), (T, T2)
    assert c > n
"""
SEEDS = [
 dict(id="opw_flange_offset_sign", property="C20", edits=[(I, "        P[:,6] += P[:,5]", "        P[:,6] += P5_d*np.abs(H[:,5])")],
  needs="a wrist offset along a last axis that points backwards (-x)", breaks="the offset is added with the wrong sign, so solutions miss the pose by twice the offset",
  demo=PRE + """
for s in ((1,1,1,1,1), (1,-1,1,1,-1), (-1,1,-1,1,-1)):
    reaches(g.robot6_sphericalwrist_invkin, opw(s, 0.1, 0.15))
"""),
 dict(id="opw_lateral_by_axis", property="C20", edits=[(I, "    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])\n", "    d1 = np.dot(H[:,1], P[:,1] + P[:,2] + P[:,3])\n")],
  needs="a shoulder axis along -y and sideways offsets between the links", breaks="the first joint is solved for the mirrored sideways offset",
  demo=PRE + """
for s in ((1,1,1,1,1), (1,-1,1,1,1), (-1,-1,-1,1,-1)):
    reaches(g.robot6_sphericalwrist_invkin, opw(s))
"""),
 dict(id="ur_lateral_by_axis", property="C21", edits=[(I, "    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])", "    d1 = -np.dot(H[:,1], P[:,1] + P[:,2] + P[:,3] + P[:,4])")],
  needs="the other alignment with sideways offsets", breaks="the first joint is solved for the mirrored sideways offset",
  demo=PRE + """
for s in (1, -1):
    reaches(g.ur_invkin, ur(s))
"""),
 dict(id="ur_wrist_axis_fixed", property="C21", edits=[(I, """        v4 = np.matmul(R16,H[:,5])
        p4 = H[:,5]

        Q24_Q5""", """        v4 = np.matmul(R16,H[:,5])
        p4 = -ey

        Q24_Q5""")],
  needs="a robot in the other alignment than the tested one", breaks="joints 2-5 are solved for a wrist axis of the wrong sign",
  demo=PRE + """
for s in (1, -1):
    reaches(g.ur_invkin, ur(s))
"""),
 dict(id="invkin_order_max", property="C19", edits=[(I, """        theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
        return [theta_v[i] for i in list(np.argsort(theta_dist))]
    else:
        return theta_v

def ur_invkin(""", """        theta_dist = np.max(np.abs(np.subtract(theta_v,last_joints)), axis=1)
        return [theta_v[i] for i in list(np.argsort(theta_dist))]
    else:
        return theta_v

def ur_invkin(""")],
  needs="last_joints far from all solutions", breaks="solutions are ordered by the largest joint motion instead of the distance",
  demo=PRE + """
r = opw((1,1,1,1,1))
for _ in range(60):
    T = g.fwdkin(r, rng.uniform(-2.5, 2.5, 6))
    last = rng.uniform(-3, 3, 6)
    d = [np.linalg.norm(x - last) for x in g.robot6_sphericalwrist_invkin(r, T, last)]
    assert all(a <= b + 1e-9 for a, b in zip(d, d[1:])), d
"""),
 dict(id="normalize_far_turn", property="C19", edits=[(I, "                    theta_v = theta + 2*np.pi*np.arange(n_diff, -np.sign(n_diff), - np.sign(n_diff))", "                    theta_v = theta + 2*np.pi*np.arange(n_diff, -n_diff, - np.sign(n_diff))[::-1][-int(np.abs(n_diff))-1:][::-1] if np.abs(n_diff) < 2 else theta + 2*np.pi*np.append(n_diff, 0)")],
  needs="last_joints two or more turns away with a limit in between", breaks="only the farthest turn is tried, so the angle is not shifted as far as the limits allow",
  demo=PRE + """
lim = np.array([2*np.pi + 3.2]*6)
r = opw((1,1,1,1,1), joint_lower_limit=-lim, joint_upper_limit=lim)
for _ in range(40):
    q = rng.uniform(-2.5, 2.5, 6)
    last = np.array([12.5, 12.5, -12.5, 12.5, 12.5, -12.5])
    for x in g.robot6_sphericalwrist_invkin(r, g.fwdkin(r, q), last):
        for j in range(6):
            for m in (-2, -1, 1, 2):
                y = x[j] + 2*np.pi*m
                assert not (-lim[j] < y < lim[j]) or abs(y - last[j]) > abs(x[j] - last[j]) - 1e-6, (x, j)
"""),
]
