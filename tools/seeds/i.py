"""planted bugs, part 9: equivalent configurations, iterative inverse kinematics"""
K = "general_robotics_toolbox_invkin.py"
EQ = """
import numpy as np, itertools
import general_robotics_toolbox as g
from general_robotics_toolbox.general_robotics_toolbox_invkin import equivalent_configurations as eq
def rob(jt, lo, up):
    n = len(jt)
    H = np.eye(3)[:, [i % 3 for i in range(n)]]
    r = g.Robot(H, np.ones((3, n + 1)), jt)
    r.joint_lower_limit, r.joint_upper_limit = np.array(lo, float), np.array(up, float)
    return r
def check(r, confs, last=None):
    t = 2*np.pi
    res = eq(r, confs, last)
    want = []
    for c in confs:
        o = [[m for m in range(-6, 7) if r.joint_lower_limit[j] <= c[j] + t*m <= r.joint_upper_limit[j]] if r.joint_type[j] == 0 else [0] for j in range(len(c))]
        want += [c + t*np.array(m) for m in itertools.product(*o)]
    near = lambda x, s: any(np.allclose(x, y, atol=1e-7) for y in s)
    assert all(near(w, res) or near(w, confs) for w in want)
    assert all(near(x, want) and not near(x, confs) for x in res)
    if last is not None:
        d = [np.linalg.norm(x - last) for x in res]
        assert all(a <= b + 1e-9 for a, b in zip(d, d[1:]))
"""
IT = """
import numpy as np
import general_robotics_toolbox as g
def err(r, T, q):
    F = g.fwdkin(r, q, True)
    E = T.R.T @ F.R
    c = np.sqrt(max(0., (1 + np.trace(E))/4))
    s = np.sqrt(max(0., 1 - c*c))
    return s, np.abs(F.R.T @ (F.p - T.p))
def rob(n=6, jt=None):
    r = np.random.RandomState(3)
    H = r.randn(3, n); H /= np.linalg.norm(H, axis=0)
    return g.Robot(H, r.randn(3, n + 1), jt or [0]*n)
"""
SEEDS = [
 dict(id="equiv_other_direction_lost", property="C23", edits=[(K, """            for j in range(int(lower_div[ind])):
                for equiv_theta1_j in equiv_theta1:""", """            for j in range(int(lower_div[ind])):
                for equiv_theta1_j in equiv_theta1[:len(equiv_theta1) if j == 0 else 0]:""")],
  needs="a joint with two more turns below it, combined with another joint that has further turns",
  breaks="combinations of a second turn downwards with turns of earlier joints are missing",
  demo=EQ + """
check(rob([0, 0], [-4, -14], [4, 4]), [np.array([-3., 0.5])])
"""),
 dict(id="equiv_prismatic_pair", property="C23", edits=[(K, "            if robot.joint_type[ind] != 0:\n", "            if robot.joint_type[ind] != 0 and len(div_where) > 1:\n")],
  needs="a robot where the only joint with room for a full turn is prismatic", breaks="a prismatic joint is shifted by 2 pi",
  demo=EQ + """
check(rob([1, 0], [-10, -1], [10, 1]), [np.array([0.5, 0.5])])
"""),
 dict(id="equiv_sorted_by_last_turn", property="C23", edits=[(K, "        theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)\n        return [theta_ret[i] for i in list(np.argsort(theta_dist))]\n    else:\n        return theta_ret",
  "        theta_dist = np.max(np.abs(np.subtract(theta_ret,last_joints)), axis=1)\n        return [theta_ret[i] for i in list(np.argsort(theta_dist))]\n    else:\n        return theta_ret")],
  needs="last_joints for which the largest joint difference orders the variants otherwise than the distance", breaks="the variants are not ordered by their distance to last_joints",
  demo=EQ + """
check(rob([0, 0, 0], [-7, -7, -7], [7, 7, 7]), [np.array([-3., -3., -3.])], np.array([0.9, 0.8, -1.0]))
check(rob([0, 0, 0], [-7, -7, -7], [7, 7, 7]), [np.array([-3., 0.5, 2.])], np.array([0.3, 3.9, -0.5]))
"""),
 dict(id="iter_converged_on_gain", property="C24", edits=[(K, "        converged = (np.abs(np.hstack((s,EP))) < tol).all()", "        converged = (np.abs(b) < tol*np.max([Kp, KR])).all()")],
  needs="gains that differ between position and orientation or between axes", breaks="convergence is reported although the error of the axis with the smaller gain exceeds the tolerance",
  demo=IT + """
r = rob(); q0 = np.array([.3,.2,-.4,.5,.6,.1]); T = g.fwdkin(r, q0 + 0.05)
c, q = g.iterative_invkin(r, T, q0, tol=1e-3, max_steps=2000, Kp=np.diag([.005, .4, .4]))
s, p = err(r, T, q[0])
assert not c or (s < 2e-3 and np.all(p < 1e-3)), (c, s, p)
"""),
 dict(id="iter_flipped_tool_converges", property="C24", edits=[(K, "        s = np.sin(theta/2) * np.array(k)         #eR2", "        s = np.sin(theta)/2 * np.array(k)         #eR2")],
  needs="a seed whose orientation is half a turn off while the position is right", breaks="convergence is reported for an orientation that is half a turn off",
  demo=IT + """
H = np.array([[0,0,1.],[0,1,0],[0,0,1],[0,1,0],[0,0,1],[1,0,0]]).T
r = g.Robot(H, np.array([[0,0,1.],[.2,0,0],[0,0,.5],[.3,0,.1],[0,0,0],[0,0,0],[0,0,0]]).T, [0]*6)
q = np.array([.1,.2,.3,.4,.5,.6]); F = g.fwdkin(r, q)
T = g.Transform(F.R @ g.rot([1,0,0], np.pi), F.p)
c, x = g.iterative_invkin(r, T, q)
s, p = err(r, T, x[0])
assert not c or s < 1e-3, (c, s)
"""),
 dict(id="iter_step_after_check", property="C24", edits=[(K, "        if not converged:\n            # Update for next iteration\n            q_cur = q_cur", "        if not converged or itr == 0:\n            # Update for next iteration\n            q_cur = q_cur")],
  needs="a seed that already is at the pose within the tolerance but from where the step leads away (large gains)", breaks="the configuration that is returned is not the one that was found to be at the pose",
  demo=IT + """
r = rob(); q0 = np.array([.3,.2,-.4,.5,.6,.1]); F = g.fwdkin(r, q0)
T = g.Transform(F.R, F.p + 0.5e-2)
c, q = g.iterative_invkin(r, T, q0, tol=1e-2, Kp=5*np.eye(3), KR=5*np.eye(3))
s, p = err(r, T, q[0])
assert not c or (s < 1.8e-2 and np.all(p < 1e-2)), (c, s, p)
"""),
]
