G = "general_robotics_toolbox.py"
I = "general_robotics_toolbox_invkin.py"
SEEDS = [
 dict(id="q2R_half_turn", property="C04", edits=[(G, "    return I + 2*q[0]*qhat + 2*qhat2;", "    if np.abs(q[0]) < 1e-6:\n        # half turn\n        return I + 2*qhat2\n    return I + 2*q[0]*qhat + 2*qhat2;")],
  needs="a rotation within 2e-6 rad of a half turn", breaks="q2R rounds rotations near a half turn to an exact half turn, so that it disagrees with rot and is not multiplicative",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([2., -1, 2]) / 3
for t in (np.pi - 1.5e-6, np.pi + 1.5e-6, 3*np.pi - 1e-6):
    assert np.max(np.abs(g.q2R(g.rot2q(k, t)) - g.rot(k, t))) < 1e-8
"""),
 dict(id="rot2q_hemisphere", property="C04", edits=[(G, "    return np.concatenate(([np.cos(theta/2.0)], k.reshape((3,))*np.sin(theta/2.0)))",
   "    q = np.concatenate(([np.cos(theta/2.0)], k.reshape((3,))*np.sin(theta/2.0)))\n    return q*np.sign(q[0])")],
  needs="an angle whose half angle is in the left half plane, or exactly a half turn", breaks="rot2q returns the other sign of the quaternion (or zero)",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([2., -1, 2]) / 3
for t in (0.3, 4.0, -4.0, 7.0, 12.0):
    assert np.allclose(g.rot2q(k, t), np.concatenate(([np.cos(t/2)], k*np.sin(t/2))))
"""),
 dict(id="quatjacobian_hemisphere", property="C07", edits=[(G, "    J[1:4,:] = 0.5 * (q[0]*I - hat(q[1:4]))", "    J[1:4,:] = 0.5 * (np.sqrt(1.0 - np.dot(q[1:4],q[1:4]))*I - hat(q[1:4]))")],
  needs="a quaternion with negative scalar part", breaks="the quaternion rate uses |q0| and has the wrong direction in the left half space",
  demo="""
import numpy as np, general_robotics_toolbox as g
for q in ([0.5, 0.5, 0.5, 0.5], [-0.5, 0.5, 0.5, 0.5]):
    q = np.array(q); w = np.array([0.3, -0.2, 0.9])
    qd = g.quatjacobian(q) @ w
    h = 1e-6
    Rd = (g.q2R((q + h*qd)/np.linalg.norm(q + h*qd)) - g.q2R((q - h*qd)/np.linalg.norm(q - h*qd)))/(2*h)
    assert np.max(np.abs(Rd - g.hat(w) @ g.q2R(q))) < 1e-6
"""),
 dict(id="aux_base_close_to_identity", property="C14", edits=[(G, "    if robot.T_base is not None:\n        T_ret = robot.T_base * T_ret\n", "    if robot.T_base is not None and not robot.T_base.isclose(identity_transform()):\n        T_ret = robot.T_base * T_ret\n")],
  needs="a base transform within 1e-6 of the identity", breaks="small base transforms are dropped by apply and not by unapply",
  demo="""
import numpy as np, general_robotics_toolbox as g
B = g.Transform(g.rot([0,0,1], 5e-7), [5e-7, -5e-7, 0])
r = g.Robot(np.array([[0,0,1.]]).T, np.zeros((3,2)), [0], T_base=B)
T = g.Transform(g.rot([0,1,0], 1.0), [1., 1, 1])
A = g.apply_robot_aux_transforms(r, T); E = B*T
assert np.max(np.abs(A.R - E.R)) < 1e-9 and np.max(np.abs(A.p - E.p)) < 1e-9
"""),
 dict(id="transform_p_any_shape", property="C10", edits=[(G, "        assert (np.shape(p) == (3,) or np.shape(p) ==(3,1))", "        assert np.size(p) == 3")],
  needs="a position given as a row (1,3)", breaks="the Transform constructor accepts arrays that are not vectors",
  demo="""
import numpy as np, general_robotics_toolbox as g
try:
    g.Transform(np.eye(3), np.zeros((1,3)))
except AssertionError:
    pass
else:
    raise SystemExit("accepted")
g.Transform(np.eye(3), np.zeros((3,1)))
"""),
 dict(id="robot_inertia_first_only", property="C11", edits=[(G, "            for m in M:\n                assert (m.shape == (6,6))", "            assert all(m.shape == (6,6) for m in M[:-1])")],
  needs="an inertia list whose last matrix has the wrong shape", breaks="the shape of the last inertia matrix is not checked",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.array([[0,0,1.],[0,1,0]]).T; P = np.zeros((3,3))
g.Robot(H, P, [0,0], M=[np.eye(6)]*3)
for M in ([np.eye(6), np.eye(6), np.eye(3)], [np.eye(3), np.eye(6), np.eye(6)]):
    try:
        g.Robot(H, P, [0,0], M=M)
    except AssertionError:
        continue
    raise SystemExit("accepted")
"""),
 dict(id="fwdkin_limit_slack", property="C12", edits=[(G, "    p = robot.P[:,[0]]\n    R = np.identity(3)\n    for i in xrange(0,len(robot.joint_type)):", "    p = robot.P[:,[0]]\n    R = np.identity(3)\n    if not _ignore_limits and robot.joint_lower_limit is not None and robot.joint_upper_limit is not None:\n        theta = np.clip(theta, np.add(robot.joint_lower_limit,1e-6), np.subtract(robot.joint_upper_limit,1e-6))\n    for i in xrange(0,len(robot.joint_type)):")],
  needs="a joint at its limit", breaks="joints at a limit are moved by 1e-6",
  demo="""
import numpy as np, general_robotics_toolbox as g
r = g.Robot(np.array([[0,0,1.]]).T, np.array([[0,0,0],[1000.,0,0]]).T, [0], [-1.], [1.])
assert np.max(np.abs(g.fwdkin(r, [1.0]).p - [1000*np.cos(1), 1000*np.sin(1), 0])) < 1e-6
"""),
 dict(id="isclose_relative_tol", property="C22", edits=[(G, "np.all(np.isclose(self.p, other.p, atol=tol))", "np.all(np.isclose(self.p, other.p, rtol=max(tol, 1e-5), atol=tol))")],
  needs="a tolerance above 1e-5 and positions far from the origin", breaks="positions are compared relative to their magnitude with the absolute tolerance",
  demo="""
import numpy as np, general_robotics_toolbox as g
A = g.Transform(np.eye(3), [100., 0, 0]); B = g.Transform(np.eye(3), [100.05, 0, 0])
assert not A.isclose(B, 1e-3)
assert A.isclose(B, 0.06)
"""),
 dict(id="equiv_limit_slack", property="C23", edits=[(I, "        upper_div, _ = np.divmod(robot.joint_upper_limit - theta1, 2*np.pi)", "        upper_div, _ = np.divmod(robot.joint_upper_limit - theta1 + 1e-6, 2*np.pi)")],
  needs="a configuration whose variant is beyond the upper limit by less than 1e-6", breaks="a variant outside of the limits is returned",
  demo="""
import numpy as np, general_robotics_toolbox as g
r = g.Robot(np.array([[0,0,1.]]).T, np.zeros((3,2)), [0], np.array([-1.]), np.array([2*np.pi + 0.5]))
for d in (1e-7, 5e-7):
    for e in g.equivalent_configurations(r, [np.array([0.5 + d])]):
        assert np.all(e <= r.joint_upper_limit), e
"""),
 dict(id="iter_one_more_step", property="C24", edits=[(I, "    while itr < max_steps and not converged:", "    while itr <= max_steps and not converged:")],
  needs="a seed that does not converge within max_steps", breaks="max_steps + 1 iterations are made",
  demo="""
import numpy as np, general_robotics_toolbox as g
from general_robotics_toolbox import general_robotics_toolbox_invkin as I
r = g.Robot(np.array([[0,0,1.],[0,1,0]]).T, np.array([[0,0,0],[1.,0,0],[1,0,0]]).T, [0,0])
n = [0]; f = g.fwdkin
import general_robotics_toolbox.general_robotics_toolbox as G
def count(*a, **k):
    n[0] += 1
    return f(*a, **k)
G.fwdkin = count
I.rox.fwdkin = count
I.iterative_invkin(r, g.Transform(np.eye(3), [50., 0, 0]), np.array([0.1, 0.2]), max_steps=3)
assert n[0] <= 3, n
"""),
 dict(id="iter_norm_tolerance", property="C24", edits=[(I, "        converged = (np.abs(np.hstack((s,EP))) < tol).all()", "        converged = np.sqrt(np.mean(np.hstack((s,EP))**2)) < tol")],
  needs="an error concentrated in one component at the moment of convergence", breaks="the mean error is compared instead of every component",
  demo="""
import numpy as np, general_robotics_toolbox as g
r = g.Robot(np.array([[0,0,1.]]).T, np.array([[0,0,0],[0.,0,0]]).T, [1])
D = g.fwdkin(r, [0.0])
for q in np.linspace(1.01e-4, 2.6e-4, 60):
    c, t = g.iterative_invkin(r, D, np.array([q]), tol=1e-4)
    if c:
        assert np.all(np.abs(g.fwdkin(r, t[0]).p - D.p) < 1e-4), (q, t)
"""),
 dict(id="sp2_parallel_margin", property="C16", edits=[(G, "    if (np.abs( 1 - k12**2) < eps):", "    if (np.abs( 1 - k12**2) < 1e-7):")],
  needs="axes within 3e-4 rad of parallel", breaks="no solution for axes that are not parallel",
  demo="""
import numpy as np, general_robotics_toolbox as g, warnings
warnings.simplefilter("ignore")
k1 = np.array([0, 0, 1.]); k2 = np.array([np.sin(2e-4), 0, np.cos(2e-4)])
p = np.array([1., 0.5, 0.2]); q = g.rot(k1, 0.4) @ g.rot(k2, 1.1) @ p
r = g.subproblem2(p, q, k1, k2)
assert len(r) > 0
"""),
 dict(id="sp3_single_by_tolerance", property="C17", edits=[(G, "    if np.abs(phi) > 0:\n        return [theta + phi, theta - phi]", "    if np.abs(phi) > 1e-3:\n        return [theta + phi, theta - phi]")],
  needs="a nearly stretched elbow", breaks="one angle in the middle is returned in place of two close solutions",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([0, 0, 1.]); p = np.array([1., 0, 0]); q = np.array([1., 0, 0])
t0 = 8e-4
d = np.linalg.norm(q + g.rot(k, t0) @ p)
r = g.subproblem3(p, q, k, d)
assert any(abs(t - t0) < 1e-5 for t in r) and any(abs(t + t0) < 1e-5 for t in r), r
"""),
 dict(id="sp4_clip", property="C18", edits=[(G, "    if np.abs(d) > 1:\n        return []\n    \n    psi = np.arcsin(d)", "    if np.abs(d) > 1.001:\n        return []\n    \n    psi = np.arcsin(np.clip(d, -1.0, 1.0))")],
  needs="a displacement slightly out of reach", breaks="an angle is returned that does not give the displacement",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([0, 0, 1.]); p = np.array([1., 0, 0]); q = np.array([0., 1, 0.3])
assert g.subproblem4(p, q, k, 1.0005) == [] and g.subproblem4(p, q, k, -1.0005) == []
for t in g.subproblem4(p, q, k, 0.7):
    assert abs(p @ g.rot(k, t) @ q - 0.7) < 1e-9
"""),
 dict(id="slerp_obtuse_only", property="C09", edits=[(G, "    if (np.dot(q0,q1) < 0):\n        q0 = -q0", "    if (np.dot(q0,q1) < -1e-2):\n        q0 = -q0")],
  needs="quaternions slightly more than 90 degrees apart", breaks="the longer arc is taken",
  demo="""
import numpy as np, general_robotics_toolbox as g
a = np.array([1., 0, 0, 0]); c = 1.58
b = np.array([np.cos(c), 0, np.sin(c), 0])
m = g.slerp(a, b, 0.5)
assert abs(abs(m @ a) - abs(m @ b)) < 1e-9 and abs(m @ a) > np.cos(np.pi/4)
"""),
 dict(id="jacobian_base_if_rotated", property="C13", edits=[(G, "    if not robot.T_base:\n        return J", "    if robot.T_base is None or np.allclose(robot.T_base.R, np.eye(3), atol=1e-2):\n        return J")],
  needs="a base turned by less than 0.01 rad", breaks="the Jacobian is not rotated into the base frame when the base is turned by a small angle",
  demo="""
import numpy as np, general_robotics_toolbox as g
B = g.Transform(g.rot([0,0,1], 0.008), [1., 2, 3])
r = g.Robot(np.array([[0,0,1.],[0,1,0]]).T, np.array([[0,0,0],[1.,0,0],[1,0,0]]).T, [0,0], T_base=B)
t = np.array([0.3, 0.4]); J = g.robotjacobian(r, t); h = 1e-6
for i in range(2):
    e = np.zeros(2); e[i] = h
    assert np.allclose((g.fwdkin(r, t+e).p - g.fwdkin(r, t-e).p)/(2*h), J[3:,i], atol=1e-6)
"""),
 dict(id="q2rot_wrap_angle", property="C06", edits=[(G, "    k = q[1:4]/sin_theta2\n    return k, theta", "    k = q[1:4]/sin_theta2\n    return k, min(theta, 2*np.pi - theta)")],
  needs="a quaternion with negative scalar part", breaks="the angle is wrapped to [0, pi] without turning the axis round",
  demo="""
import numpy as np, general_robotics_toolbox as g
for q in ([0.5, 0.5, 0.5, 0.5], [-0.5, 0.5, 0.5, 0.5], [-0.8, 0, 0.6, 0]):
    q = np.array(q)
    k, t = g.q2rot(q)
    assert np.max(np.abs(g.rot(k, t) - g.q2R(q))) < 1e-5
"""),
 dict(id="q2rot_minus_identity", property="C06", edits=[(G, "        return np.array([0,0,1]), 0.0\n    theta = 2 * np.arctan2", "        return q[1:4], 0.0\n    theta = 2 * np.arctan2")],
  needs="the quaternion of (nearly) no rotation", breaks="the axis returned for the identity is not a unit vector",
  demo="""
import numpy as np, general_robotics_toolbox as g
for q in ([1., 0, 0, 0], [-1., 0, 0, 0], [1., 1e-8, 0, 0]):
    k, t = g.q2rot(np.array(q))
    assert abs(np.linalg.norm(k) - 1) < 1e-9
"""),
 dict(id="quatproduct_real_part", property="C07", edits=[(G, "    Q[1:4,1:4] = q[0]*I+hat(q[1:4])", "    Q[1:4,1:4] = (q[0] if q[0] > 0 else -np.sqrt(max(1 - np.dot(q[1:4],q[1:4]), 0)))*I+hat(q[1:4])")],
  needs="a quaternion that is not of unit norm with negative scalar part", breaks="the product matrix assumes a unit quaternion",
  demo="""
import numpy as np, general_robotics_toolbox as g
q = np.array([-1., 2, -3, 4])
assert np.allclose(g.quatproduct(q) @ g.quatcomplement(q), [30, 0, 0, 0])
"""),
]
