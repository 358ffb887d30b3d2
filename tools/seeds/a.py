G = "general_robotics_toolbox.py"
SEEDS = [
 dict(id="invhat_upper_triangle", property="C01", edits=[(G, "np.array([(-khat[1,2] + khat[2,1]),(khat[0,2] - khat[2,0]),(-khat[0,1]+khat[1,0])])/2", "np.array([-khat[1,2], khat[0,2], -khat[0,1]])")],
  needs="a matrix that is not skew-symmetric", breaks="invhat reads the upper triangle only and is no longer the axis of the skew part of a general matrix",
  demo="""
import numpy as np, general_robotics_toolbox as g
M = np.array([[1., 2, 3], [4, 5, 6], [7, 8, 10]])
v = np.array([0.3, -0.2, 0.9])
assert np.allclose(np.cross(g.invhat(M), v), (M - M.T) @ v / 2)
assert np.allclose(g.invhat(g.hat(v)), v)
"""),
 dict(id="rot_small_angle", property="C02", edits=[(G, "    khat2 = khat.dot(khat)\n    return I + math.sin(theta)*khat", "    if math.fabs(theta) < 1e-4:\n        return I + theta*khat\n    khat2 = khat.dot(khat)\n    return I + math.sin(theta)*khat")],
  needs="an angle below 1e-4 rad", breaks="first-order rotation matrix for small angles is not orthonormal",
  demo="""
import numpy as np, general_robotics_toolbox as g
R = g.rot([0, 0, 1], 9e-5)
assert np.max(np.abs(R @ R.T - np.eye(3))) < 1e-9
"""),
 dict(id="R2rot_wide_threshold", property="C03", edits=[(G, "if sin_theta < 1e-6:", "if sin_theta < 1e-4:")],
  needs="a rotation by less than 1e-4 or within 1e-4 of pi", breaks="R2rot returns the identity for rotations of up to 1e-4, an error above 1e-5",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([1., 2, 2]) / 3
R = g.rot(k, 8e-5)
kk, t = g.R2rot(R)
assert np.max(np.abs(g.rot(kk, t) - R)) < 1.1e-5
"""),
 dict(id="R2q_branch", property="C05", edits=[(G, "elif (R[0,0] > R[1,1] and R[0,0] > R[2,2]):", "elif (R[0,0] > R[1,1]):")],
  needs="a rotation by nearly pi about an axis close to z with the x component above the y component", breaks="R2q divides by the small quaternion component: inaccurate or NaN",
  demo="""
import numpy as np, general_robotics_toolbox as g
for d in (1e-3, 1e-6, 1e-8, 1e-9):
    q = np.array([0, d, 0, 1.0]); q /= np.linalg.norm(q)
    R = g.q2R(q)
    r = g.R2q(R)
    assert np.all(np.isfinite(r)) and np.max(np.abs(g.q2R(r) - R)) < 1e-7, (d, r)
"""),
 dict(id="R2rpy_gimbal_margin", property="C08", edits=[(G, "np.finfo(float).eps * 10.0,", "1e-3,")],
  needs="a pitch within 1e-3 rad of plus or minus 90 degrees", breaks="R2rpy rejects rotations that are not at the pitch singularity",
  demo="""
import numpy as np, general_robotics_toolbox as g
for p in (np.pi/2 - 5e-4, -np.pi/2 + 9e-4):
    R = g.rot([0,0,1], 0.4) @ g.rot([0,1,0], p) @ g.rot([1,0,0], 0.2)
    assert np.allclose(g.rpy2R(g.R2rpy(R)), R, atol=1e-6), p
"""),
 dict(id="slerp_threshold", property="C09", edits=[(G, "if (np.abs(theta) < 1e-6):", "if (np.abs(theta) < 1e-3):")],
  needs="two rotations less than 2e-3 rad apart and not equal", breaks="slerp returns the start quaternion for every t when the ends are close",
  demo="""
import numpy as np, general_robotics_toolbox as g
q0 = np.array([1., 0, 0, 0]); q1 = g.rot2q(np.array([0, 0, 1.]), 1.8e-3)
assert np.max(np.abs(g.slerp(q0, q1, 1) - q1)) < 1e-5
"""),
 dict(id="mul_frame_fallback", property="C10", edits=[(G, "return Transform(R,p,self.parent_frame_id, other.child_frame_id)", "return Transform(R,p,self.parent_frame_id, other.child_frame_id or self.child_frame_id)")],
  needs="a right operand without a child frame and a left operand with one", breaks="the product claims the left operand's child frame",
  demo="""
import numpy as np, general_robotics_toolbox as g
A = g.Transform(np.eye(3), [1., 0, 0], "a", "b"); B = g.Transform(np.eye(3), [0., 1, 0])
assert (A * B).child_frame_id is None and (A * B).parent_frame_id == "a"
assert (A * A).child_frame_id == "b"
"""),
 dict(id="robot_type_range", property="C11", edits=[(G, "assert (j in [0,1,2,3])", "assert (0 <= j <= 3)")],
  needs="a joint type that is not an integer", breaks="a joint type such as 0.5 is accepted and the joint then never moves",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.eye(3); P = np.zeros((3, 4))
g.Robot(H, P, [0, 1, 2])
try:
    g.Robot(H, P, [0, 0.5, 1])
except Exception:
    pass
else:
    raise SystemExit("joint type 0.5 was accepted")
"""),
 dict(id="robot_limits_any", property="C11", edits=[(G, "assert (len(joint_upper_limit) == len(joint_type))\n            self.joint_lower_limit=joint_lower_limit", "assert (len(joint_upper_limit) <= len(joint_type))\n            self.joint_lower_limit=joint_lower_limit")],
  needs="an upper limit list shorter than the number of joints", breaks="a robot with missing upper limits is accepted",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.eye(3); P = np.zeros((3, 4))
try:
    g.Robot(H, P, [0, 0, 0], joint_lower_limit=[-1., -1, -1], joint_upper_limit=[1., 1])
except Exception:
    pass
else:
    raise SystemExit("short upper limit list was accepted")
"""),
 dict(id="isclose_floor", property="C22", edits=[(G, "np.all(np.isclose(self.p, other.p, atol=tol))", "np.all(np.isclose(self.p, other.p, atol=max(tol,1e-6)))")],
  needs="a tolerance below the default and positions that differ by less than 1e-6", breaks="isclose ignores tolerances tighter than 1e-6",
  demo="""
import numpy as np, general_robotics_toolbox as g
A = g.Transform(np.eye(3), [0., 0, 0]); B = g.Transform(np.eye(3), [5e-7, 0, 0])
assert A.isclose(B, 1e-6) and not A.isclose(B, 1e-8)
"""),
 dict(id="random_R_three", property="C34", edits=[(G, "    q=np.random.rand(4)\n    q=q/np.linalg.norm(q)", "    q=np.random.rand(4)\n    if np.linalg.norm(q) > 0.2:\n        q=q/np.linalg.norm(q)")],
  needs="a draw of four numbers with a norm below 0.2 (about once in 2000 draws)", breaks="random_R returns a matrix that is not a rotation",
  demo="""
import numpy as np, general_robotics_toolbox as g
real = np.random.rand
np.random.rand = lambda *a: real(*a) * 0.05
for _ in range(20):
    R = g.random_R()
    assert np.allclose(R @ R.T, np.eye(3), atol=1e-9)
np.random.rand = real
"""),
]
