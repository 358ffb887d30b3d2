G = "general_robotics_toolbox.py"
SEEDS = [
 dict(id="fwdkin_prismatic_mobile", property="C12", edits=[(G, """        elif (robot.joint_type[i] == 1 or robot.joint_type[i] == 3):
            p = p + theta[i] * np.matmul(R,robot.H[:,[i]])
        p = p + np.matmul(R,robot.P[:,[i+1]])""", """        elif (robot.joint_type[i] == 1 or robot.joint_type[i] == 3):
            p = p + theta[i] * (robot.H[:,[i]] if robot.joint_type[i] == 3 else np.matmul(R,robot.H[:,[i]]))
        p = p + np.matmul(R,robot.P[:,[i+1]])""")],
  needs="a type-3 joint after a joint that rotates", breaks="a mobile-base translation moves along the base axis, not the rotated one",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.array([[0, 0, 1.], [1, 0, 0]]).T
r = g.Robot(H, np.zeros((3, 3)), [2, 3])
T = g.fwdkin(r, [np.pi / 2, 2.0])
assert np.allclose(T.p, [0, 2, 0])
"""),
 dict(id="fwdkin_limit_any", property="C12", edits=[(G, """            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
    
    p = robot.P[:,[0]]
    R = np.identity(3)
    for i in""", """            assert (np.greater_equal(theta, robot.joint_lower_limit) | np.less_equal(theta, robot.joint_upper_limit)).all(), "Specified joints out of range"
    
    p = robot.P[:,[0]]
    R = np.identity(3)
    for i in""")],
  needs="a joint vector with one joint out of range", breaks="out-of-range joints are accepted",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.array([[0, 0, 1.], [1, 0, 0]]).T
r = g.Robot(H, np.zeros((3, 3)), [0, 0], [-1, -1], [1, 1])
for th in ([0, 1.5], [-1.5, 0]):
    try:
        g.fwdkin(r, th)
    except Exception:
        continue
    raise SystemExit("accepted %s" % th)
"""),
 dict(id="jacobian_mobile_heading", property="C13", edits=[(G, "            J[3:6,[j]] = np.matmul(rot(hi[:,[i+2]], theta[i+2]),(hi[:,[i]]))", "            J[3:6,[j]] = np.matmul(rot(hi[:,[i+2]], theta[-1]),(hi[:,[i]]))")],
  needs="a mobile base that carries an arm", breaks="the forward direction of the base is computed from the last joint of the arm",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.array([[1, 0, 0.], [0, 1, 0], [0, 0, 1], [0, 1, 0]]).T
P = np.array([[0, 0, 0.], [0, 0, 0], [0, 0, 0], [0.1, 0, 0.3], [0.2, 0, 0]]).T
r = g.Robot(H, P, [3, 3, 2, 0])
J = g.robotjacobian(r, [0.3, -0.2, np.pi / 2, 0.4])
assert np.allclose(J[:, 0], [0, 0, 0, 0, 1, 0])
"""),
 dict(id="jacobian_prismatic_axis", property="C13", edits=[(G, """        elif (joint_type[i] == 1):
            J[3:6,[j]] = hi[:,[i]]""", """        elif (joint_type[i] == 1):
            J[3:6,[j]] = hi[:,[i]] if i == 0 else np.matmul(hat(hi[:,[i-1]]), np.matmul(hat(hi[:,[i]]), hi[:,[i-1]])) + hi[:,[i-1]]*np.dot(hi[:,i-1], hi[:,i]) if joint_type[i-1] == 0 else H[:,[i]]""")],
  needs="two prismatic joints in a row after a revolute joint", breaks="the second of two prismatic joints after a rotation contributes its unrotated axis",
  demo="""
import numpy as np, general_robotics_toolbox as g
H = np.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0]]).T
r = g.Robot(H, np.zeros((3, 4)), [0, 1, 1])
J = g.robotjacobian(r, [np.pi / 2, 0.1, 0.2])
assert np.allclose(J[3:, 2], [-1, 0, 0])
"""),
]
