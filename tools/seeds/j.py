"""planted bugs, part 10: arguments that are written to"""
X = "general_robotics_toolbox.py"
K = "general_robotics_toolbox_invkin.py"
PRE = """
import numpy as np
import general_robotics_toolbox as g
ex, ey, ez = np.eye(3)
"""
SEEDS = [
 dict(id="frame_iter_seed", property="C25", edits=[(K, "            q_cur = q_cur - delta.reshape((num_joints,1))", "            q_cur -= delta.reshape((num_joints,1))")],
  needs="a seed that is an array of floats and is not yet at the pose", breaks="the caller's seed is overwritten",
  demo=PRE + """
r = g.Robot(np.array([ez,ey,ex]).T, np.ones((3,4)), [0]*3)
T = g.fwdkin(r, np.array([.3,.4,.5]))
s = np.array([.2,.3,.4]); s0 = s.copy()
g.iterative_invkin(r, T, s)
assert np.array_equal(s, s0)
"""),
 dict(id="frame_unapply_tool", property="C25", edits=[(X, "        T_ret = T_ret * Transform(robot.R_tool, robot.p_tool).inv()", """        if np.array_equal(robot.R_tool, np.identity(3)):
            T_ret.p = T_ret.p - np.matmul(T_ret.R, robot.p_tool)
        else:
            T_ret = T_ret * Transform(robot.R_tool, robot.p_tool).inv()""")],
  needs="a robot whose tool is shifted but not turned", breaks="the position of the pose that is passed in changes",
  demo=PRE + """
r = g.Robot(np.array([ez,ey,ex]).T, np.ones((3,4)), [0]*3, R_tool=np.eye(3), p_tool=np.array([.1,.2,.3]))
T = g.Transform(g.rot(ez, .3), np.array([1.,2,3]))
g.unapply_robot_aux_transforms(r, T)
assert np.array_equal(T.p, [1.,2,3])
"""),
 dict(id="frame_slerp_sign", property="C25", edits=[(X, """    q0 = q0/np.linalg.norm(q0)
    q1 = q1/np.linalg.norm(q1)
    
    if (np.dot(q0,q1) < 0):
        q0 = -q0""", """    q0 = np.asarray(q0) if np.linalg.norm(q0) == 1 else q0/np.linalg.norm(q0)
    q1 = q1/np.linalg.norm(q1)
    
    if (np.dot(q0,q1) < 0):
        q0 *= -1""")],
  needs="a first quaternion that is an array of norm exactly 1, on the other side of the second", breaks="the sign of the first quaternion is turned in the caller's array",
  demo=PRE + """
q = np.array([0.,1.,0.,0.]); q0 = q.copy()
g.slerp(q, np.array([.1,-1.,.2,0.]), .3)
assert np.array_equal(q, q0)
"""),
]
