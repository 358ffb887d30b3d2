"""planted bugs, part 8: Tesseract"""
X = "tesseract.py"
PRE = """
import numpy as np
import general_robotics_toolbox as g
from general_robotics_toolbox import tesseract as T
from tesseract_robotics.tesseract_environment import Environment
ez = np.array([0.,0.,1.]); ey = np.array([0.,1.,0.])
def rob(n=3, **k):
    r = np.random.RandomState(5)
    H = r.randn(3, n); H /= np.linalg.norm(H, axis=0)
    return g.Robot(H, r.randn(3, n + 1), [0, 1, 0, 0][:n], joint_lower_limit=[-2.]*n, joint_upper_limit=[2.]*n, joint_vel_limit=[1.5]*n, joint_acc_limit=[2.5]*n, **k)
def same(A, B):
    assert np.allclose(A.R, B.R, atol=1e-6) and np.allclose(A.p, B.p, atol=1e-6), (A, B)
def tip(r, th):
    env = Environment()
    c, l, j = T.robot_to_tesseract_env_commands(r, 'rr', True, True)
    assert env.init(c)
    st = env.getState(list(j), np.array(th))
    return T.isometry3d_to_transform(st.link_transforms[l[-1]])
"""
UR = """
def ur(P4y=0, P3z=0):
    s = -1; ex = np.array([1.,0,0])
    H = np.array([ez,s*ey,s*ey,s*ey,-ez,s*ey]).T
    P = np.array([0.1625*ez, 0*ex, -0.425*ex, -0.3922*ex - 0.1*ey + P3z*ez, -0.0997*ez + P4y*s*ey, -0.0996*ey, 0*ex]).T
    return g.Robot(H, P, [0]*6, T_flange=g.Transform(np.array([ex,ez,-ey]).T, np.zeros(3)), T_base=g.Transform(g.rot([0,0,1], np.pi), np.zeros(3)))
def same_dh(r, x):
    q = np.array([.3,-.8,.9,.4,.5,.6]); R = g.rot([0,0,1], np.pi); p = np.zeros(3)
    for t, d, a, al in zip(q, (x.d1,0,0,x.d4,x.d5,x.d6), (0,x.a2,x.a3,0,0,0), (np.pi/2,0,0,np.pi/2,-np.pi/2,0)):
        Z = g.rot([0,0,1], t); p = p + R @ (Z @ np.array([a,0,0]) + d*ez); R = R @ Z @ g.rot([1,0,0], al)
    F = g.fwdkin(r, q)
    assert np.allclose(F.R, R, atol=1e-5) and np.allclose(F.p, p, atol=1e-5), (F, p)
"""
OPW = """
def opw(P3z=0, P2x=0, P3y=0, h3=1, h4=1):
    ex = np.array([1.,0,0])
    H = np.array([ez,ey,h3*ey,h4*ex,ey,ex]).T
    P = np.array([.4*ez, .1*ex, .45*ez + P2x*ex, .042*ez + P3z*ex + P3y*ey, .451*ex, .08*ex, 0*ex]).T
    return g.Robot(H, P, [0]*6, T_flange=g.Transform(g.rot([0,1,0], np.pi/2), np.zeros(3)))
def same_opw(r):
    x = T.robot_to_opw_inv_kin_parameters(r)
    q = np.array([.3,-.8,.9,.4,.5,.6]); t = q*x.sign_corrections - x.offsets
    a = t[1] + t[2]
    u = x.c2*np.sin(t[1]) + x.c3*np.sin(a) + x.a2*np.cos(a) + x.a1
    v = x.c2*np.cos(t[1]) + x.c3*np.cos(a) - x.a2*np.sin(a)
    R = g.rot(ez,t[0]) @ g.rot(ey,a) @ g.rot(ez,t[3]) @ g.rot(ey,t[4]) @ g.rot(ez,t[5])
    p = np.array([u*np.cos(t[0]) - x.b*np.sin(t[0]), u*np.sin(t[0]) + x.b*np.cos(t[0]), v + x.c1]) + x.c4*R @ ez
    F = g.fwdkin(r, q)
    assert np.allclose(F.R, R, atol=1e-4) and np.allclose(F.p, p, atol=1e-4), (F, p)
"""
SEEDS = [
 dict(id="tess_tool_bypasses_flange", property="C30", edits=[(X, """        tip_link = flange_link_name
        sg_link_names.append(flange_link_name)""", """        if robot.R_tool is None or robot.p_tool is None or np.any(robot.p_tool):
            tip_link = flange_link_name
        sg_link_names.append(flange_link_name)""")], needs="a robot with a flange and a tool that is turned but not shifted",
  breaks="the tool is attached to the end of the chain instead of the flange",
  demo=PRE + """
r = rob(T_flange=g.Transform(g.rot([1,0,0], 0.7), np.zeros(3)), R_tool=g.rot([0,1,0], 0.4), p_tool=np.zeros(3))
th = [.3,.4,.5]
same(tip(r, th), g.fwdkin(r, np.array(th)))
"""),
 dict(id="tess_base_rotation_only", property="C30", edits=[(X, """    if robot.T_base:
        joint.parent_to_joint_origin_transform = transform_to_isometry3d(robot.T_base)""", """    if robot.T_base and not np.allclose(robot.T_base.R, np.eye(3)):
        joint.parent_to_joint_origin_transform = transform_to_isometry3d(robot.T_base)""")], needs="a base that is shifted but not turned", breaks="the base offset is lost",
  demo=PRE + """
r = rob(T_base=g.Transform(np.eye(3), np.array([1.,2.,3.])))
th = [.3,.4,.5]
same(tip(r, th), g.fwdkin(r, np.array(th)))
"""),
 dict(id="tess_tip_offset_single", property="C30", edits=[(X, "robot.P[:,n_joints]), ", "robot.P[:,n_joints] if n_joints > 1 else robot.P[:,0]), ")], needs="a robot with a single joint", breaks="the offset behind the joint is replaced by the one in front of it",
  demo=PRE + """
r = rob(1)
same(tip(r, [.3]), g.fwdkin(r, np.array([.3])))
"""),
 dict(id="tess_names_for_revolute", property="C30", edits=[(X, 'joint_names = [f"joint_{i+1}" for i in range(n_joints)]', 'joint_names = [f"joint_{i+1}" if robot.joint_type[i] == 0 else f"slide_{i+1}" for i in range(n_joints)]')],
  needs="an unnamed robot with a prismatic joint", breaks="default joint names are no longer joint_<i>",
  demo=PRE + """
sg, l, j, c = T.robot_to_scene_graph(rob(3), True)
assert list(j) == ['joint_1', 'joint_2', 'joint_3'], j
"""),
 dict(id="tess_base_frame_order", property="C33", edits=[(X, "            res = base_link.inverse() * tip_link\n", "            res = tip_link * base_link.inverse()\n")], needs="a named base link that is turned or shifted", breaks="the pose is not expressed in the base frame",
  demo=PRE + """
r = rob(3)
t = T.TesseractRobot(r, 'rr')
th = np.array([.3,.4,.5])
A = t.fwdkin(th, 'rr_link_1', 'rr_link_3'); W = t.fwdkin(th, tip_link_name='rr_link_3'); B = t.fwdkin(th, tip_link_name='rr_link_1')
same(B * A, W)
"""),
 dict(id="tess_jacobian_same_link", property="C33", edits=[(X, """        J = np.vstack((J_kdl[3:6,:],J_kdl[0:3,:]))
""", """        J = np.vstack((J_kdl[3:6,:],J_kdl[0:3,:])) if len(theta) >= 3 else J_kdl
""")], needs="a robot with fewer than three joints", breaks="the rows stay in the solver's order",
  demo=PRE + """
r = rob(2)
t = T.TesseractRobot(r, 'rr')
th = np.array([.3,.4])
assert np.allclose(t.jacobian(th), g.robotjacobian(r, th), atol=1e-6)
"""),
 dict(id="tess_invkin_working_frame", property="C33", edits=[(X, """        ik.working_frame = base_link_name
""", """        ik.working_frame = base_link_name if tip_link_name == self.tip_link_name else self.base_link_name
""")], needs="both a base link and a tip link other than the defaults", breaks="the pose is read in the world frame instead of the given base frame",
  demo=PRE + """
class G:
    def calcInvKin(self, iks, seed):
        self.w = [(i.tip_link_name, i.working_frame) for i in iks]
        return []
    def getBaseLinkName(self): return 'w'
    def getAllPossibleTipLinkNames(self): return ['t']
class E:
    grp = G()
    def getKinematicGroup(self, n): return self.grp
t = T.TesseractRobot(None, 'rr', tesseract_env=E())
t.invkin(g.Transform(np.eye(3), np.zeros(3)), np.zeros(3), 'B', 'K')
assert E.grp.w == [('K', 'B')], E.grp.w
"""),
 dict(id="tess_kdl_nr_tip", property="C33", edits=[(X, """                    "KDLInvKinChainNR": {
                        "class": "KDLInvKinChainNRFactory",
                        "config": {
                            "base_link": base_link,""", """                    "KDLInvKinChainNR": {
                        "class": "KDLInvKinChainNRFactory",
                        "config": {
                            "base_link": base_link if default_solver == "KDLInvKinChainNR" else tip_link,""")], needs="the second KDL solver that is described beside the default one", breaks="its chain starts at the tip",
  demo=PRE + """
d, l = T.kinematics_plugin_invkin_kdl_plugin_info_dict('rr', 'b', 't', 'KDLInvKinChainLMA')
for x in d['inv_kin_plugins']['rr']['plugins'].values():
    assert x['config'] == dict(base_link='b', tip_link='t'), x
"""),

 dict(id="ur_dh_d4_short", property="C32", edits=[(X, "    d4 = -np.sum(P2[1,1:5]).item()", "    d4 = -np.sum(P2[1,1:4]).item()")], needs="a UR robot whose lateral offset is placed in front of the fifth axis", breaks="that part of d4 is dropped",
  demo=PRE + UR + """
same_dh(ur(P4y=0.0333), T.robot_to_ur_inv_kin_parameters(ur(P4y=0.0333)))
"""),
 dict(id="ur_dh_z_unchecked", property="C32", edits=[(X, "    assert np.allclose(P2[2,1:4], 0.0)", "    assert np.allclose(P2[2,1:3], 0.0)")], needs="a robot with a vertical offset in its forearm", breaks="such a robot is accepted, with parameters that do not describe it",
  demo=PRE + UR + """
try:
    x = T.robot_to_ur_inv_kin_parameters(ur(P3z=0.05))
except AssertionError:
    raise SystemExit(0)
same_dh(ur(P3z=0.05), x)
"""),
 dict(id="opw_flange_shift_unchecked", property="C31", edits=[(X, "    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))\n\n    assert len(robot.joint_type) == 6", "    assert np.allclose(robot.T_flange.p.flatten()[1:], np.array([0.,0.]))\n\n    assert len(robot.joint_type) == 6")],
  needs="a flange that is shifted along x", breaks="such a robot is accepted, with parameters that do not describe it",
  demo=PRE + OPW + """
r = opw(); r.T_flange = g.Transform(r.T_flange.R, np.array([.1,0,0]))
try:
    x = T.robot_to_opw_inv_kin_parameters(r)
except AssertionError:
    raise SystemExit(0)
same_opw(r)
"""),
 dict(id="opw_c3_single", property="C31", edits=[(X, "    c3 = np.round(P2[2,3] + P2[2,4],6).item()", "    c3 = np.round(P2[2,4] if np.abs(P2[2,4]) > 1e-6 else P2[2,3],6).item()")], needs="a forearm whose length is given in two parts", breaks="only one part is counted",
  demo=PRE + OPW + """
same_opw(opw(P3z=0.11))
"""),
 dict(id="opw_bend_both", property="C31", edits=[(X, "        offset[1] += q2_op\n        offset[2] -= q2_op", "        offset[1] += q2_op\n        offset[2] -= q2_op if offset[2] == 0 else -q2_op")], needs="a wrist along x, the bend at joint 3, and an upper arm that leans forward", breaks="the offset of joint 3 is wrong",
  demo=PRE + OPW + """
same_opw(opw(P2x=0.1))
"""),
 dict(id="opw_b_sign", property="C31", edits=[(X, "    b = np.round(P2[1,1] + P2[1,2] + P2[1,3],6).item()", "    b = np.round(P2[1,1] + P2[1,2] + (P2[1,3] if axis_sign(H2[:,2], ey) > 0 else -P2[1,3]),6).item()")], needs="a lateral offset behind a third axis along -y", breaks="the offset is subtracted",
  demo=PRE + OPW + """
same_opw(opw(P3y=0.07, h3=-1))
"""),
 dict(id="opw_wrist_sign", property="C31", edits=[(X, "        sign_corrections[i] = axis_sign(H2[:,i], expected_axes[i])", "        sign_corrections[i] = axis_sign(H2[:,i], expected_axes[i]) if i != 3 else axis_sign(H2[:,5], ez)")], needs="a fourth axis opposite to the sixth", breaks="the sign of joint 4 is wrong",
  demo=PRE + OPW + """
same_opw(opw(h4=-1))
"""),
 dict(id="opw_lateral_unchecked", property="C31", edits=[(X, "    assert np.allclose(P2[0:2,4:], 0.0)", "    assert np.allclose(P2[0,4:], 0.0) and np.allclose(P2[1,4:], 0.0, atol=1e-2)")], needs="a wrist with a lateral offset of some millimetres", breaks="a robot without spherical wrist is accepted",
  demo=PRE + OPW + """
r = opw(); r.P[:,5] += [0, 0.008, 0]
try:
    same_opw(r)
except AssertionError as e:
    raise SystemExit(0 if not e.args else 1)
"""),
]
