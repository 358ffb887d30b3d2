"""planted bugs, part 7: URDF"""
U = "urdf.py"
PRE = """
import numpy as np
import general_robotics_toolbox as g
from general_robotics_toolbox import urdf
def J(name, t, a, b, xyz='0 0 0', rpy='0 0 0', axis='0 0 1', lim=True):
    l = '<limit lower="-2" upper="3" velocity="1" effort="1"/>' if lim and t != 'fixed' else ''
    return '<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/><origin xyz="%s" rpy="%s"/><axis xyz="%s"/>%s</joint>' % (name, t, a, b, xyz, rpy, axis, l)
def U(*js):
    links = sorted({x for j in js for x in (j.split('parent link="')[1].split('"')[0], j.split('child link="')[1].split('"')[0])})
    return '<robot name="r">' + ''.join('<link name="%s"/>' % l for l in links) + ''.join(js) + '</robot>'
def X(*ms):
    T = np.eye(4)
    for m in ms: T = T @ m
    return T
def tr(x, y, z):
    T = np.eye(4); T[:3,3] = [x,y,z]; return T
def ro(k, t):
    T = np.eye(4); T[:3,:3] = g.rot(np.array(k, dtype=float), t); return T
def same(r, th, T):
    F = g.fwdkin(r, np.array(th, dtype=float))
    assert np.allclose(F.R, T[:3,:3], atol=1e-6) and np.allclose(F.p, T[:3,3], atol=1e-6), (F, T)
"""
SEEDS = [
 dict(id="urdf_tool_last_movable", property="C26", edits=[(U, "        R_tool = R\n", "        R_tool = R if urdf_robot.joint_map[chain[-1]].joint_type == 'fixed' else np.identity(3)\n")],
  needs="a chain that ends with a movable joint and has turned origins", breaks="the orientation of the tip is lost",
  demo=PRE + """
r = urdf.robot_from_xml_string(U(J('a','prismatic','l0','l1',rpy='0.3 0.4 0.5'), J('b','revolute','l1','l2')))
same(r, [0.5, 0.2], X(ro([0,0,1],.5), ro([0,1,0],.4), ro([1,0,0],.3), tr(0,0,.5), ro([0,0,1],.2)))
"""),
 dict(id="urdf_fixed_origin_order", property="C26", edits=[(U, """            if j.origin.xyz is not None:
                P[:,i] += np.matmul(R,j.origin.xyz)
            if j.origin.rpy is not None:
                R = np.matmul(R,_rpy_to_rot(j.origin.rpy))""", """            R0 = R
            if j.origin.rpy is not None:
                R = np.matmul(R,_rpy_to_rot(j.origin.rpy))
            if j.origin.xyz is not None:
                P[:,i] += np.matmul(R0 if j.joint_type != 'fixed' or i > 0 else R,j.origin.xyz)""")],
  needs="a fixed joint with a turned and shifted origin in front of the first movable joint", breaks="the offset of that fixed joint is turned by its own rotation",
  demo=PRE + """
r = urdf.robot_from_xml_string(U(J('f','fixed','l0','l1',xyz='1 2 3',rpy='0.3 0 1.2'), J('b','revolute','l1','l2')))
same(r, [0.2], X(tr(1,2,3), ro([0,0,1],1.2), ro([1,0,0],.3), ro([0,0,1],.2)))
"""),
 dict(id="urdf_fixed_pair", property="C26", edits=[(U, "            if j.origin.xyz is not None:\n                P[:,i]", "            if j.origin.xyz is not None and (j.joint_type != 'fixed' or i in (0, n)):\n                P[:,i]")],
  needs="a fixed joint between two movable joints", breaks="the offset of a fixed joint is lost",
  demo=PRE + """
r = urdf.robot_from_xml_string(U(J('a','revolute','l0','l1'), J('f','fixed','l1','l2',xyz='1 2 3'), J('b','revolute','l2','l3',xyz='0.5 0 0')))
same(r, [0.4, 0.2], X(ro([0,0,1],.4), tr(1.5,2,3), ro([0,0,1],.2)))
"""),
 dict(id="urdf_limits_first_only", property="C26", edits=[(U, """    if None in joint_vel_limit:
        joint_vel_limit = None
""", """    if joint_vel_limit[0] is None:
        joint_vel_limit = None
""")],
  needs="a robot whose later joint has no limits", breaks="the velocity limits contain an undefined entry instead of being unset",
  demo=PRE + """
r = urdf.robot_from_xml_string(U(J('a','revolute','l0','l1'), J('b','revolute','l1','l2',lim=False)))
assert r.joint_lower_limit is None and r.joint_vel_limit is None, r.joint_vel_limit
"""),
]
