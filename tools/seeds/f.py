"""planted bugs, part 6: Robot Raconteur"""
RR = "robotraconteur.py"
PRE = """
import numpy as np
from general_robotics_toolbox import robotraconteur as rr
V = lambda x, y, z: dict(x=float(x), y=float(y), z=float(z))
Q = dict(w=0.5, x=0.5, y=0.5, z=0.5)
def joint(i, t='revolute'):
    return dict(joint_type=t, joint_identifier='j%d' % i, joint_limits=dict(lower=-1.0-i, upper=2.0+i, velocity=10.0+i, acceleration=20.0+i, reduced_velocity=0.1, reduced_acceleration=0.1, effort=1.0))
def pose(x): return dict(orientation=Q, position=V(x,1,2))
def chain(nums, x=0.0, **k):
    ax = [V(1,0,0), V(0,1,0), V(0,0,1)]
    d = dict(joint_numbers=nums, H=[ax[i % 3] for i in range(len(nums))], P=[V(x+i, i+1, -i) for i in range(len(nums)+1)], flange_identifier='flange', flange_pose=pose(x))
    d.update(k)
    return d
def info(*chains, **k):
    d = dict(chains=list(chains), joint_info=[joint(i, 'prismatic' if i == 4 else 'revolute') for i in range(6)])
    d.update(k)
    return d
"""
SEEDS = [
 dict(id="rr_type_sticky", property="C27", edits=[(RR, """            joint_type[i] = 0
        elif""", """            joint_type[i] = joint_type[i-1]
        elif""")],
  needs="a revolute joint behind a prismatic one", breaks="a revolute joint takes over the type of the joint before it",
  demo=PRE + """
r = rr.load_robot_info_yaml_to_robot(info(chain([3, 4, 5])))
assert list(r.joint_type) == [0, 1, 0], r.joint_type
"""),
 dict(id="rr_names_null", property="C27", edits=[(RR, '            joint_names[i] = ""', '            joint_names[i] = joint_names[i-1]')],
  needs="a joint without identifier behind a named one", breaks="a joint without identifier takes over the name of the joint before it",
  demo=PRE + """
d = info(chain([0, 1, 2]))
d['joint_info'][1]['joint_identifier'] = None
r = rr.load_robot_info_yaml_to_robot(d)
assert r.joint_names == ['j0', '', 'j2'], r.joint_names
"""),
 dict(id="rr_tool_first_chain", property="C27", edits=[(RR, '    robot = load_robot_info_yaml_to_robot(robot_info_file, robot_chain_number)', '    robot = load_robot_info_yaml_to_robot(robot_info_file, robot_chain_number and 0)')],
  needs="a robot with two chains loaded with a tool", breaks="the first chain is loaded whatever the chain number",
  demo=PRE + """
t = dict(tcp=pose(5), device_info=dict(device=dict(name='tool')))
r = rr.load_robot_and_tool_info_yaml_to_robot(info(chain([0, 1, 2]), chain([3, 4], 7.0)), t, 1)
assert r.joint_names == ['j3', 'j4'], r.joint_names
"""),

 dict(id="rr_null_flange_name", property="C27", edits=[(RR, """    if chain["flange_identifier"] is not None:
        tip_link_name = _identifier_name(chain["flange_identifier"])""", """    if chain["flange_identifier"]:
        tip_link_name = _identifier_name(chain["flange_identifier"])
    elif root_link_name:
        tip_link_name = root_link_name""")],
  needs="a chain without flange identifier and with link identifiers", breaks="the tip is named after the root link",
  demo=PRE + """
r = rr.load_robot_info_yaml_to_robot(info(chain([0], flange_identifier=None, link_identifiers=['root'])))
assert r.tip_link_name is None, r.tip_link_name
"""),
]
