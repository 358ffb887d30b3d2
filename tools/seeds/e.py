"""planted bugs, part 5: ROS"""
M = "ros_msg.py"
F = "ros_tf.py"
PRE = """
import os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def cls(name, fields, defs):
    class C:
        def __init__(self, *a, **k):
            for f, d in zip(fields, defs):
                setattr(self, f, d() if callable(d) else d)
            for f, v in zip(fields, a):
                setattr(self, f, v)
            for f, v in k.items():
                setattr(self, f, v)
    C.__name__ = name
    return C
m = types.ModuleType('geometry_msgs.msg'); gm = types.ModuleType('geometry_msgs'); gm.msg = m
m.Quaternion = cls('Quaternion', ['x','y','z','w'], [0.0]*4)
m.Point = cls('Point', ['x','y','z'], [0.0]*3); m.Vector3 = cls('Vector3', ['x','y','z'], [0.0]*3)
m.Pose = cls('Pose', ['position','orientation'], [m.Point, m.Quaternion])
m.Transform = cls('Transform', ['translation','rotation'], [m.Vector3, m.Quaternion])
m.Twist = cls('Twist', ['linear','angular'], [m.Vector3]*2); m.Wrench = cls('Wrench', ['force','torque'], [m.Vector3]*2)
m.Header = cls('Header', ['frame_id'], [''])
m.TransformStamped = cls('TransformStamped', ['header','child_frame_id','transform'], [m.Header, '', m.Transform])
m.PoseStamped = cls('PoseStamped', ['header','pose'], [m.Header, m.Pose])
sys.modules['geometry_msgs'] = gm; sys.modules['geometry_msgs.msg'] = m
calls = []
class TL:
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        def f(*a):
            calls.append((n, a))
            return ([1.0,2.0,3.0], [0.5,0.5,0.5,0.5]) if n.startswith('lookup') else 'ans'
        return f
tf = types.ModuleType('tf'); tf.TransformListener = TL
rospy = types.ModuleType('rospy'); rospy.Time = lambda *a: ('time',)+a
tf2 = types.ModuleType('tf2_ros')
for n in ('TransformException','ConnectivityException','LookupException','ExtrapolationException'):
    setattr(tf2, n, type(n, (Exception,), {}))
sys.modules.update({'tf': tf, 'rospy': rospy, 'tf2_ros': tf2})
import numpy as np
import general_robotics_toolbox as g
from general_robotics_toolbox import ros_msg as rm, ros_tf as rt
"""
SEEDS = [
 dict(id="msg_wrench_order", property="C28", edits=[(M, "    return np.array([ros_wrench.torque.x, ros_wrench.torque.y, ros_wrench.torque.z, \\\n                     ros_wrench.force.x, ros_wrench.force.y, ros_wrench.force.z])",
   "    return np.array([ros_wrench.force.x, ros_wrench.force.y, ros_wrench.force.z, \\\n                     ros_wrench.torque.x, ros_wrench.torque.y, ros_wrench.torque.z])"),
   (M, """    return Wrench(Vector3(wrench2[3], wrench2[4], wrench2[5]),
                 Vector3(wrench2[0], wrench2[1], wrench2[2]))""", """    return Wrench(Vector3(wrench2[0], wrench2[1], wrench2[2]),
                 Vector3(wrench2[3], wrench2[4], wrench2[5]))""")],
  needs="a message produced or read by somebody else: the round trip still holds", breaks="force and torque are exchanged in both conversions",
  demo=PRE + """
w = rm.wrench2msg([1,2,3,4,5,6])
assert (w.torque.x, w.torque.y, w.torque.z, w.force.x) == (1,2,3,4)
"""),
 dict(id="msg_posestamped_frame", property="C28", edits=[(M, """    r=PoseStamped()
    r.pose=Pose(p2point_msg(transform.p), R2msg(transform.R))    
    if transform.parent_frame_id is not None:
        r.header.frame_id=transform.parent_frame_id        
    return r""", """    r=PoseStamped()
    r.pose=Pose(p2point_msg(transform.p), R2msg(transform.R))    
    if transform.parent_frame_id is not None:
        r.header.frame_id=transform.child_frame_id or transform.parent_frame_id        
    return r""")],
  needs="a transform with both frame names, stamped pose", breaks="the pose is labelled with the child frame",
  demo=PRE + """
r = rm.transform2pose_stamped_msg(g.Transform(np.eye(3), [1,2,3], 'world', 'tool'))
assert r.header.frame_id == 'world', r.header.frame_id
"""),
 dict(id="msg_transform_cast", property="C28", edits=[(M, """    return Transform(p2msg(transform.p), R2msg(transform.R))    

def transform2transform_stamped_msg""", """    return Transform(p2msg(np.round(transform.p, 9)), R2msg(transform.R))    

def transform2transform_stamped_msg""")],
  needs="a position with components of nanometre size", breaks="the position is rounded",
  demo=PRE + """
p = np.array([1.23456789012e-7, 2.0, 3.0])
assert np.all(rm.msg2transform(rm.transform2msg(g.Transform(np.eye(3), p))).p == p)
"""),
 dict(id="tf_full_times_swapped", property="C29", edits=[(F, "        t,r = self.ros_listener.lookupTransformFull(target_frame, target_time, source_frame, source_time, fixed_frame)", "        t,r = self.ros_listener.lookupTransformFull(target_frame, source_time, source_frame, target_time, fixed_frame)")],
  needs="lookupTransformFull with two different times", breaks="the times of target and source are exchanged",
  demo=PRE + """
rt.TransformListener().lookupTransformFull('a', 1, 'b', 2, 'w')
assert calls[-1][1] == ('a', 1, 'b', 2, 'w'), calls
"""),
 dict(id="tf_poll_dropped", property="C29", edits=[(F, "        return self.ros_listener.waitForTransform(target_frame, source_frame, time, timeout, polling_sleep_duration)", "        return self.ros_listener.waitForTransform(target_frame, source_frame, time, timeout, polling_sleep_duration and timeout)")],
  needs="waitForTransform with a polling duration", breaks="the polling duration is replaced by the timeout",
  demo=PRE + """
rt.TransformListener().waitForTransform('a', 'b', 1, 2, 3)
assert calls[-1][1] == ('a', 'b', 1, 2, 3), calls
"""),
]
