"""C28: ROS message conversions"""
from .common import *
from . import ros

FUNCTIONS = ["msg2q", "q2msg", "msg2R", "R2msg", "msg2p", "p2msg", "point_msg2p", "p2point_msg", "msg2transform", "transform2msg", "transform2transform_stamped_msg",
             "transform2pose_msg", "transform2pose_stamped_msg", "msg2twist", "twist2msg", "msg2wrench", "wrench2msg", "q2R", "R2q", "Transform.__init__"]
ASSUMPTIONS = ["geometry_msgs message classes have the fields, field order and defaults of their ROS definitions (contracts/ros.py)"]
XYZ = ("x", "y", "z")


def M(e):
    L = load(e, ros.modules())
    return L.module("ros_msg"), L.module("general_robotics_toolbox")


def fields(e, label, m, cls, want):
    ok = isinstance(m, cls)
    e.check(label + ": message type", ok, repr(type(m)))
    if not ok:
        return
    for f, w in want.items():
        e.ensure_all(label + ": field " + f, eqs(getattr(m, f), w) if isinstance(getattr(m, f), (Re, int, float)) else [T.FALSE])


def xyz(v, names=XYZ):
    return dict(zip(names, v))


def flat(e, label, r, want):
    e.check(label + ": shape", shape_is(r, (len(want),)), repr(r))
    e.ensure_all(label + ": value", eqs(r, arr(list(want))))


def quaternion(e):
    m, _ = M(e)
    q = vec("q", 4)
    a = forms(e, q, ("list", "array", "column", "tuple"))
    s = Snapshot(a)
    r = m.q2msg(a)
    fields(e, "q2msg", r, ros.Quaternion, dict(w=q[0], x=q[1], y=q[2], z=q[3]))
    s.ensure(e)
    flat(e, "msg2q", m.msg2q(ros.Quaternion(q[1], q[2], q[3], q[0])), q.tolist())
    flat(e, "round trip of a quaternion", m.msg2q(r), q.tolist())


def points(e):
    m, _ = M(e)
    p = vec("p")
    a = forms(e, p, ("list", "array", "column", "tuple"))
    to, back, cls = [(m.p2msg, m.msg2p, ros.Vector3), (m.p2point_msg, m.point_msg2p, ros.Point)][e.choose(2)]
    s = Snapshot(a)
    r = to(a)
    fields(e, to.__name__, r, cls, xyz(p))
    s.ensure(e)
    flat(e, back.__name__, back(cls(p[0], p[1], p[2])), p.tolist())
    flat(e, "round trip of a vector", back(r), p.tolist())


def twists(e):
    m, _ = M(e)
    t = vec("t", 6)
    a = forms(e, t, ("list", "array", "column", "tuple"))
    to, back, cls, ang, lin = [(m.twist2msg, m.msg2twist, ros.Twist, "angular", "linear"), (m.wrench2msg, m.msg2wrench, ros.Wrench, "torque", "force")][e.choose(2)]
    r = to(a)
    e.check(to.__name__ + ": message type", isinstance(r, cls))
    fields(e, to.__name__ + " " + ang, getattr(r, ang), ros.Vector3, xyz(t[:3]))
    fields(e, to.__name__ + " " + lin, getattr(r, lin), ros.Vector3, xyz(t[3:]))
    x = cls(**{ang: ros.Vector3(*t[:3].tolist()), lin: ros.Vector3(*t[3:].tolist())})
    flat(e, back.__name__, back(x), t.tolist())
    flat(e, "round trip of a %s" % cls.__name__, back(r), t.tolist())


def rotation(e):
    m, g = M(e)
    R, q = rotmat("q")
    r = m.R2msg(R.copy())
    ok = isinstance(r, ros.Quaternion)
    e.check("R2msg: message type", ok)
    x = arr([r.w, r.x, r.y, r.z])
    e.ensure_all("R2msg: the quaternion is that of the rotation", eqs(qrot(x), R))
    e.ensure("R2msg: unit quaternion", T.lit(dot(x, x) - 1, "="))
    e.ensure_all("round trip of a rotation", eqs(m.msg2R(r), R))
    e.ensure_all("msg2R: rotation of the quaternion", eqs(m.msg2R(ros.Quaternion(q[1], q[2], q[3], q[0])), R))


FR = [(None, None), ("a", None), (None, "b"), ("a", "b")]


def geometry(e, label, pos, ori, posc, R, p):
    fields(e, label + " position", pos, posc, xyz(p))
    ok = isinstance(ori, ros.Quaternion)
    e.check(label + ": orientation message", ok)
    if ok:
        e.ensure_all(label + ": orientation", eqs(qrot(arr([ori.w, ori.x, ori.y, ori.z])), R))


def to_message(e):
    """Transform to message and back"""
    m, g = M(e)
    R, q = rotmat("q")
    p = vec("p")
    par, chi = FR[e.choose(4)]
    t = g.Transform(R.copy(), p.copy(), par, chi)
    k = e.choose(4)
    f = [m.transform2msg, m.transform2transform_stamped_msg, m.transform2pose_msg, m.transform2pose_stamped_msg][k]
    cls = [ros.Transform, ros.TransformStamped, ros.Pose, ros.PoseStamped][k]
    r = f(t)
    n = f.__name__
    e.check(n + ": message type", isinstance(r, cls))
    if k < 2:
        x = r.transform if k else r
        e.check(n + ": transform message", isinstance(x, ros.Transform))
        geometry(e, n, x.translation, x.rotation, ros.Vector3, R, p)
    else:
        x = r.pose if k == 3 else r
        e.check(n + ": pose message", isinstance(x, ros.Pose))
        geometry(e, n, x.position, x.orientation, ros.Point, R, p)
    if k in (1, 3):
        e.check(n + ": parent frame", r.header.frame_id == (par if par is not None else ""), repr(r.header.frame_id))
    if k == 1:
        e.check(n + ": child frame", r.child_frame_id == (chi if chi is not None else ""), repr(r.child_frame_id))
    b = m.msg2transform(r)
    e.check("round trip of a transform: type", isinstance(b, g.Transform))
    e.ensure_all("round trip of a transform: rotation", eqs(b.R, R))
    e.ensure_all("round trip of a transform: position", eqs(b.p, p))
    if k in (1, 3) and par is not None:
        e.check("round trip of a transform: parent frame", b.parent_frame_id == par)
    if k == 1 and chi is not None:
        e.check("round trip of a transform: child frame", b.child_frame_id == chi)
    e.check("frame: the transform is not modified", t.parent_frame_id == par and t.child_frame_id == chi)
    e.ensure_all("frame: the transform is not modified", eqs(t.R, R) + eqs(t.p, p))


def from_message(e):
    m, g = M(e)
    R, q = rotmat("q")
    p = vec("p")
    Q = ros.Quaternion(q[1], q[2], q[3], q[0])
    k = e.choose(4)
    if k == 0:
        x = ros.Transform(ros.Vector3(*p.tolist()), Q)
    elif k == 1:
        x = ros.TransformStamped()
        x.transform = ros.Transform(ros.Vector3(*p.tolist()), Q)
        x.header.frame_id, x.child_frame_id = "a", "b"
    elif k == 2:
        x = ros.Pose(ros.Point(*p.tolist()), Q)
    else:
        x = ros.PoseStamped()
        x.pose = ros.Pose(ros.Point(*p.tolist()), Q)
        x.header.frame_id = "a"
    t = m.msg2transform(x)
    e.check("msg2transform returns a Transform", isinstance(t, g.Transform))
    e.ensure_all("msg2transform: rotation of the quaternion", eqs(t.R, R))
    e.ensure_all("msg2transform: position", eqs(t.p, p))
    e.check("msg2transform: parent frame", t.parent_frame_id == ("a" if k in (1, 3) else None))
    e.check("msg2transform: child frame", t.child_frame_id == ("b" if k == 1 else None))


def rejects(e):
    m, g = M(e)
    q = ros.Quaternion(0.0, 0.0, 0.0, 1.0)
    bad = [q, ros.Point(1.0, 2.0, 3.0), ros.Twist(), ros.Wrench(), ros.Header(), None, "x", 1.0, [1, 2], ros.Vector3(0.0, 0.0, 0.0)]
    x = bad[e.choose(len(bad))]
    raises(e, "msg2transform rejects other types", lambda: m.msg2transform(x))


CONTRACTS = [("msg2q, q2msg", quaternion), ("points and vectors", points), ("twists and wrenches", twists), ("msg2R, R2msg", rotation), ("transforms to messages", to_message),
             ("msg2transform", from_message), ("msg2transform rejects", rejects)]
