"""Contracts of the ROS packages (external): message classes of geometry_msgs with their documented fields and constructors."""
import types


def msg(name, fields, defaults):
    """generated message class: positional (all fields) or keyword arguments; without arguments the defaults"""
    class M:
        __slots__ = tuple(fields)

        def __init__(self, *a, **k):
            if a and k:
                raise TypeError("Cannot mix positional and keyword arguments")
            if a and len(a) != len(fields):
                raise TypeError("Invalid number of arguments, args should be %s" % (fields,))
            for f, d in zip(fields, defaults):
                setattr(self, f, d() if callable(d) else d)
            for f, v in zip(fields, a):
                setattr(self, f, v)
            for f, v in k.items():
                if f not in fields:
                    raise AttributeError("%s is not an attribute of %s" % (f, name))
                if v is not None:
                    setattr(self, f, v)
    M.__name__ = name
    return M


Quaternion = msg("Quaternion", ("x", "y", "z", "w"), (0.0, 0.0, 0.0, 0.0))
Point = msg("Point", ("x", "y", "z"), (0.0, 0.0, 0.0))
Vector3 = msg("Vector3", ("x", "y", "z"), (0.0, 0.0, 0.0))
Pose = msg("Pose", ("position", "orientation"), (Point, Quaternion))
Transform = msg("Transform", ("translation", "rotation"), (Vector3, Quaternion))
Twist = msg("Twist", ("linear", "angular"), (Vector3, Vector3))
Wrench = msg("Wrench", ("force", "torque"), (Vector3, Vector3))
Header = msg("Header", ("seq", "stamp", "frame_id"), (0, 0, ""))
TransformStamped = msg("TransformStamped", ("header", "child_frame_id", "transform"), (Header, "", Transform))
PoseStamped = msg("PoseStamped", ("header", "pose"), (Header, Pose))
NAMES = ("Quaternion", "Point", "Vector3", "Pose", "Transform", "Twist", "Wrench", "TransformStamped", "PoseStamped")


def modules():
    m = types.ModuleType("geometry_msgs.msg")
    for n in NAMES:
        setattr(m, n, globals()[n])
    g = types.ModuleType("geometry_msgs")
    g.msg = m
    return {"geometry_msgs": g, "geometry_msgs.msg": m}


class Call:
    def __init__(self, name, a, k):
        self.name, self.a, self.k = name, a, k


def tf_modules(listener):
    tf = types.ModuleType("tf")
    tf.TransformListener = listener
    rospy = types.ModuleType("rospy")

    class Time:
        def __init__(self, *a, **k):
            self.a = a
        def __eq__(self, o):
            return isinstance(o, Time) and o.a == self.a
        __hash__ = None
    rospy.Time = Time
    rospy.Duration = Time
    tf2 = types.ModuleType("tf2_ros")
    for n in ("TransformException", "ConnectivityException", "LookupException", "ExtrapolationException"):
        setattr(tf2, n, type(n, (Exception,), {}))
    return {"tf": tf, "rospy": rospy, "tf2_ros": tf2}
