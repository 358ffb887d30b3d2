"""C29: TF listener wrapper"""
from .common import *
from . import ros

FUNCTIONS = ["TransformListener.__init__", "TransformListener.lookupTransform", "TransformListener.lookupTransformFull", "TransformListener.canTransform", "TransformListener.canTransformFull",
             "TransformListener.waitForTransform", "TransformListener.waitForTransformFull", "TransformListener.clear", "q2R", "Transform.__init__"]
ASSUMPTIONS = ["tf.TransformListener: every method may return anything; lookupTransform and lookupTransformFull return (translation, quaternion (x,y,z,w)) of unit norm"]
# the methods of tf.TransformListener and their parameters, in order
METHODS = {"canTransform": ("target_frame", "source_frame", "time"),
           "canTransformFull": ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame"),
           "waitForTransform": ("target_frame", "source_frame", "time", "timeout", "polling_sleep_duration"),
           "waitForTransformFull": ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame", "timeout", "polling_sleep_duration"),
           "lookupTransform": ("target_frame", "source_frame", "time"),
           "lookupTransformFull": ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame"),
           "clear": ()}
OPTIONAL = {"time": "Time", "polling_sleep_duration": None}


def listener(e):
    calls, made, answers = [], [], {}

    def method(n):
        ps = METHODS[n]

        def f(self, *a, **k):
            if len(a) > len(ps) or any(x not in ps for x in k):
                raise TypeError("bad arguments of " + n)
            d = dict(zip(ps, a))
            d.update(k)
            if "polling_sleep_duration" in ps:
                d.setdefault("polling_sleep_duration", None)
            if set(d) != set(ps):
                raise TypeError("missing argument of " + n)
            calls.append((n, d))
            if answers.get(n) is not None and isinstance(answers[n], Exception):
                raise answers[n]
            return answers.get(n)
        return f
    L = type("TransformListener", (), {n: method(n) for n in METHODS})

    def init(self, *a, **k):
        made.append((a, k))
    L.__init__ = init
    mods = ros.tf_modules(L)
    ld = load(e, mods)
    return ld.module("ros_tf"), ld.module("general_robotics_toolbox"), mods["rospy"], calls, made, answers


def args(e, n, rospy):
    """distinct values for every parameter; optional ones given or not"""
    vals = {p: ("frame " + p if "frame" in p else rospy.Time(p)) for p in METHODS[n]}
    given = list(METHODS[n])
    want = dict(vals)
    if given and given[-1] in OPTIONAL and e.choose(2):
        d = given.pop()
        want[d] = rospy.Time(0) if OPTIONAL[d] else None
    return [vals[p] for p in given], want


def call(e, o, n, a):
    if a and e.choose(2):
        return getattr(o, n)(**dict(zip(METHODS[n], a)))
    return getattr(o, n)(*a)


def forwarded(e, calls, n, want):
    ok = len(calls) == 1 and calls[0][0] == n and all(calls[0][1][p] == w or calls[0][1][p] is w for p, w in want.items())
    e.check("every argument is passed to the ROS listener in its place", ok, "%r instead of %s %r" % (calls, n, want))


def construct(e):
    m, g, rospy, calls, made, answers = listener(e)
    m.TransformListener(1, "x", interpolate=True)
    e.check("constructor arguments are passed to the ROS listener", made == [((1, "x"), {"interpolate": True})], repr(made))


def lookup(e):
    m, g, rospy, calls, made, answers = listener(e)
    n = ["lookupTransform", "lookupTransformFull"][e.choose(2)]
    o = m.TransformListener()
    R, q = rotmat("q")
    t = vec("t")
    tt = t.tolist() if e.choose(2) else tuple(t.tolist())
    qq = [q[1], q[2], q[3], q[0]]
    answers[n] = (tt, tuple(qq) if e.choose(2) else qq)
    a, want = args(e, n, rospy)
    r = call(e, o, n, a)
    forwarded(e, calls, n, want)
    e.check("a Transform is returned", isinstance(r, g.Transform))
    e.ensure_all("the rotation is that of the quaternion", eqs(r.R, R))
    e.ensure_all("the translation is that of the listener", eqs(r.p, t))
    e.check("the target frame is the parent and the source frame the child", r.parent_frame_id == want["target_frame"] and r.child_frame_id == want["source_frame"],
            "%r %r" % (r.parent_frame_id, r.child_frame_id))


def relay(e):
    m, g, rospy, calls, made, answers = listener(e)
    ns = [n for n in METHODS if not n.startswith("lookup")]
    n = ns[e.choose(len(ns))]
    o = m.TransformListener()
    ans = object()
    answers[n] = ans
    a, want = args(e, n, rospy)
    r = call(e, o, n, a)
    forwarded(e, calls, n, want)
    if n != "clear":
        e.check("the result of the ROS listener is returned unchanged", r is ans)


def errors(e):
    m, g, rospy, calls, made, answers = listener(e)
    ns = list(METHODS)
    n = ns[e.choose(len(ns))]
    o = m.TransformListener()

    class X(Exception):
        pass
    answers[n] = X()
    a, want = args(e, n, rospy)
    raises(e, "exceptions of the ROS listener reach the caller", lambda: getattr(o, n)(*a), X)


CONTRACTS = [("TransformListener", construct), ("lookups", lookup), ("other methods", relay), ("exceptions", errors)]
