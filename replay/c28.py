from base import *
from rosmods import ros, install


def search(S):
    install(ros.modules())
    g = import_g()
    from general_robotics_toolbox import ros_msg as m
    V = lambda x: ros.Vector3(*[float(a) for a in x])
    xyz = lambda v: [v.x, v.y, v.z]
    KINDS = ("list", "array", "column", "tuple")
    bad = lambda: S.pick([ros.Quaternion(), ros.Point(), ros.Twist(), ros.Wrench(), ros.Header(), ros.Vector3(), None, "x", 1.0, [1, 2], {}])
    for _ in S.loop(1500):
        q = S.unit(4)
        i = {"q": q}
        a = S.form(q, KINDS)
        fz = freeze(a)
        r = m.q2msg(a)
        S.ok("q2msg returns a Quaternion", isinstance(r, ros.Quaternion), i)
        S.close("q2msg fields", [r.w, r.x, r.y, r.z], q, 0, i)
        S.ok("q2msg does not modify q", freeze(a) == fz, i)
        S.close("msg2q", m.msg2q(r), q, 0, i)
        Q = ros.Quaternion(q[1], q[2], q[3], q[0])
        S.close("msg2q", m.msg2q(Q), q, 0, i)
        S.close("msg2R", m.msg2R(Q), qR(q), 1e-9, i)
        p = S.vec()
        i = {"p": p}
        for to, back, cls in ((m.p2msg, m.msg2p, ros.Vector3), (m.p2point_msg, m.point_msg2p, ros.Point)):
            r = to(S.form(p, KINDS))
            S.ok(to.__name__ + " type", isinstance(r, cls), i)
            S.close(to.__name__, xyz(r), p, 0, i)
            S.close(back.__name__, back(cls(*[float(x) for x in p])), p, 0, i)
            S.close("round trip of a vector", back(r), p, 0, i)
        t = S.vec(6)
        i = {"t": t}
        for to, back, cls, ang, lin in ((m.twist2msg, m.msg2twist, ros.Twist, "angular", "linear"), (m.wrench2msg, m.msg2wrench, ros.Wrench, "torque", "force")):
            r = to(S.form(t, KINDS))
            S.ok(to.__name__ + " type", isinstance(r, cls), i)
            S.close(to.__name__, xyz(getattr(r, ang)) + xyz(getattr(r, lin)), t, 0, i)
            S.close(back.__name__, back(cls(**{ang: V(t[:3]), lin: V(t[3:])})), t, 0, i)
            S.close("round trip", back(r), t, 0, i)
        R = S.rotation()
        i = {"R": R}
        r = m.R2msg(R)
        S.ok("R2msg type", isinstance(r, ros.Quaternion), i)
        S.close("R2msg", qR([r.w, r.x, r.y, r.z]), R, 1e-6, i)
        S.close("round trip of a rotation", m.msg2R(r), R, 1e-6, i)
        par, chi = S.pick([(None, None), ("a", None), (None, "b"), ("a", "b")])
        T = g.Transform(R, p, par, chi)
        i = {"T": T}
        fz = freeze(T)
        for k, (f, cls) in enumerate(((m.transform2msg, ros.Transform), (m.transform2transform_stamped_msg, ros.TransformStamped), (m.transform2pose_msg, ros.Pose), (m.transform2pose_stamped_msg, ros.PoseStamped))):
            r = f(T)
            n = f.__name__
            S.ok(n + " type", isinstance(r, cls), i)
            x = r.transform if k == 1 else r.pose if k == 3 else r
            pos, ori = (x.translation, x.rotation) if k < 2 else (x.position, x.orientation)
            S.ok(n + " position type", isinstance(pos, ros.Vector3 if k < 2 else ros.Point), i)
            S.close(n + " position", xyz(pos), p, 0, i)
            S.close(n + " orientation", qR([ori.w, ori.x, ori.y, ori.z]), R, 1e-6, i)
            if k in (1, 3):
                S.ok(n + " parent frame", r.header.frame_id == (par or ""), i, r.header.frame_id)
            if k == 1:
                S.ok(n + " child frame", r.child_frame_id == (chi or ""), i, r.child_frame_id)
            b = m.msg2transform(r)
            S.close(n + " round trip R", b.R, R, 1e-6, i)
            S.close(n + " round trip p", b.p, p, 0, i)
            wp, wc = (par or "") if k in (1, 3) else None, (chi or "") if k == 1 else None
            S.ok(n + " round trip frames", (b.parent_frame_id or None) == (wp or None) and (b.child_frame_id or None) == (wc or None), i, [b.parent_frame_id, b.child_frame_id])
        S.ok("the transform is not modified", freeze(T) == fz, i)
        x = bad()
        S.raises("msg2transform rejects other types", lambda: m.msg2transform(x), {"x": repr(x)})
