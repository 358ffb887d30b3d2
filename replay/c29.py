from base import *
from rosmods import ros, install
PARAMS = {"canTransform": ("target_frame", "source_frame", "time"),
          "canTransformFull": ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame"),
          "waitForTransform": ("target_frame", "source_frame", "time", "timeout", "polling_sleep_duration"),
          "waitForTransformFull": ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame", "timeout", "polling_sleep_duration"),
          "lookupTransform": ("target_frame", "source_frame", "time"),
          "lookupTransformFull": ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame"),
          "clear": ()}


def search(S):
    calls, made, ans = [], [], {}

    def method(n):
        ps = PARAMS[n]

        def f(self, *a, **k):
            d = dict(zip(ps, a))
            d.update(k)
            d.setdefault("polling_sleep_duration", None)
            calls.append((n, {p: d.get(p, "missing") for p in ps}))
            if isinstance(ans.get("r"), Exception):
                raise ans["r"]
            return ans.get("r")
        return f
    L = type("TransformListener", (), {n: method(n) for n in PARAMS})
    L.__init__ = lambda self, *a, **k: made.append((a, k))
    mods = ros.tf_modules(L)
    install(mods)
    rospy = mods["rospy"]
    g = import_g()
    from general_robotics_toolbox import ros_tf as m
    for _ in S.loop(1500):
        del made[:]
        o = m.TransformListener(1, x=2)
        S.ok("constructor arguments", made == [((1,), {"x": 2})], {}, made)
        for n, ps in PARAMS.items():
            vals = {p: ("f%d" % S.rng.integers(1000) if "frame" in p else rospy.Time(int(S.rng.integers(1000)))) for p in ps}
            a = dict(vals)
            want = dict(vals)
            if ps and ps[-1] in ("time", "polling_sleep_duration") and S.flip():
                del a[ps[-1]]
                want[ps[-1]] = rospy.Time(0) if ps[-1] == "time" else None
            q, t = S.unit(4), S.vec()
            look = n.startswith("lookup")
            token = ([float(x) for x in t], S.pick([list, tuple])([float(x) for x in (q[1], q[2], q[3], q[0])])) if look else object()
            ans["r"] = token
            del calls[:]
            i = {"method": n, "arguments": repr(a), "t": t, "q": q}
            r = getattr(o, n)(**a) if S.flip() else getattr(o, n)(*a.values())
            S.ok(n + ": arguments are passed in place", len(calls) == 1 and calls[0][0] == n and calls[0][1] == want, i, repr(calls), repr(want))
            if look:
                S.close(n + ": rotation", r.R, qR(q), 1e-9, i)
                S.close(n + ": translation", r.p, t, 0, i)
                S.ok(n + ": frames", r.parent_frame_id == vals["target_frame"] and r.child_frame_id == vals["source_frame"], i)
            elif n != "clear":
                S.ok(n + ": result", r is token, i)

            class X(Exception):
                pass
            ans["r"] = X()
            S.raises(n + ": exceptions reach the caller", lambda: getattr(o, n)(*a.values()), i, X)
