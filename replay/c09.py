from base import *


def search(S):
    g = import_g()
    for n in S.loop(12000):
        a = S.unit(4)
        c = S.rng.integers(5)
        if c < 2:
            b = S.unit(4)
        else:
            v = S.rng.normal(size=4)
            v = v - a * (a @ v)
            v = v / np.linalg.norm(v)
            d = 10.0 ** float(S.rng.uniform(-16, 0)) if S.flip(0.8) else 0.0
            base_angle = {2: 0.0, 3: math.pi, 4: math.pi / 2}[int(c)]
            b = math.cos(base_angle + d) * a + math.sin(base_angle + d) * v
        s0, s1 = 10.0 ** S.rng.uniform(-3, 3, size=2) if S.flip() else (1.0, 1.0)
        t = S.pick([0, 1, 0.0, 1.0, 0.5, float(S.rng.random()), float(S.rng.random()), 1e-9, 1 - 1e-9])
        q0, q1 = a * s0, b * s1
        fr = frames(q0, q1)
        i = {"q0": q0, "q1": q1, "t": t}
        q = S.call("slerp", lambda: g.slerp(q0, q1, t), i)
        S.ok("arguments are not modified", frames(q0, q1) == fr, i)
        S.close("slerp returns a unit quaternion", np.linalg.norm(q), 1.0, 1e-8, i)
        A = -a if a @ b < 0 else a
        # well conditioned angle between unit vectors
        th = 2 * math.atan2(np.linalg.norm(A - b), np.linalg.norm(A + b))
        if th < 1e-7:
            want = A
        else:
            want = (math.sin((1 - t) * th) * A + math.sin(t * th) * b) / math.sin(th)
        err = min(np.linalg.norm(q - want), np.linalg.norm(q + want))
        if abs(a @ b) < 1e-9:       # both arcs are equally short
            B = -A
            w2 = (math.sin((1 - t) * th) * B + math.sin(t * th) * b) / math.sin(th)
            err = min(err, np.linalg.norm(q - w2), np.linalg.norm(q + w2))
        S.ok("slerp lies at angle t theta on the shorter arc", err < 1e-5, i, q, want)
        if n % 10 == 0:
            bad = S.pick([-1e-9, 1 + 1e-9, -1.0, 2.0, 1.5, -0.5, 7, -3])
            S.raises("t outside [0,1] is rejected", lambda: g.slerp(q0, q1, bad), {"q0": q0, "q1": q1, "t": bad})
