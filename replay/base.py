"""Concrete replay of the contracts on the real code: directed inputs with independent numeric oracles.

Runs under the interpreter of the repository (numpy, urdf_parser_py, tesseract_robotics).  Used for two
things: to find a failing input when a proof obligation fails, and to replay it on the code in /repo."""
import os, sys, math, json, time, random, itertools, warnings, copy
import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Found(Exception):
    def __init__(self, label, inputs, observed, expected):
        self.label, self.inputs, self.observed, self.expected = label, inputs, observed, expected


def show(x):
    if isinstance(x, np.ndarray):
        return {"ndarray": x.tolist(), "dtype": str(x.dtype)}
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in x.items()}
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if hasattr(x, "R") and hasattr(x, "p"):
        return {"R": show(x.R), "p": show(x.p), "parent": getattr(x, "parent_frame_id", None), "child": getattr(x, "child_frame_id", None)}
    if hasattr(x, "H") and hasattr(x, "P"):
        return {k: show(v) for k, v in vars(x).items() if v is not None}
    return repr(x)[:2000]


class Search:
    def __init__(self, seed, seconds, scale=1):
        self.rng = np.random.default_rng(seed)
        self.t0 = time.time()
        self.seconds = seconds
        self.scale = scale
        self.n = 0
        self.labels = {}

    def loop(self, n):
        """a fixed number of cases (so that runs are repeatable), capped by time"""
        for i in range(n * self.scale):
            if i > 20 and time.time() - self.t0 > self.seconds:
                return
            yield i

    def ok(self, label, cond, inputs, observed=None, expected=None):
        self.n += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(cond):
            raise Found(label, inputs, observed, expected)

    def close(self, label, a, b, tol, inputs):
        """entrywise |a-b| <= tol; shapes must agree and everything must be finite"""
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception:
            raise Found(label, inputs, a, b)
        good = x.shape == y.shape and bool(np.all(np.isfinite(x))) and bool(np.all(np.abs(x - y) <= tol))
        self.ok(label, good, inputs, a, b)

    def call(self, label, f, inputs):
        """the call must return"""
        try:
            return f()
        except Exception as ex:
            raise Found(label + " returns without error", inputs, "%s: %s" % (type(ex).__name__, ex), "a result")

    def raises(self, label, f, inputs, exc=Exception):
        try:
            r = f()
        except exc:
            self.ok(label, True, inputs)
            return
        except Exception as ex:
            raise Found(label, inputs, "%s: %s" % (type(ex).__name__, ex), exc.__name__)
        raise Found(label, inputs, r, "an error")

    # ------------------------------------------------------------ inputs
    def vec(self, n=3, scale=1.0):
        r = self.rng
        c = r.integers(6)
        v = r.normal(size=n) * scale
        if c == 0:
            v = v * (r.random(n) < 0.5)
        elif c == 1:
            v = v * 10.0 ** r.integers(-8, 3)
        elif c == 2:
            v = v * 10.0 ** r.integers(-9, 1, size=n)
        elif c == 3:
            v = np.eye(n)[r.integers(n)] * r.choice([-1.0, 1.0]) * scale
        return v

    def unit(self, n=3):
        while True:
            v = self.vec(n)
            m = np.max(np.abs(v))
            if m > 0:
                v = v / m
                v = v / np.linalg.norm(v)
                return v

    def perp(self, k):
        """unit vector perpendicular to k"""
        while True:
            v = np.cross(k, self.rng.normal(size=3))
            if np.linalg.norm(v) > 1e-2:
                v = v - k * (k @ v)
                return v / np.linalg.norm(v)

    def angle(self, full=math.pi):
        r = self.rng
        c = r.integers(8)
        if c == 0:
            return float(r.choice([0, 0.5, 1, -0.5, -1])) * math.pi
        if c == 1:
            return float(r.choice([0, 0.5, 1, -0.5, -1])) * math.pi + float(r.choice([-1, 1])) * 10.0 ** float(r.uniform(-13, -1))
        if c == 2:
            return float(r.uniform(-4 * full, 4 * full))
        return float(r.uniform(-full, full))

    def rotation(self):
        return rod(self.unit(), self.angle())

    def form(self, v, kinds=("list", "array", "column", "intlist")):
        """the same vector as list, array or column; integers where the values allow it"""
        k = kinds[self.rng.integers(len(kinds))]
        if k == "column":
            return np.array(v).reshape((-1, 1))
        if k == "list":
            return [float(x) for x in v]
        if k == "tuple":
            return tuple(float(x) for x in v)
        if k == "intlist":
            if np.all(np.asarray(v) == np.round(v)):
                return [int(x) for x in v] if self.rng.random() < 0.5 else np.array(v).astype(int)
            return [float(x) for x in v]
        return np.array(v, dtype=float)

    def pick(self, xs):
        return xs[self.rng.integers(len(xs))]

    def flip(self, p=0.5):
        return bool(self.rng.random() < p)


# ---------------------------------------------------------------- independent oracles
def hatm(k):
    x, y, z = [float(np.asarray(a).reshape(-1)[0]) for a in k]
    return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])


def rod(k, t):
    k = np.asarray(k, dtype=float).reshape(3)
    c, s = math.cos(t), math.sin(t)
    return c * np.eye(3) + (1 - c) * np.outer(k, k) + s * hatm(k)


def qR(q):
    w, x, y, z = [float(a) for a in q]
    return np.array([[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
                     [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
                     [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]])


def qmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return np.array([a*e - b*f - c*g - d*h, a*f + b*e + c*h - d*g, a*g - b*h + c*e + d*f, a*h + b*g - c*f + d*e])


def frames(*args):
    """bitwise copies of arguments"""
    return [freeze(a) for a in args]


def freeze(a):
    if isinstance(a, np.ndarray):
        return ("nd", a.shape, str(a.dtype), a.tobytes()) if a.dtype != object else ("nd", a.shape, [freeze(x) for x in a.ravel().tolist()])
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [freeze(x) for x in a])
    if isinstance(a, dict):
        return ("dict", [(k, freeze(v)) for k, v in a.items()])
    if hasattr(a, "__dict__") and not callable(a):
        return ("obj", [(k, freeze(v)) for k, v in sorted(vars(a).items())])
    if isinstance(a, float):
        return ("f", repr(a))
    return ("v", repr(a))


def import_g():
    import general_robotics_toolbox as g
    return g


def import_i():
    from general_robotics_toolbox import general_robotics_toolbox_invkin as i
    return i


def mat_h(R, p):
    M = np.eye(4)
    M[:3, :3] = R
    M[:3, 3] = np.asarray(p, dtype=float).reshape(3)
    return M


def T4(T):
    return mat_h(T.R, T.p)


def fk(robot, th, aux=True):
    """product of exponentials, 4x4, written from the definition"""
    H, P = np.asarray(robot.H, dtype=float), np.asarray(robot.P, dtype=float)
    M = mat_h(np.eye(3), P[:, 0])
    for i in range(H.shape[1]):
        h = H[:, i]
        if robot.joint_type[i] in (0, 2):
            M = M @ mat_h(rod(h / np.linalg.norm(h), float(np.asarray(th[i]).reshape(-1)[0])), [0, 0, 0])
        else:
            M = M @ mat_h(np.eye(3), h * float(np.asarray(th[i]).reshape(-1)[0]))
        M = M @ mat_h(np.eye(3), P[:, i + 1])
    if not aux:
        return M
    if robot.T_flange is not None:
        M = M @ T4(robot.T_flange)
    if robot.R_tool is not None and robot.p_tool is not None:
        M = M @ mat_h(robot.R_tool, robot.p_tool)
    if robot.T_base is not None:
        M = T4(robot.T_base) @ M
    return M


def transform(S, g, frame=False):
    R = S.rotation()
    p = S.vec()
    return g.Transform(R, p, "a", "b") if frame else g.Transform(R, p)


def aux(S, g, kw=None, none=0.4):
    """random presence of tool, flange and base"""
    kw = {} if kw is None else kw
    if not S.flip(none):
        kw["T_flange"] = transform(S, g)
    if not S.flip(none):
        kw["R_tool"] = S.rotation()
        kw["p_tool"] = S.vec() if S.flip() else S.vec().reshape(3)
    if not S.flip(none):
        kw["T_base"] = transform(S, g)
    return kw


def chain(S, g, n=None, types=(0, 1), limits=None, with_aux=True, names=False):
    n = int(S.rng.integers(1, 8)) if n is None else n
    H = np.array([S.unit() for _ in range(n)]).T.reshape(3, n)
    P = np.array([S.vec() if S.flip(0.8) else np.zeros(3) for _ in range(n + 1)]).T.reshape(3, n + 1)
    jt = [int(S.pick(types)) for _ in range(n)]
    kw = aux(S, g) if with_aux else {}
    if limits is None:
        limits = S.flip()
    if limits:
        kw["joint_lower_limit"] = -S.rng.uniform(0.1, 6, size=n)
        kw["joint_upper_limit"] = S.rng.uniform(0.1, 6, size=n)
    if S.flip():
        jt = np.array(jt)
    if names:
        kw["joint_names"] = ["j%d" % i for i in range(n)]
        kw["root_link_name"] = "root"
        kw["tip_link_name"] = "tip"
    return g.Robot(H, P, jt, **kw)


def joints(S, robot):
    n = len(robot.joint_type)
    if robot.joint_lower_limit is not None:
        lo, up = np.asarray(robot.joint_lower_limit, dtype=float), np.asarray(robot.joint_upper_limit, dtype=float)
        t = S.rng.random(n)
        if S.flip(0.2):
            t = np.round(t)
        return np.clip(lo + t * (up - lo), lo, up)
    return np.array([S.angle() for _ in range(n)])
