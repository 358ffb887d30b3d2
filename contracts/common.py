"""Vocabulary of the contracts: symbolic inputs and the mathematical specification
functions (written from the definitions, independently of the code in /repo)."""
import numpy as rnp
from fractions import Fraction
from pyvc import terms as T, npshim, seqs as S
from pyvc.terms import Re, Bo, var, band, bor, bnot, implies
from pyvc.npshim import SArr, asarr, mk, NP
from pyvc.load import Loader

F = Fraction


# ---------------------------------------------------------------- inputs
def arr(x):
    """contract value: float array"""
    a = asarr(x).copy()
    a.kind = "f"
    return a


def vec(name, n=3):
    return arr([var("%s%d" % (name, i)) for i in range(n)])


def mat(name, r, c):
    return arr([[var("%s%d%d" % (name, i, j)) for j in range(c)] for i in range(r)])


def unit(name, n=3):
    """a unit vector: the square of the last component is eliminated"""
    xs = [var("%s%d" % (name, i)) for i in range(n)]
    a = T.CTX.atoms[T.CTX.byname["%s%d" % (name, n - 1)]]
    a.kind = "unit"
    sq = Re.const(1)
    for x in xs[:-1]:
        sq = sq - x * x
    a.sq = sq.p
    a.group = name
    for x in xs[:-1]:
        (m, c), = x.p.items()
        T.CTX.atoms[m[0][0]].group = name
        T.CTX.atoms[m[0][0]].facts.append(("fact", sq >= 0))
    return arr(xs)


def qrot(q):
    """rotation matrix of a unit quaternion, entry by entry"""
    w, x, y, z = [Re.of(q[i]) for i in range(4)]
    return arr([[w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)],
                [2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)],
                [2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z]])


def rotmat(name):
    """an arbitrary rotation matrix (every rotation is that of a unit quaternion)"""
    q = unit(name, 4)
    return qrot(q), q


# ---------------------------------------------------------------- specification functions
def cross(a, b):
    return arr([a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]])


def dot(a, b):
    s = Re.const(0)
    for i in range(len(a)):
        s = s + Re.of(a[i]) * Re.of(b[i])
    return s


def hat(k):
    x, y, z = [Re.of(k[i]) for i in range(3)]
    return arr([[0, -z, y], [z, 0, -x], [-y, x, 0]])


def eye(n=3):
    return arr([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def mm(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = NP.matmul(r, m)
    return r


def rodrigues(k, c, s):
    """c I + (1-c) k k^T + s hat(k)"""
    c, s = Re.of(c), Re.of(s)
    K = hat(k)
    return arr([[(c if i == j else 0) + (1 - c) * Re.of(k[i]) * Re.of(k[j]) + s * K[i, j] for j in range(3)] for i in range(3)])


def rot(k, th):
    c, s = T.cossin(Re.of(th))
    return rodrigues(k, c, s)


def qmul(p, q):
    """Hamilton product"""
    a, b, c, d = [Re.of(p[i]) for i in range(4)]
    e, f, g, h = [Re.of(q[i]) for i in range(4)]
    return arr([a*e - b*f - c*g - d*h, a*f + b*e + c*h - d*g, a*g - b*h + c*e + d*f, a*h + b*g - c*f + d*e])


def transpose(m):
    return m.T.copy()


def eqs(a, b):
    """entrywise equalities"""
    if isinstance(a, (Re, int, float)) or isinstance(b, (Re, int, float)):
        return [T.lit(Re.of(a) - Re.of(b), "=")]
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return [T.FALSE]
    return [T.lit(Re.of(x) - Re.of(y), "=") for x, y in zip(a.ravel().tolist(), b.ravel().tolist())]


def shape_is(x, s):
    return isinstance(x, rnp.ndarray) and x.shape == s


def is_rotation(R):
    """orthonormal with determinant +1"""
    I = eye()
    d = NP.linalg.det(R)
    return eqs(mm(R, R.T), I) + [T.lit(d - 1, "=")]


def close(a, b, tol):
    """|a-b| <= tol entrywise"""
    a, b = asarr(a), asarr(b)
    out = []
    for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
        d = Re.of(x) - Re.of(y)
        out += [d <= tol, -d <= tol]
    return out


# ---------------------------------------------------------------- argument forms
def forms(e, v, kinds=("list", "array", "column")):
    """the ways a caller may pass a vector; every one is verified"""
    k = kinds[e.choose(len(kinds))]
    if k == "list":
        return [x for x in v.tolist()]
    if k == "tuple":
        return tuple(v.tolist())
    if k == "column":
        return v.reshape((len(v), 1)).copy()
    return v.copy()


class Snapshot:
    """frame condition: arguments are not written to"""

    def __init__(self, *args):
        self.args = args
        self.old = [self._copy(a) for a in args]

    @staticmethod
    def _copy(a):
        if isinstance(a, rnp.ndarray):
            return a.copy()
        if isinstance(a, list):
            return list(a)
        return a

    def ensure(self, e, label="frame: arguments are not modified"):
        ok = True
        for a, o in zip(self.args, self.old):
            if isinstance(a, rnp.ndarray):
                ok = ok and a.shape == o.shape and all(x is y or (isinstance(x, Re) and isinstance(y, Re) and x.key() == y.key())
                                                       for x, y in zip(a.ravel().tolist(), o.ravel().tolist()))
            elif isinstance(a, list):
                ok = ok and len(a) == len(o) and all(x is y for x, y in zip(a, o))
        e.check(label, ok, "an argument was written to")


def load(e, stubs=None):
    """fresh module objects from the current source of /repo"""
    return Loader(e, stubs)


def G(e):
    return load(e).module("general_robotics_toolbox")


def I(e, stubs=None):
    return load(e, stubs).module("general_robotics_toolbox_invkin")


def returned(e, f, *a, **k):
    """calls f; any exception is a failed obligation"""
    return f(*a, **k)


def raises(e, label, f, exc=Exception):
    from pyvc.engine import PathEnd, Infeasible
    try:
        f()
    except (T.Unsupported, T.NeedScale, PathEnd, Infeasible):
        raise
    except exc as x:
        if isinstance(x, T.Unsupported):
            raise
        e.check(label, True)
        return True
    e.check(label, False, "no error was raised")
    return False


# ---------------------------------------------------------------- inputs of symbolic size
def memo(name, mkv):
    """function of an index: one symbolic value per distinct index"""
    def f(j):
        t = T.CTX.tables.setdefault("memo:" + name, {})
        k = Re.of(j).key()
        if k not in t:
            # an index known to be equal to one already used names the same element
            for k0, (j0, v) in list(t.items()):
                d = Re.of(j) - Re.of(j0)
                if not d.isconst and T.CTX.eng.quick_known(T.lit(d, "=")):
                    t[k] = (j, v)
                    return v
            t[k] = (j, mkv("%s[%r]" % (name, Re.of(j))))
        return t[k][1]
    return f


def size(name="N"):
    n = var(name, isint=True, nonneg=True)
    return n


def intvar(name):
    return var(name, isint=True)


def same_seq(e, label, a, b, n):
    """a and b hold the same elements (at an arbitrary index)"""
    if a is b:
        e.check(label, True)
        return
    from pyvc.load import b_len
    e.skolems += 1
    g = var("#sk%d" % e.skolems, isint=True)
    try:
        la = b_len(a)
    except TypeError:
        e.check(label, False, "not a sequence: %r" % (a,))
        return
    goals = [T.lit(Re.of(la) - Re.of(n), "=")]
    x, y = a.get(g), b.get(g)
    goals += eqs(x, y)
    e.ensure_all(label, goals)
