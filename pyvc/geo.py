"""Vectors and rotations as terms.

A rotation is a word over rotation symbols: named rotations (with inverses) and rotations about a named axis.
A vector is a linear combination of words applied to named vectors.  Words are kept reduced:
  R R^-1 = 1,   rot(a,s) rot(a,t) = rot(a,s+t),   rot(a,t) a = a,
which are the facts about rotations that the contracts of rot (C02) give.  An inner product <W x, V y> is the scalar
<x, W^-1 V y>, named by its reduced word.  Equalities of vectors given by the contracts of the subproblems are kept as
facts; an equality is proved by writing it as a rational combination of facts multiplied by words (exact linear algebra)."""
import numpy as rnp
from fractions import Fraction
from . import terms as T
from .terms import Re, Unsupported


class GBase:
    __array_ufunc__ = None
    __hash__ = None


UNIT = {"ex", "ey", "ez"}
EXYZ = ("ex", "ey", "ez")


def state():
    return T.CTX.tables.setdefault("geo", {"unit": set(UNIT), "facts": [], "atoms": {}, "syms": {}, "nonpar": {("ex", "ey"), ("ey", "ez"), ("ex", "ez")}})


# ---------------------------------------------------------------- words
def angle(t):
    """angle without full turns"""
    t = Re.of(t.item() if isinstance(t, rnp.ndarray) else t)
    pi = T.CTX.byname.get("pi")
    p = {}
    for m, c in t.p.items():
        c = Fraction(c)
        if c.denominator == 1 and c.numerator % 2 == 0 and (pi, 1) in m and all(i == pi or (T.CTX.atoms[i].isint and e > 0) for i, e in m):
            continue
        p[m] = t.p[m]
    return Re(p)


def sym(axis, t):
    """rotation about a named axis; () for the identity"""
    t = angle(t)
    if not T.pclear(t.p):
        return ()
    k = ("a", axis, t.key())
    state()["syms"][k] = t
    return (k,)


def sinv(s):
    if s[0] == "o":
        return (("o", s[1], -s[2]),)
    return sym(s[1], -state()["syms"][s])


def winv(w):
    out = ()
    for s in reversed(w):
        out += sinv(s)
    return out


def reduce(w):
    out = []
    for s in w:
        if out:
            l = out[-1]
            if s[0] == "o" and l[0] == "o" and s[1] == l[1] and s[2] == -l[2]:
                out.pop()
                continue
            if s[0] == "a" and l[0] == "a" and s[1] == l[1]:
                out.pop()
                out.extend(sym(s[1], state()["syms"][l] + state()["syms"][s]))
                continue
        out.append(s)
    w2 = tuple(out)
    return w2 if w2 == tuple(w) else reduce(w2)


def drop(w, b):
    while w and w[-1][0] == "a" and w[-1][1] == b:
        w = w[:-1]
    return w


# ---------------------------------------------------------------- vectors
def inner1(w1, b1, w2, b2):
    """<w1 b1, w2 b2>"""
    st = state()
    w = reduce(winv(w1) + w2)
    w = drop(w, b2)
    w = winv(drop(winv(w), b1))
    w = drop(reduce(w), b2)
    if not w:
        if b1 == b2:
            if b1 in st["unit"]:
                return Re.const(1)
        elif b1 in EXYZ and b2 in EXYZ:
            return Re.const(0)
    k1, k2 = (b1, w, b2), (b2, winv(w), b1)
    k = min(k1, k2, key=repr)
    if k not in st["atoms"]:
        v = T.var("<%s|%s|%s>" % (k[0], wname(k[1]), k[2]), nonneg=(not w and b1 == b2))
        st["atoms"][k] = v
        (m, c), = v.p.items()
        st.setdefault("names", {})[m[0][0]] = k
        if not w and b1 == b2:
            T.CTX.eng.assume(v >= 0)
    return st["atoms"][k]


def wname(w):
    return ".".join(s[1] + ("" if s[0] == "a" and s[2] else "") + ("~" if s[0] == "o" and s[2] < 0 else "") + ("" if s[0] == "o" else "(%r)" % state()["syms"][s]) for s in w)


class GV(GBase):
    ndim = 1
    shape = (3,)
    size = 3
    dtype = "float64"

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if T.pclear(v.p)}

    @staticmethod
    def base(name, unit=False):
        if unit:
            state()["unit"].add(name)
        return GV({((), name): Re.const(1)})

    def terms(self):
        return self.d.items()

    def __add__(self, o):
        o = vec_of(o)
        d = dict(self.d)
        for k, c in o.d.items():
            d[k] = d[k] + c if k in d else c
        return GV(d)

    __radd__ = __add__

    # in-place operators write through to the array of which the vector is a column
    view_of = None

    def _inplace(self, r):
        if self.view_of is not None:
            a, i = self.view_of
            a.setcol(i, r)
        self.d = r.d
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def scale(self, c):
        c = Re.of(c)
        return GV({k: v * c for k, v in self.d.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-vec_of(o))

    def __rsub__(self, o):
        return vec_of(o) - self

    def __mul__(self, c):
        if isinstance(c, (GBase, rnp.ndarray, list, tuple)):
            raise Unsupported("elementwise product of vectors in the rotation algebra")
        return self.scale(c)

    __rmul__ = __mul__

    def __truediv__(self, c):
        return self.scale(Re.const(1) / Re.of(c))

    def left(self, w):
        """word applied to the vector"""
        d = {}
        for (v, b), c in self.d.items():
            k = (drop(reduce(w + v), b), b)
            d[k] = d[k] + c if k in d else c
        return GV(d)

    def inner(self, o):
        o = vec_of(o)
        s = Re.const(0)
        for (w1, b1), c1 in self.d.items():
            for (w2, b2), c2 in o.d.items():
                s = s + c1 * c2 * inner1(w1, b1, w2, b2)
        return s

    def dot(self, o):
        if isinstance(o, GM):
            return o.T.dot(self)
        return self.inner(o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        return mat_of(o).dot(self) if len(rnp.shape(o)) == 2 else self.inner(o)

    def norm(self):
        n2 = self.inner(self)
        if not n2.isconst:
            T.CTX.eng.assume(n2 >= 0)
        return T.sqrt(n2, check=False)

    def iszero(self):
        if not self.d:
            return T.TRUE
        if len(self.d) == 1:
            (k, c), = self.d.items()
            if k[1] in state()["unit"]:
                return T.lit(c, "=")
        raise Unsupported("whether a combination of vectors is zero")

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (int, float)) and o == 0:
            return GCond(self.iszero(), True)
        return GCond((self - vec_of(o)).iszero(), True)

    def __ne__(self, o):
        if o is None:
            return True
        e = self.__eq__(o)
        return GCond(T.bnot(e.c), False)

    def any(self, axis=None):
        return T.bnot(self.iszero())

    def sum(self, axis=None):
        return self[0] + self[1] + self[2]

    @property
    def T(self):
        return self

    def transpose(self, *a):
        return self

    def copy(self):
        return GV(dict(self.d))

    __copy__ = flatten = copy

    def ravel(self):
        c = self.copy()
        c.view_of = self.view_of
        return c

    squeeze = ravel

    def __deepcopy__(self, memo):
        return self.copy()

    def reshape(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if tuple(s) in ((3,), (-1,)):
            return self.ravel()
        raise Unsupported("reshape in the rotation algebra")

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.inner(GV.base(EXYZ[k]))
        raise Unsupported("index into a vector of the rotation algebra")

    def __len__(self):
        return 3

    def __iter__(self):
        return iter([self[i] for i in range(3)])

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __repr__(self):
        return " + ".join("%r*%s%s" % (c, (wname(w) + " ") if w else "", b) for (w, b), c in self.d.items()) or "0"


class GCond(GBase):
    """elementwise comparison of a vector: all: every element equal / any different"""

    def __init__(self, c, conj):
        self.c, self.conj = c, conj

    def all(self):
        if not self.conj:
            raise Unsupported("all of a disjunction")
        return self.c

    def any(self):
        if self.conj:
            raise Unsupported("any of a conjunction")
        return self.c


def vec_of(x):
    if isinstance(x, GV):
        return x
    if isinstance(x, (int, float)) and x == 0:
        return GV()
    from .npshim import asarr
    a = asarr(x)
    if a.size != 3:
        raise Unsupported("vector in the rotation algebra")
    v = GV()
    for n, c in zip(EXYZ, a.ravel().tolist()):
        v = v + GV({((), n): Re.of(c)})
    return v


class GM(GBase):
    ndim = 2
    shape = (3, 3)
    size = 9
    dtype = "float64"

    def __init__(self, w):
        self.w = reduce(tuple(w))

    @staticmethod
    def named(n):
        return GM((("o", n, 1),))

    @property
    def T(self):
        return GM(winv(self.w))

    def transpose(self, *a):
        return self.T

    def dot(self, o):
        if isinstance(o, GM):
            return GM(self.w + o.w)
        if isinstance(o, GCols):
            return GCols([self.dot(c) for c in o.cols])
        if len(rnp.shape(o)) == 2 and not isinstance(o, GV):
            return self.dot(mat_of(o))
        return vec_of(o).left(self.w)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return mat_of(o).dot(self) if len(rnp.shape(o)) == 2 else self.T.dot(vec_of(o))

    def copy(self):
        return GM(self.w)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            if all(isinstance(i, int) for i in k):
                return GV.base(EXYZ[k[0]]).inner(GV.base(EXYZ[k[1]]).left(self.w))
            if k[0] == slice(None) and isinstance(k[1], int):
                return GV.base(EXYZ[k[1]]).left(self.w)
        raise Unsupported("index into a rotation of the rotation algebra")

    def __repr__(self):
        return "GM(%s)" % wname(self.w)


def mat_of(x):
    if isinstance(x, GM):
        return x
    from .npshim import asarr
    a = asarr(x)
    if a.shape == (3, 3) and all((Re.of(a[i, j]) - (1 if i == j else 0)).isconst and (Re.of(a[i, j]) - (1 if i == j else 0)).cval() == 0 for i in range(3) for j in range(3)):
        return GM(())
    raise Unsupported("matrix in the rotation algebra")


class GCols(GBase):
    """3 x n array whose columns are vectors of the algebra"""
    ndim = 2

    def __init__(self, cols, frozen=False):
        self.cols = list(cols)
        self.frozen = frozen

    @property
    def shape(self):
        return (3, len(self.cols))

    @property
    def size(self):
        return 3 * len(self.cols)

    def copy(self):
        return GCols([c.copy() for c in self.cols])

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def _col(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] in (slice(None), slice(0, 3)):
            k = k[1]
            if isinstance(k, (list, rnp.ndarray)) and len(k) == 1:
                k = k[0]
            if isinstance(k, Re) and k.isconst:
                k = int(k.cval())
            if isinstance(k, (int, rnp.integer)):
                return int(k)
        raise Unsupported("index into an array of columns")

    def _part(self, k):
        """component, row or several columns"""
        if isinstance(k, slice):
            k = (k, slice(None))
        if isinstance(k, (int, rnp.integer)):
            k = (k, slice(None))
        if not (isinstance(k, tuple) and len(k) == 2):
            return None
        k = tuple(int(i.cval()) if isinstance(i, Re) and i.isconst else i for i in k)
        r, c = k
        if isinstance(c, (list, tuple, rnp.ndarray)):
            c = [int(i) for i in c]
        elif isinstance(c, slice):
            c = list(range(*c.indices(len(self.cols))))
        if isinstance(r, slice) and r in (slice(None), slice(0, 3)) and isinstance(c, list):
            return GCols([self.cols[i].copy() for i in c])
        if isinstance(r, (int, rnp.integer)):
            if isinstance(c, (int, rnp.integer)):
                return self.cols[c][int(r)]
            if isinstance(c, list):
                from .npshim import asarr
                return asarr([self.cols[i][int(r)] for i in c])
        return None

    def __getitem__(self, k):
        try:
            i = self._col(k)
        except Unsupported:
            r = self._part(k)
            if r is None:
                raise
            return r
        c = self.cols[i].copy()
        if isinstance(k[1], (int, rnp.integer, Re)):
            c.view_of = (self, i)
        return c

    def __setitem__(self, k, v):
        self.setcol(self._col(k), v)

    def setcol(self, i, v):
        if self.frozen:
            T.CTX.eng.fail("argument not modified", "an array of the robot is written to")
        self.cols[i] = vec_of(v).copy()

    def sum(self, axis=None, **kw):
        if axis in (1, -1):
            r = GV()
            for c in self.cols:
                r = r + c
            return r
        raise Unsupported("sum in the rotation algebra")

    def dot(self, v):
        """linear combination of the columns"""
        from .npshim import asarr
        v = asarr(v).ravel().tolist()
        if len(v) != len(self.cols):
            raise ValueError("shapes not aligned")
        r = GV()
        for c, x in zip(self.cols, v):
            r = r + c.scale(x)
        return r

    __matmul__ = dot

    @property
    def T(self):
        return GRows(self.cols)

    def transpose(self, *a):
        return self.T


class GRows(GBase):
    def __init__(self, cols):
        self.cols = list(cols)

    def __getitem__(self, i):
        return self.cols[i].copy()

    def __iter__(self):
        return iter([c.copy() for c in self.cols])

    def __len__(self):
        return len(self.cols)

    @property
    def T(self):
        return GCols(self.cols)


def rot(k, t):
    """contract of rot: rotation about a unit axis"""
    v = vec_of(k)
    if len(v.d) == 1:
        ((w, b), c), = v.d.items()
        if b in state()["unit"] and c.isconst and abs(c.cval()) == 1:
            # rot(W b, t) = W rot(b, t) W^-1
            return GM(w + sym(b, Re.of(c) * angle(t)) + winv(w))
    raise Unsupported("rotation about a vector that is not known to be a unit axis")


# ---------------------------------------------------------------- numpy
def has(xs, depth=2):
    for x in xs:
        if isinstance(x, GBase):
            return True
        if depth and isinstance(x, (list, tuple)) and has(x, depth - 1):
            return True
    return False


def call(name, a, k):
    if name in ("dot", "matmul", "inner", "vdot"):
        x, y = a
        if isinstance(x, (GV, GM, GCols)):
            return x.dot(y)
        if len(rnp.shape(x)) == 2:
            return mat_of(x).dot(y)
        if isinstance(y, GM):
            return y.T.dot(vec_of(x))
        return vec_of(x).dot(y)
    if name in ("copy", "array", "asarray", "ascontiguousarray", "squeeze", "ravel"):
        x = a[0]
        if isinstance(x, (list, tuple)):
            return GRows([vec_of(c) for c in x])
        return x.copy() if name != "asarray" else x
    if name == "transpose":
        return a[0].T
    if name == "add":
        return vec_of(a[0]) + vec_of(a[1])
    if name == "subtract":
        return vec_of(a[0]) - vec_of(a[1])
    if name == "negative":
        return -a[0]
    if name == "sum":
        x = a[0]
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        if isinstance(x, (list, tuple)) and ax == 0:
            r = GV()
            for c in x:
                r = r + vec_of(c)
            return r
        return x.sum(axis=ax)
    if name == "multi_dot":
        import functools
        return functools.reduce(lambda x, y: call("matmul", (x, y), {}), a[0])
    if name in ("all", "any") and isinstance(a[0], GV):
        return a[0].any() if name == "any" else T.band([T.lit(x, "!=") for x in a[0]])
    if name == "multiply":
        return a[0] * a[1]
    if name == "divide":
        return a[0] / a[1]
    if name in ("all", "any"):
        return getattr(a[0], name)()
    if name == "norm":
        if k.get("axis") is None and isinstance(a[0], GV):
            return a[0].norm()
    if name == "reshape":
        return a[0].reshape(a[1])
    if name == "hstack":
        return GCols(a[0])
    if name == "column_stack":
        return GCols([vec_of(x) for x in a[0]])
    if name == "shape":
        return a[0].shape
    if name == "not_equal":
        return a[0] != a[1]
    if name == "equal":
        return a[0] == a[1]
    raise Unsupported("numpy.%s in the rotation algebra" % name)


# ---------------------------------------------------------------- proofs
def fact(v):
    """the vector v is zero"""
    if v.d:
        state()["facts"].append(v)


def span(goal, rows):
    """is goal a rational combination of rows (dicts key -> Fraction)?"""
    piv = []

    def red(r):
        r = dict(r)
        for k, p in piv:
            c = r.get(k)
            if c:
                for kk, cc in p.items():
                    x = r.get(kk, 0) - c * cc
                    if x:
                        r[kk] = x
                    else:
                        r.pop(kk, None)
        return r
    for r in rows:
        r = red(r)
        if not r:
            continue
        k = min(r, key=repr)
        c = r[k]
        r = {kk: cc / c for kk, cc in r.items()}
        # keep earlier pivots reduced
        new = []
        for k0, p in piv:
            c0 = p.get(k)
            if c0:
                p = dict(p)
                for kk, cc in r.items():
                    x = p.get(kk, 0) - c0 * cc
                    if x:
                        p[kk] = x
                    else:
                        p.pop(kk, None)
            new.append((k0, p))
        piv = new + [(k, r)]
    return not red(goal)


def flat(v):
    out = {}
    for k, c in v.d.items():
        for m, x in c.p.items():
            out[(k, m)] = Fraction(x)
    return out


def prove_vector(v, depth=3, limit=400):
    """v = 0 from the facts"""
    if not v.d:
        return True, "rotation algebra"
    cands, seen, todo = [], set(), [v]
    eqs = [c.a.p for c in T.CTX.eng.path if c.op == "lit" and c.b == "=" and len(c.a.p) <= 2]
    for _ in range(depth):
        nxt = []
        for u in todo:
            for (w, b), c0 in list(u.d.items()):
                for f in state()["facts"]:
                    for (fv, fb), fc in list(f.d.items()):
                        if fb != b:
                            continue
                        g = f.left(w + winv(fv))
                        for h in [g] + ([g.scale(c0)] if not c0.isconst and fc.isconst else []):
                            key = tuple(sorted((repr(k), c.key()) for k, c in h.d.items()))
                            if key in seen or len(cands) >= limit:
                                continue
                            seen.add(key)
                            cands.append(h)
                            nxt.append(h)
        todo = nxt
        rows = [flat(c) for c in cands]
        keys = set(k for c in cands + [v] for k in c.d)
        for p in eqs:
            rows += [{(k, m): Fraction(x) for m, x in p.items()} for k in keys]
        if span(flat(v), rows):
            return True, "rotation algebra (facts of callees)"
    return False, "not a combination of the facts: %r" % v


def prove_scalar(x, depth=2, limit=400):
    """x = 0 from scalar equalities on the path and inner products of the vector facts"""
    x = Re.of(x)
    eng = T.CTX.eng
    if not T.pclear(x.p):
        return True, "rotation algebra"
    eqs = [c.a.p for c in eng.path if c.op == "lit" and c.b == "="]
    rows = [{m: Fraction(c) for m, c in p.items()} for p in eqs]
    goal = {m: Fraction(c) for m, c in x.p.items()}
    if span(goal, rows):
        return True, "rotation algebra (facts of callees)"
    st = state()
    seen, polys = set(), [x.p] + eqs
    n = 0
    for _ in range(depth):
        new = []
        for p in polys:
            for i in T.patoms(p):
                k = st.get("names", {}).get(i)
                if k is None or i in seen:
                    continue
                seen.add(i)
                for b1, w, b2 in (k, (k[2], winv(k[1]), k[0])):
                    for f in st["facts"]:
                        for (fv, fb) in list(f.d):
                            if fb == b1 and n < limit:
                                n += 1
                                r = f.inner(GV({((), b2): Re.const(1)}).left(fv + w))
                                new.append(r.p)
        rows += [{m: Fraction(c) for m, c in p.items()} for p in new]
        if span(goal, rows):
            return True, "rotation algebra (facts of callees)"
        polys = new
    return False, "not a combination of the facts: %r" % x


def prove_rotation(A, B):
    """A = B: syntactically, or because they agree on two vectors that are not parallel (lemma: agreeing rotations)"""
    if A.w == B.w:
        return True, "rotation algebra"
    det = ""
    for (u, v) in sorted(state()["nonpar"]):
        ok = True
        for b in (u, v):
            x = GV({((), b): Re.const(1)})
            r, d = prove_vector(x.left(A.w) - x.left(B.w))
            if not r:
                det = d
                ok = False
                break
        if ok:
            return True, "rotation algebra (lemma: agreeing rotations)"
    return False, det


def ensure(e, label, res):
    ok, d = res
    e._record(label, "discharged" if ok else "failed", d if ok else "rotation algebra", 0, "" if ok else d)
    return ok
