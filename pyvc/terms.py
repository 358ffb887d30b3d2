"""Exact symbolic reals.

A value is a Laurent polynomial with rational coefficients over *atoms*.  Atoms
carry definitional rewrite rules, applied eagerly, so that two values that are
equal modulo the rules get the same normal form:

  rule 'sq'   a**2 -> poly      (square roots, sines, last component of a unit vector)
  rule 'def'  a    -> poly      (named denominators; only negative powers are kept)

The context (atom table) is reset for every explored path.
"""
from fractions import Fraction
import math


class Unsupported(Exception):
    """The verifier has no rule for this construct (=> the obligation is not discharged)."""


class NeedScale(Exception):
    def __init__(self, key, scale):
        self.key, self.scale = key, scale


class Atom:
    __slots__ = ("id", "name", "kind", "sq", "defn", "nonneg", "nonzero", "info", "isint", "lo", "hi", "facts", "deps", "group")

    def __init__(self, id, name, kind):
        self.id, self.name, self.kind = id, name, kind
        self.sq = None
        self.defn = None
        self.nonneg = False
        self.nonzero = False
        self.info = None
        self.isint = False
        self.lo = self.hi = None
        self.facts = []
        self.deps = ()
        self.group = None


class Ctx:
    def __init__(self):
        self.atoms = []
        self.byname = {}
        self.redcache = {}
        self.tables = {}
        self.sqrt_hints = []
        self.eng = None

    def atom(self, name, kind="var"):
        if name in self.byname:
            return self.atoms[self.byname[name]]
        a = Atom(len(self.atoms), name, kind)
        self.atoms.append(a)
        self.byname[name] = a.id
        return a


CTX = Ctx()


def reset():
    global CTX
    CTX = Ctx()
    return CTX


def ctx():
    return CTX


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def reducible(m):
    atoms = CTX.atoms
    for i, e in m:
        a = atoms[i]
        if a.sq is not None and e >= 2:
            return True
        if a.defn is not None and e >= 1:
            return True
    return False


def reduce_mono(m):
    """dict for the normal form of monomial m"""
    r = CTX.redcache.get(m)
    if r is not None:
        return r
    atoms = CTX.atoms
    # highest atom first: rules refer to older atoms
    for idx in range(len(m) - 1, -1, -1):
        i, e = m[idx]
        a = atoms[i]
        if a.defn is not None and e >= 1:
            rest = m[:idx] + (((i, e - 1),) if False else ()) + m[idx + 1:]
            t = {rest: 1} if not reducible(rest) else reduce_mono(rest)
            p = t
            for _ in range(e):
                p = pmul(p, a.defn)
            CTX.redcache[m] = p
            return p
        if a.sq is not None and e >= 2:
            rest = m[:idx] + (((i, 1),) if e % 2 else ()) + m[idx + 1:]
            p = {rest: 1} if not reducible(rest) else reduce_mono(rest)
            for _ in range(e // 2):
                p = pmul(p, a.sq)
            CTX.redcache[m] = p
            return p
    return {m: 1}


def padd(a, b, kb=1):
    if len(b) > len(a) and kb == 1:
        a, b = b, a
    out = dict(a)
    for m, c in b.items():
        v = out.get(m)
        if v is None:
            out[m] = c if kb == 1 else _norm(c * kb)
        else:
            v = v + (c if kb == 1 else c * kb)
            if v:
                out[m] = _norm(v)
            else:
                del out[m]
    return out


LIMIT = 400000


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT * 10:
        raise Unsupported("polynomial too large (%d x %d terms)" % (len(a), len(b)))
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if reducible(m):
                for m3, c3 in reduce_mono(m).items():
                    v = out.get(m3, 0) + c * c3
                    if v:
                        out[m3] = _norm(v)
                    elif m3 in out:
                        del out[m3]
            else:
                v = out.get(m, 0) + c
                if v:
                    out[m] = _norm(v)
                elif m in out:
                    del out[m]
    if len(out) > LIMIT:
        raise Unsupported("polynomial too large")
    return out


def pscale(a, k):
    if not k:
        return {}
    return {m: _norm(c * k) for m, c in a.items()}


def pkey(p):
    return tuple(sorted(p.items()))


def patoms(p):
    s = set()
    for m in p:
        for i, e in m:
            s.add(i)
    return s


def pclear(p):
    """Multiply by non-zero atoms until no negative exponent is left; returns normal form.
    Only the zero set is preserved."""
    for _ in range(60):
        mins = {}
        for m in p:
            for i, e in m:
                if e < 0 and e < mins.get(i, 0):
                    mins[i] = e
        if not mins:
            return p
        # clear the youngest atom first
        i = max(mins)
        fac = ((i, -mins[i]),)
        # two steps so that the defn/sq reductions see the full positive powers
        out = {}
        for m, c in p.items():
            mm = mono_mul(m, fac)
            if reducible(mm):
                for m3, c3 in reduce_mono(mm).items():
                    v = out.get(m3, 0) + c * c3
                    if v:
                        out[m3] = _norm(v)
                    elif m3 in out:
                        del out[m3]
            else:
                v = out.get(mm, 0) + c
                if v:
                    out[mm] = _norm(v)
                elif mm in out:
                    del out[mm]
        p = out
        if not p:
            return p
    return p


def frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return _norm(Fraction(x))
    if isinstance(x, Fraction):
        return _norm(x)
    return None


class Re:
    """symbolic real"""
    __slots__ = ("p", "_k", "nn")       # nn: not negative in floating point too, by the way it was computed
    __hash__ = None

    def __init__(self, p, nn=False):
        self.p = p
        self._k = None
        self.nn = nn

    @property
    def notneg(self):
        if self.nn:
            return True
        c = self.cval()
        return c is not None and c >= 0

    # -- construction
    @staticmethod
    def const(c):
        c = frac(c)
        return Re({(): c} if c else {})

    @staticmethod
    def of(x):
        if isinstance(x, Re):
            return x
        if isinstance(x, Bo):
            return x.toint()
        f = frac(x)
        if f is None:
            try:
                import numpy as _np
                if isinstance(x, _np.ndarray) and x.shape == ():
                    return Re.of(x.item())
                if isinstance(x, (_np.floating, _np.integer, _np.bool_)):
                    f = frac(x.item())
            except ImportError:
                pass
        if f is None:
            return None
        return Re({(): f} if f else {})

    def key(self):
        if self._k is None:
            self._k = pkey(self.p)
        return self._k

    @property
    def isconst(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def cval(self):
        return self.p.get((), 0) if self.isconst else None

    @property
    def isint(self):
        for m, c in self.p.items():
            if type(c) is Fraction:
                return False
            for i, e in m:
                if e < 0 or not CTX.atoms[i].isint:
                    return False
        return True

    # -- arithmetic
    def __add__(self, o):
        o = _co(o)
        return o if o is NotImplemented else Re(padd(self.p, o.p), self.notneg and o.notneg)
    __radd__ = __add__

    def __sub__(self, o):
        o = _co(o)
        return o if o is NotImplemented else Re(padd(self.p, o.p, -1))

    def __rsub__(self, o):
        o = _co(o)
        return o if o is NotImplemented else Re(padd(o.p, self.p, -1))

    def __mul__(self, o):
        if isinstance(o, list) and len(o) == 1 and self.isint and not self.isconst:
            from . import seqs                      # [x] * n
            x = o[0]
            return seqs.VList(self, lambda j: x)
        o = _co(o)
        return o if o is NotImplemented else Re(pmul(self.p, o.p), self is o or self.notneg and o.notneg or self.p == o.p)
    __rmul__ = __mul__

    def __neg__(self):
        return Re(pscale(self.p, -1))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        r = self * inverse(o)
        if self.notneg and o.notneg and not r.nn:
            r = Re(r.p, True)
        return r

    def __rtruediv__(self, o):
        o = _co(o)
        if o is NotImplemented:
            return o
        return o * inverse(self)

    def __pow__(self, e):
        e = Re.of(e)
        if e is None or not e.isconst:
            raise Unsupported("symbolic exponent")
        e = e.cval()
        if e == Fraction(1, 2):
            return sqrt(self)
        if type(e) is not int:
            raise Unsupported("fractional exponent")
        r = Re.const(1)
        for _ in range(abs(e)):
            r = r * self
        if e % 2 == 0:
            r = Re(r.p, True)
        return r if e >= 0 else inverse(r)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(Re.of(o) / self)

    def __mod__(self, o):
        return self - o * floor(self / o)

    def __rmod__(self, o):
        return Re.of(o) % self

    def __divmod__(self, o):
        f = floor(self / o)
        return f, self - o * f

    # -- comparisons
    def __lt__(self, o):
        o = _co(o)
        return o if o is NotImplemented else lit(self - o, "<")

    def __le__(self, o):
        o = _co(o)
        return o if o is NotImplemented else lit(self - o, "<=")

    def __gt__(self, o):
        o = _co(o)
        return o if o is NotImplemented else lit(o - self, "<")

    def __ge__(self, o):
        o = _co(o)
        return o if o is NotImplemented else lit(o - self, "<=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        o = _co(o)
        return o if o is NotImplemented else lit(self - o, "=")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        o = _co(o)
        return o if o is NotImplemented else lit(self - o, "!=")

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        return absv(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic value reached native code")

    def __index__(self):
        if self.isconst and type(self.cval()) is int:
            return self.cval()
        raise Unsupported("symbolic index reached native code")

    def __int__(self):
        return self.__index__()

    def __round__(self, n=0):
        raise Unsupported("round")

    # numpy object-array hooks
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def sqrt(self): return sqrt(self)
    def arctan2(self, o): return atan2(self, o)
    def arccos(self): return acos(self)
    def arcsin(self): return asin(self)
    def conjugate(self): return self
    def fabs(self): return absv(self)
    def item(self): return self
    def flatten(self):
        raise AttributeError("flatten")
    @property
    def real(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def T(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def tolist(self): return self
    def is_integer(self): return self.isint

    def __repr__(self):
        return pstr(self.p)

    def __format__(self, spec):
        if spec and not (spec == "d" and self.isint):
            raise Unsupported("format of a symbolic number: " + spec)
        return pstr(self.p, 1000)
    __str__ = __repr__


def pstr(p, limit=12):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items())[:limit]:
        s = "*".join(CTX.atoms[i].name + ("" if e == 1 else "^%d" % e) for i, e in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            cs = str(c)
            if len(cs) > 12:
                cs = "%.6g" % float(c)
            out.append("%s*%s" % (cs, s))
    if len(p) > limit:
        out.append("...(%d terms)" % len(p))
    return " + ".join(out)


def _co(o):
    if isinstance(o, Re):
        return o
    if isinstance(o, Bo):
        return o.toint()
    f = frac(o)
    if f is not None:
        return Re({(): f} if f else {})
    import numpy as _np
    if isinstance(o, _np.ndarray):
        return NotImplemented
    if isinstance(o, (_np.floating, _np.integer, _np.bool_)):
        return Re.const(o.item())
    return NotImplemented


def var(name, isint=False, nonneg=False, nonzero=False):
    a = CTX.atom(name)
    a.isint = isint
    a.nonneg = nonneg
    a.nonzero = nonzero
    return Re({((a.id, 1),): 1})


def of_atom(a):
    return Re({((a.id, 1),): 1})


def PI():
    a = CTX.atom("pi", "pi")
    a.nonneg = a.nonzero = True
    return of_atom(a)


# ---------------------------------------------------------------- booleans
class Bo:
    """symbolic boolean: op in const, lit, and, or, not, atom"""
    __slots__ = ("op", "a", "b")
    __hash__ = None

    def __init__(self, op, a=None, b=None):
        self.op, self.a, self.b = op, a, b

    def key(self):
        if self.op == "lit":
            return ("lit", self.b, self.a.key())
        if self.op in ("and", "or"):
            return (self.op,) + tuple(sorted((x.key() for x in self.a), key=repr))
        if self.op == "not":
            return ("not", self.a.key())
        return (self.op, self.a)

    def __bool__(self):
        if self.op == "const":
            return self.a
        return CTX.eng.decide(self)

    def __and__(self, o):
        o = bo(o)
        return o if o is NotImplemented else band([self, o])
    __rand__ = __and__

    def __or__(self, o):
        o = bo(o)
        return o if o is NotImplemented else bor([self, o])
    __ror__ = __or__

    def __xor__(self, o):
        o = bo(o)
        return band([bor([self, o]), bnot(band([self, o]))])

    def __invert__(self):
        return bnot(self)

    def logical_not(self):
        return bnot(self)

    def logical_and(self, o):
        return band([self, bo(o)])

    def logical_or(self, o):
        return bor([self, bo(o)])

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return bnot(self)
        o = bo(o)
        if o is NotImplemented:
            return o
        return bor([band([self, o]), band([bnot(self), bnot(o)])])

    def __ne__(self, o):
        return bnot(self == o)

    def toint(self):
        return Re.const(1 if bool(self) else 0)

    def __add__(self, o): return self.toint() + o
    __radd__ = __add__
    def __mul__(self, o): return self.toint() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.toint() < o
    def __gt__(self, o): return self.toint() > o
    def __int__(self): return int(bool(self))
    def all(self): return self
    def any(self): return self
    def item(self): return self

    def __repr__(self):
        if self.op == "const":
            return str(self.a)
        if self.op == "lit":
            return "(%r %s 0)" % (self.a, self.b)
        if self.op in ("and", "or"):
            return "(" + (" %s " % self.op).join(map(repr, self.a)) + ")"
        if self.op == "not":
            return "not " + repr(self.a)
        return str(self.a)


TRUE = Bo("const", True)
FALSE = Bo("const", False)


def bo(x):
    if isinstance(x, Bo):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, Re):
        return x != 0
    import numpy as _np
    if isinstance(x, _np.bool_):
        return TRUE if x else FALSE
    if isinstance(x, (int, float)):
        return TRUE if x else FALSE
    if isinstance(x, _np.ndarray):
        if x.shape == ():
            return bo(x.item())
        return NotImplemented
    return NotImplemented


def without_pi(d):
    """common factor pi (positive) taken out"""
    i = CTX.byname.get("pi") if CTX is not None else None
    if i is None:
        return d
    e = None
    for m in d.p:
        x = dict(m).get(i, 0)
        if x == 0 or (e is not None and (x > 0) != (e > 0)):
            return d
        e = x if e is None else min(e, x, key=abs)
    if not e:
        return d
    f = {((i, -e),): 1}
    return Re(pmul(d.p, f))


def lit(d, op):
    """d op 0"""
    if op in ("<", "<=") and len(d.p) <= 2:
        # a*|x| + c  op 0   ->  both (a > 0) or either (a < 0) of the two signs
        for m, c in d.p.items():
            if len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == "abs" and \
                    (len(d.p) == 1 or () in d.p):
                x = CTX.atoms[m[0][0]].info
                k = d.p.get((), 0)
                both = [lit(x * abs(c) * (1 if c > 0 else -1) + k, op), lit(x * abs(c) * (-1 if c > 0 else 1) + k, op)]
                return band(both) if c > 0 else bor(both)
    if d.isconst:
        c = d.cval()
        return TRUE if (c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0 if op == "=" else c != 0) else FALSE
    d = without_pi(d)
    if d.isconst:
        return lit(d, op)
    if op in ("=", "!="):
        if not pclear(d.p):
            return TRUE if op == "=" else FALSE
        p = d.p
        k0 = min(p, key=lambda m: m)
        c = p[k0]
        d = Re(pscale(p, Fraction(1) / c))
    else:
        # scale so that the leading coefficient has absolute value 1
        p = d.p
        k0 = min((m for m in p if m), key=lambda m: m)
        c = abs(p[k0])
        if c != 1:
            d = Re(pscale(p, Fraction(1) / c))
    return Bo("lit", d, op)


def bnot(x):
    x = bo(x)
    if x.op == "const":
        return FALSE if x.a else TRUE
    if x.op == "lit":
        if x.b == "<":
            return lit(-x.a, "<=")
        if x.b == "<=":
            return lit(-x.a, "<")
        return Bo("lit", x.a, "!=" if x.b == "=" else "=")
    if x.op == "not":
        return x.a
    if x.op == "and":
        return bor([bnot(y) for y in x.a])
    if x.op == "or":
        return band([bnot(y) for y in x.a])
    return Bo("not", x)


def band(xs):
    out = []
    for x in xs:
        x = bo(x)
        if x.op == "const":
            if not x.a:
                return FALSE
            continue
        if x.op == "and":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Bo("and", out)


def bor(xs):
    out = []
    for x in xs:
        x = bo(x)
        if x.op == "const":
            if x.a:
                return TRUE
            continue
        if x.op == "or":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Bo("or", out)


def implies(a, b):
    return bor([bnot(a), bo(b)])


def batom(name):
    return Bo("atom", name)


# ---------------------------------------------------------------- functions
def known_nonzero(d):
    """cheap syntactic check"""
    if len(d.p) == 1:
        (m, c), = d.p.items()
        return all(CTX.atoms[i].nonzero for i, e in m)
    return False


def inverse(d):
    if d.isconst:
        c = d.cval()
        if c == 0:
            CTX.eng.fail("division by zero", "the divisor is identically zero")
            raise Unsupported("division by the constant zero")
        return Re.const(Fraction(1) / c)
    if not known_nonzero(d):
        if not pclear(d.p):
            CTX.eng.fail("division by zero", "the divisor is identically zero")
            raise Unsupported("division by zero")
        mg = getattr(CTX.eng, "div_margin", None)
        if mg is not None and not d.isconst:
            CTX.eng.defined("divisor is at least %s" % mg, bor([d >= mg, d <= -mg]), d)
        CTX.eng.defined("divisor is not zero", d != 0, d)
    if len(d.p) == 1:
        (m, c), = d.p.items()
        out = Re({(): _norm(Fraction(1) / c)})
        for i, e in m:
            a = CTX.atoms[i]
            a.nonzero = True   # the obligation above covers it
            if e == 1 and a.sq is not None and len(a.sq) == 1 and () in a.sq:
                out = out * Re({((i, 1),): _norm(Fraction(1) / a.sq[()])})      # 1/sqrt(c) = sqrt(c)/c
            else:
                out = Re(pmul(out.p, {((i, -e),): 1}))
        return out
    # named denominator; first take out common monomial factors and content
    m0, c0, rest = content(d.p)
    t = CTX.tables.setdefault("den", {})
    k = pkey(rest)
    if k not in t:
        a = CTX.atom("den%d" % len(t), "den")
        a.defn = rest
        a.nonzero = True
        t[k] = a
    a = t[k]
    inv = {tuple((i, -e) for i, e in m0): 1}
    for i, e in m0:
        CTX.atoms[i].nonzero = True
    return Re(pscale(pmul(inv, {((a.id, -1),): 1}), Fraction(1) / c0))


def content(p):
    """(monomial, coefficient, rest) with p = coeff*monomial*rest, rest monic in its first term"""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for i in set(common) | set(d):
                e = min(common.get(i, 0), d.get(i, 0))
                if e:
                    new[i] = e
            common = new
    m0 = tuple(sorted(common.items()))
    inv = tuple((i, -e) for i, e in m0)
    rest = {}
    for m, c in p.items():
        rest[mono_mul(m, inv)] = c
    k0 = min(rest)
    c0 = rest[k0]
    return m0, c0, pscale(rest, Fraction(1) / c0)


def isqrt_rational(c):
    """c = a^2 * s with s squarefree-ish integer; returns (a, s)"""
    c = Fraction(c)
    n = c.numerator * c.denominator
    a = Fraction(1, c.denominator)
    r = math.isqrt(n)
    if r * r == n:
        return a * r, 1
    k = 1
    f = 2
    while f * f <= n and f < 1000:
        while n % (f * f) == 0:
            n //= f * f
            k *= f
        f += 1
    return a * k, n


def sqrt_const(c):
    a, s = isqrt_rational(c)
    if s == 1:
        return Re.const(a)
    at = CTX.atom("sqrt%d" % s, "sqrt")
    if at.sq is None:
        at.sq = {(): s}
        at.nonneg = at.nonzero = True
    return of_atom(at) * Re.const(a)


def absv(x):
    x = Re.of(x)
    if x.isconst:
        return Re.const(abs(x.cval()))
    s = sign_of(x)
    if s is not None:
        return Re((x if s >= 0 else -x).p, True)
    t = CTX.tables.setdefault("abs", {})
    k = x.key()
    nk = (-x).key()
    if k in t:
        return t[k]
    if nk in t:
        return t[nk]
    a = CTX.atom("abs%d" % len(t), "abs")
    a.sq = pmul(x.p, x.p)
    a.nonneg = True
    a.info = x
    r = Re(of_atom(a).p, True)
    t[k] = r
    return r


def sign_of(x):
    """+1 if x>=0 known, -1 if x<=0 known, else None (syntactic, then the path)"""
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if all(CTX.atoms[i].nonneg or e % 2 == 0 for i, e in m):
            return 1 if c > 0 else -1
    if CTX.eng is not None:
        if CTX.eng.quick_known(x >= 0):
            return 1
        if CTX.eng.quick_known(x <= 0):
            return -1
    return None


def sqrt(u, check=True, hint=None):
    u = Re.of(u)
    if u.isconst:
        c = u.cval()
        if c < 0:
            CTX.eng.fail("square root of a negative number", repr(u))
            raise Unsupported("sqrt of negative constant")
        return sqrt_const(c)
    t = CTX.tables.setdefault("sqrt", {})
    check = check and not u.nn
    k = u.key()
    if k in t:
        if check:
            CTX.eng.defined_nonneg("argument of a square root is not negative", u)
        return t[k]
    if check:
        CTX.eng.defined_nonneg("argument of a square root is not negative", u)
    r = _sqrt_simplify(u)
    r = t[k] = r if r.nn else Re(r.p, True)
    return r


def _sqrt_simplify(u):
    for h in CTX.sqrt_hints:
        h = h() if callable(h) else h
        if not pclear((h * h - u).p):
            return absv(h)
    m0, c0, rest = content(u.p)
    half = []
    odd = []
    for i, e in m0:
        if e % 2 == 0:
            half.append((i, e // 2))
        else:
            k = e // 2
            if k:
                half.append((i, k))
            odd.append((i, 1))
    lead = pmul({tuple(half): 1}, {(): 1})
    if half:
        leadv = Re.const(1)
        for i, e in half:
            leadv = leadv * Re({((i, e),): 1}) if CTX.atoms[i].nonneg or e % 2 == 0 else \
                leadv * _abspow(i, e)
    else:
        leadv = Re.const(1)
    rest = pmul(rest, {tuple(odd): 1}) if odd else rest
    if len(rest) == 1 and () in rest:
        return leadv * sqrt_const(Fraction(c0) * rest[()])
    # try rewriting with the sine/unit rules reversed: 1-c^2 -> s^2
    alt = _alt_square(rest, c0)
    if alt is not None:
        return leadv * alt
    inner = rest if c0 > 0 else pscale(rest, -1)
    t = CTX.tables.setdefault("sqrtatom", {})
    k = pkey(inner)
    if k not in t:
        a = CTX.atom("sqrt_%d" % len(t), "sqrt")
        a.sq = inner
        a.nonneg = True
        t[k] = a
    return leadv * of_atom(t[k]) * sqrt_const(abs(Fraction(c0)))


def _abspow(i, e):
    v = absv(Re({((i, 1),): 1}))
    r = Re.const(1)
    for _ in range(abs(e)):
        r = r * v
    return r if e > 0 else inverse(r)


def _alt_square(rest, c0):
    p = pscale(rest, c0)
    for a in CTX.atoms:
        if a.sq is None or a.kind not in ("sin", "unit"):
            continue
        # p == k * a^2 ?
        sq = a.sq
        if len(sq) != len(p) or set(sq) != set(p):
            continue
        m0 = next(iter(sq))
        k = Fraction(p[m0]) / sq[m0]
        if k > 0 and all(Fraction(p[m]) == k * sq[m] for m in sq):
            return absv(of_atom(a)) * sqrt_const(k)
    # products of two such
    cand = [a for a in CTX.atoms if a.sq is not None and a.kind in ("sin", "unit")]
    for x in range(len(cand)):
        for y in range(x, len(cand)):
            sq = pmul(cand[x].sq, cand[y].sq)
            if len(sq) != len(p) or set(sq) != set(p):
                continue
            m0 = next(iter(sq))
            k = Fraction(p[m0]) / sq[m0]
            if k > 0 and all(Fraction(p[m]) == k * sq[m] for m in sq):
                return absv(of_atom(cand[x]) * of_atom(cand[y])) * sqrt_const(k)
    return None


def norm(vals):
    s = Re.const(0)
    for v in vals:
        s = s + v * v
    return sqrt(s, check=False)


# ---------------------------------------------------------------- angles
def _trig_atom(mono, den):
    """(cos, sin) of the monomial angle divided by den"""
    t = CTX.tables.setdefault("trig", {})
    k = (mono, den)
    if k in t:
        return t[k]
    name = "*".join(CTX.atoms[i].name + ("" if e == 1 else "^%d" % e) for i, e in mono)
    a = CTX.atoms[mono[0][0]] if len(mono) == 1 and mono[0][1] == 1 else None
    if a is not None and a.kind == "angle" and a.info is not None:
        cs = a.info(den)
    else:
        nm = name if den == 1 else "%s/%d" % (name, den)
        c = CTX.atom("cos(%s)" % nm, "cos")
        s = CTX.atom("sin(%s)" % nm, "sin")
        s.sq = padd({(): 1}, {((c.id, 2),): 1}, -1)
        cs = (of_atom(c), of_atom(s))
    t[k] = cs
    return cs


def _multiple(cs, n):
    c, s = cs
    if n < 0:
        s, n = -s, -n
    C, S = Re.const(1), Re.const(0)
    for _ in range(n):
        C, S = C * c - S * s, S * c + C * s
    return C, S


def cossin(x):
    x = Re.of(x)
    t = CTX.tables.setdefault("cossin", {})
    k = x.key()
    if k in t:
        return t[k]
    C, S = Re.const(1), Re.const(0)
    pi_id = CTX.byname.get("pi")
    for m, c in sorted(x.p.items(), key=lambda z: z[0]):
        c = Fraction(c)
        if m == ():
            a = CTX.atom("rad1", "rad1")
            m = ((a.id, 1),)
            a.nonneg = True
        if len(m) == 1 and m[0] == (pi_id, 1):
            q = c * 2
            if q.denominator == 1:
                cs = [(1, 0), (0, 1), (-1, 0), (0, -1)][q.numerator % 4]
                cs = (Re.const(cs[0]), Re.const(cs[1]))
            elif q.denominator == 2:
                r = sqrt_const(2) * Fraction(1, 2)
                cs = _multiple((r, r), (q * 2).numerator)
            elif q.denominator == 3:
                r = sqrt_const(3) * Fraction(1, 2)
                cs = _multiple((r, Re.const(Fraction(1, 2))), (q * 3).numerator)
            else:
                raise Unsupported("angle %s*pi" % c)
        elif c.denominator == 1 and c.numerator % 2 == 0 and (pi_id, 1) in m and all(i == pi_id or (CTX.atoms[i].isint and e > 0) for i, e in m):
            continue        # an integer number of full turns
        else:
            scales = CTX.eng.scales if CTX.eng is not None else {}
            nm = tuple((CTX.atoms[i].name, e) for i, e in m)
            den = scales.get(nm, 1)
            n = c * den
            if n.denominator != 1:
                raise NeedScale(nm, den * n.denominator)
            cs = _multiple(_trig_atom(m, den), n.numerator)
        C, S = C * cs[0] - S * cs[1], S * cs[0] + C * cs[1]
    t[k] = (C, S)
    return C, S


def cos(x):
    return cossin(x)[0]


def sin(x):
    return cossin(x)[1]


def _angle_atom(name, info, lo=None, hi=None):
    a = CTX.atom(name, "angle")
    a.info = info
    a.lo, a.hi = lo, hi      # in units of pi (rational)
    return of_atom(a)


def atan2(y, x):
    y, x = Re.of(y), Re.of(x)
    t = CTX.tables.setdefault("atan2", {})
    k = (y.key(), x.key())
    if k in t:
        return t[k]
    if y.isconst and x.isconst:
        cy, cx = y.cval(), x.cval()
        r = None
        if cy == 0:
            r = Re.const(0) if cx >= 0 else PI()
        elif cx == 0:
            r = PI() * Fraction(1 if cy > 0 else -1, 2)
        if r is not None:
            t[k] = r
            return r
    elif not y.p or not pclear(y.p):
        r = Re.const(0) if bool(x >= 0) else PI()
        t[k] = r
        return r
    r = norm([y, x])
    if not r.isconst and bool(r == 0):
        t[k] = Re.const(0)
        return t[k]
    if not r.isconst:
        mark_nonzero(r)
    cosA, sinA = x / r, y / r
    n = len(t)
    a = None

    def info(den):
        if den == 1:
            return cosA, sinA
        if den == 2:
            # A in (-pi, pi]: cos(A/2) >= 0
            ch = sqrt((1 + cosA) * Fraction(1, 2), check=False)
            if not ch.isconst and bool(ch == 0):
                return Re.const(0), Re.const(1)
            if ch.isconst and ch.cval() == 0:
                return Re.const(0), Re.const(1)
            mark_nonzero(ch)
            return ch, sinA / (2 * ch)
        raise Unsupported("fraction of an arctan2 angle")
    v = _angle_atom("atan2_%d" % n, info, -1, 1)
    at = CTX.atoms[list(v.p)[0][0][0]]
    at.deps = (y, x, cosA, sinA)
    at.facts.append(("atan2", y, x))
    t[k] = v
    return v


def mark_nonzero(r):
    """r is known to be non-zero on this path"""
    if len(r.p) == 1:
        (m, c), = r.p.items()
        for i, e in m:
            CTX.atoms[i].nonzero = True


def acos(u):
    u = Re.of(u)
    CTX.eng.defined_unit("argument of arccos is in [-1,1]", u)
    if u.isconst and u.cval() in (1, 0, -1):
        return PI() * Fraction({1: 0, 0: 1, -1: 2}[u.cval()], 2)
    t = CTX.tables.setdefault("acos", {})
    k = u.key()
    if k in t:
        return t[k]
    s = sqrt(1 - u * u, check=False)
    n = len(t)

    def info(den):
        if den == 1:
            return u, s
        if den == 2:
            ch = sqrt((1 + u) * Fraction(1, 2), check=False)
            sh = sqrt((1 - u) * Fraction(1, 2), check=False)
            return ch, sh
        raise Unsupported("fraction of an arccos angle")
    v = _angle_atom("acos_%d" % n, info, 0, 1)
    at = CTX.atoms[list(v.p)[0][0][0]]
    at.nonneg = True
    at.facts.append(("acos", u))
    at.deps = (u, s)
    t[k] = v
    return v


def asin(u):
    u = Re.of(u)
    CTX.eng.defined_unit("argument of arcsin is in [-1,1]", u)
    if u.isconst and u.cval() in (1, 0, -1):
        return PI() * Fraction({1: 1, 0: 0, -1: -1}[u.cval()], 2)
    t = CTX.tables.setdefault("asin", {})
    k = u.key()
    if k in t:
        return t[k]
    c = sqrt(1 - u * u, check=False)
    n = len(t)

    def info(den):
        if den == 1:
            return c, u
        raise Unsupported("fraction of an arcsin angle")
    v = _angle_atom("asin_%d" % n, info, Fraction(-1, 2), Fraction(1, 2))
    at = CTX.atoms[list(v.p)[0][0][0]]
    at.facts.append(("asin", u))
    at.deps = (u, c)
    t[k] = v
    return v


def floor(x):
    x = Re.of(x)
    if x.isconst:
        return Re.const(math.floor(x.cval()))
    t = CTX.tables.setdefault("floor", {})
    k = x.key()
    if k in t:
        return t[k]
    a = CTX.atom("floor_%d" % len(t), "floor")
    a.isint = True
    v = of_atom(a)
    a.deps = (x,)
    a.facts.append(("floor", x))
    t[k] = v
    return v


def sign(x):
    x = Re.of(x)
    if bool(x > 0):
        return Re.const(1)
    if bool(x < 0):
        return Re.const(-1)
    return Re.const(0)


def ite(c, a, b):
    return a if bool(c) else b


def minv(a, b):
    a, b = Re.of(a), Re.of(b)
    return a if bool(a <= b) else b


def maxv(a, b):
    a, b = Re.of(a), Re.of(b)
    return a if bool(a >= b) else b


def clip(x, lo, hi):
    """clip result carries its bounds (robust against rounding of x)"""
    x = Re.of(x)
    if lo is not None:
        lo = Re.of(lo)
        if bool(x < lo):
            return lo
    if hi is not None:
        hi = Re.of(hi)
        if bool(x > hi):
            return hi
    return x
