"""The numpy / math modules as seen by the code under verification.

Arrays are real numpy object arrays (so views, aliasing, broadcasting and in-place
semantics are numpy's own) whose elements are symbolic reals/booleans."""
import types, math as _math, builtins
import numpy as rnp
from fractions import Fraction
from . import terms as T
from .terms import Re, Bo, Unsupported
from . import seqs as S


def conv(x):
    """element conversion"""
    if isinstance(x, (Re, Bo)):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return T.TRUE if x else T.FALSE
    r = Re.of(x) if not isinstance(x, str) and x is not None else None
    return x if r is None else r


def guard_write(a):
    fr = getattr(T.CTX.eng, "frame", None)
    if fr is not None and fr.isfrozen(a):
        T.CTX.eng.fail("argument not modified", "an argument, or an element of one, is written to")


class SArr(rnp.ndarray):
    """object array; kind 'i' marks arrays numpy would give an integer dtype"""

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", "f")

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == "__call__" and name in _ELEM:
            args = [asarr(x) for x in inputs]
            r = elementwise(_ELEM[name], *args)
            if out is not None:
                o = out[0]
                o[...] = r
                return o
            return r
        if out is not None:
            guard_write(out[0])
        ins = [x.view(rnp.ndarray) if isinstance(x, SArr) else (raw(x) if isinstance(x, rnp.ndarray) else x) for x in inputs]
        if out is not None:
            o = out[0]
            if isinstance(o, SArr) and o.kind == "i" and any(getattr(asarr(x), "kind", "f") == "f" for x in inputs):
                raise TypeError("Cannot cast ufunc '%s' output from float64 to int64" % name)
            kw["out"] = tuple(x.view(rnp.ndarray) if isinstance(x, SArr) else x for x in out)
        r = getattr(ufunc, method)(*[rnp.asarray(wrapobj(x), dtype=object) if not isinstance(x, rnp.ndarray) else x for x in ins], **kw)
        if out is not None:
            return out[0]
        if isinstance(r, rnp.ndarray):
            r = r.view(SArr)
            ks = [getattr(asarr(x), "kind", "f") for x in inputs]
            r.kind = "i" if all(k in "ib" for k in ks) and name not in ("true_divide", "divide") else "f"
            return r if r.shape != () else r.item()
        return r

    def __setitem__(self, k, v):
        guard_write(self)
        if isinstance(k, rnp.ndarray) and k.dtype == object:
            k = concrete_index(k)
        elif isinstance(k, tuple):
            k = tuple(concrete_index(x) for x in k)
        else:
            k = concrete_index(k)
        v = asarr(v) if isinstance(v, (rnp.ndarray, list, tuple)) else conv(v)
        if isinstance(v, Bo):
            v = v.toint()
        if isinstance(v, S.SymVec):
            raise Unsupported("symbolic-length value stored in an array")
        if self.kind == "i":
            for e in (v.ravel() if isinstance(v, rnp.ndarray) else [v]):
                if isinstance(e, Re) and not e.isint:
                    T.CTX.eng.fail("value kept exactly", "a real value is truncated by an integer array")
        if isinstance(v, rnp.ndarray):
            v = v.view(rnp.ndarray)
            if self.kind != "o" and any(not isinstance(x, Re) for x in v.ravel().tolist()):
                v = v.copy()
                for i in rnp.ndindex(*v.shape):
                    v[i] = num(v[i])
            if not isinstance(rnp.ndarray.__getitem__(self, k), rnp.ndarray):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                v = v.item()
        elif self.kind != "o":
            v = num(v)
        rnp.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(concrete_index(x) for x in k)
        else:
            k = concrete_index(k)
        return rnp.ndarray.__getitem__(self, k)

    def _cmp(self, o, f):
        return elementwise(f, self, asarr(o), kind="b")

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, lambda a, b: bo_of(a == b))
    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, lambda a, b: bo_of(a != b))
    __hash__ = None

    def all(self, axis=None, **kw):
        if axis is not None:
            raise Unsupported("all(axis)")
        return T.band([T.bo(x) for x in self.ravel().tolist()])

    def any(self, axis=None, **kw):
        if axis is not None:
            raise Unsupported("any(axis)")
        return T.bor([T.bo(x) for x in self.ravel().tolist()])

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(T.bo(self.ravel().tolist()[0]))

    def dot(self, o, out=None):
        return NP.dot(self, o)

    def item(self, *a):
        if a:
            return self.ravel().tolist()[a[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.ravel().tolist()[0]

    def sum(self, axis=None, **kw):
        return NP.sum(self, axis)

    def max(self, *a, **k): return NP.max(self)
    def min(self, *a, **k): return NP.min(self)
    def argmax(self, *a, **k): return NP.argmax(self)
    def argmin(self, *a, **k): return NP.argmin(self)
    def argsort(self, *a, **k): return NP.argsort(self)
    def nonzero(self): return NP.nonzero(self)
    def astype(self, dt, **kw): return NP.array(self, dtype=dt)
    def round(self, n=0): return NP.round(self, n)
    def mean(self, *a, **k): return NP.sum(self) / self.size
    def trace(self): return NP.trace(self)
    def clip(self, a, b): return NP.clip(self, a, b)

    def __reduce__(self):
        raise Unsupported("pickle")


def num(x):
    if isinstance(x, Bo):
        return x.toint()
    if not isinstance(x, Re):
        raise TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__)
    return x


def bo_of(x):
    return T.bo(x)


def wrapobj(x):
    if isinstance(x, rnp.ndarray):
        return x
    if isinstance(x, (tuple, list)):
        return asarr(x).view(rnp.ndarray)
    a = rnp.empty((), dtype=object)
    a[()] = conv(x)
    return a


def raw(a):
    b = rnp.empty(a.shape, dtype=object)
    for i in rnp.ndindex(*a.shape):
        b[i] = conv(rnp.ndarray.__getitem__(a, i))
    return b


def concrete_index(k):
    if isinstance(k, Re):
        if k.isconst:
            return int(k.cval())
        raise Unsupported("symbolic index into a fixed array")
    if isinstance(k, Bo):
        raise Unsupported("boolean index")
    if isinstance(k, SArr):
        out = []
        flat = k.ravel().tolist()
        if flat and all(isinstance(e, Bo) for e in flat):
            return rnp.array([bool(e) for e in flat], dtype=bool).reshape(k.shape)
        return rnp.array([concrete_index(e) for e in flat], dtype=int).reshape(k.shape)
    if isinstance(k, list):
        return [concrete_index(x) for x in k]
    if isinstance(k, slice):
        f = lambda x: None if x is None else concrete_index(x)
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def mk(shape, fill=0, kind="f"):
    a = rnp.empty(shape, dtype=object).view(SArr)
    a.view(rnp.ndarray).fill(Re.const(fill))
    a.kind = kind
    return a


def _kindof(flat):
    """dtype kind numpy would infer from python/numpy scalars"""
    k = "b"
    if not flat:
        return "f"
    for x in flat:
        if isinstance(x, (bool, rnp.bool_, Bo)):
            continue
        if isinstance(x, (int, rnp.integer)):
            if k == "b":
                k = "i"
        elif isinstance(x, Re):
            if x.isint and not x.isconst:
                if k == "b":
                    k = "i"
            elif isinstance(x, IntConst):
                if k == "b":
                    k = "i"
            else:
                k = "f"
        else:
            k = "f" if isinstance(x, (float, rnp.floating, Fraction)) else "o"
            if k == "o":
                return "o"
    return k


class IntConst(Re):
    __slots__ = ()


def asarr(x, copy=False):
    if isinstance(x, S.SymVec):
        return x
    if isinstance(x, SArr):
        return x.copy() if copy else x
    if isinstance(x, rnp.ndarray):
        r = raw(x).view(SArr)
        r.kind = "i" if x.dtype.kind in "iu" else "b" if x.dtype.kind == "b" else "f"
        return r
    if isinstance(x, (list, tuple)):
        shape = NP.shape(x)
        if any(isinstance(e, S.SymVec) for e in x):
            raise Unsupported("array of symbolic sequences")
        a = rnp.empty(shape, dtype=object)
        flat = _flat(x)
        af = a.reshape(-1) if a.size else a.ravel()
        kinds = []
        for i, e in enumerate(flat):
            af[i] = conv(e[0])
            kinds.append(e[1])
        a = af.reshape(shape).view(SArr)
        ks = set(kinds)
        a.kind = "f" if not ks or "f" in ks else "o" if "o" in ks else "i" if "i" in ks else "b"
        if "o" in ks:
            a.kind = "o"
        return a
    if hasattr(x, "__array_sym__"):
        return asarr(x.__array_sym__())
    if isinstance(x, S.VList):
        return x.asarray()
    a = rnp.empty((), dtype=object)
    a[()] = conv(x)
    a = a.view(SArr)
    a.kind = _kindof([x])
    return a


def _flat(x):
    out = []
    if isinstance(x, SArr):
        return [(e, x.kind) for e in x.ravel().tolist()] if x.shape != () else [(x.item(), x.kind)]
    if isinstance(x, rnp.ndarray):
        return [(e, "i" if x.dtype.kind in "iu" else "f") for e in x.ravel().tolist()]
    if isinstance(x, (list, tuple)):
        for e in x:
            out.extend(_flat(e))
        return out
    return [(x, _kindof([x]))]


def elementwise(f, *args, kind=None):
    for a in args:
        if isinstance(a, S.SymVec):
            return S.elementwise(f, *args)
    arrs = [a if isinstance(a, rnp.ndarray) else asarr(a) for a in args]
    sh = rnp.broadcast_shapes(*[a.shape for a in arrs])
    bs = [rnp.broadcast_to(a.view(rnp.ndarray), sh) for a in arrs]
    out = rnp.empty(sh, dtype=object)
    for i in rnp.ndindex(*sh):
        v = f(*[b[i] for b in bs])
        out[i] = v
    if sh == ():
        return out.item()
    out = out.view(SArr)
    out.kind = kind or ("i" if all(getattr(a, "kind", "f") in "ib" for a in arrs) else "f")
    if kind is None and f in _FLOATF:
        out.kind = "f"
    return out


def _s(f):
    return lambda x: f(Re.of(x))


_sin, _cos, _sqrt = _s(T.sin), _s(T.cos), _s(T.sqrt)
_abs = _s(T.absv)
_sign = _s(T.sign)
_floor = _s(T.floor)
_atan2 = lambda y, x: T.atan2(y, x)
_acos, _asin = _s(T.acos), _s(T.asin)
_FLOATF = {_sin, _cos, _sqrt, _atan2, _acos, _asin}
_floordiv = lambda a, b: T.floor(Re.of(a) / b)
_rem = lambda a, b: Re.of(a) % b
_lt = lambda a, b: T.bo(a < b)
_le = lambda a, b: T.bo(a <= b)
_gt = lambda a, b: T.bo(a > b)
_ge = lambda a, b: T.bo(a >= b)
_eq = lambda a, b: T.bo(a == b)
_ne = lambda a, b: T.bo(a != b)
_and = lambda a, b: T.band([T.bo(a), T.bo(b)])
_or = lambda a, b: T.bor([T.bo(a), T.bo(b)])
_not = lambda a: T.bnot(T.bo(a))
_max = lambda a, b: T.maxv(a, b)
_min = lambda a, b: T.minv(a, b)
_pow = lambda a, b: Re.of(a) ** b
_ELEM = {"sin": _sin, "cos": _cos, "sqrt": _sqrt, "absolute": _abs, "fabs": _abs, "sign": _sign, "floor": _floor,
         "arctan2": _atan2, "arccos": _acos, "arcsin": _asin, "floor_divide": _floordiv, "remainder": _rem,
         "less": _lt, "less_equal": _le, "greater": _gt, "greater_equal": _ge, "equal": _eq, "not_equal": _ne,
         "logical_and": _and, "logical_or": _or, "logical_not": _not, "bitwise_and": _and, "bitwise_or": _or,
         "invert": _not, "maximum": _max, "minimum": _min, "power": _pow}


class linalg:
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if isinstance(x, S.VList) and x.row is not None:
            if axis not in (1, -1) or ord not in (None, 2) or keepdims:
                raise Unsupported("norm of a list of vectors")
            return S.SymVec(x.length, lambda j: linalg.norm(x.get(j)))
        if ord is not None and ord not in (2, "fro"):
            raise Unsupported("norm(ord)")
        if hasattr(x, "norm_sym"):
            return x.norm_sym
        if isinstance(x, S.SymVec):
            if axis is None and ord in (None, 2) and x.rows is None:
                return opaque_call("norm", x)
            raise Unsupported("norm of a symbolic-length array")
        a = asarr(x)
        if axis is None:
            if ord == 2 and a.ndim != 1:
                raise Unsupported("spectral norm")
            return T.norm([Re.of(e) for e in a.ravel().tolist()])
        b = rnp.moveaxis(a.view(rnp.ndarray), axis, -1)
        out = mk(b.shape[:-1])
        for i in rnp.ndindex(*b.shape[:-1]):
            rnp.ndarray.__setitem__(out, i, T.norm([Re.of(e) for e in b[i].tolist()]))
        return out

    @staticmethod
    def pinv(x, *a, **k):
        return opaque_call("pinv", x)

    @staticmethod
    def inv(x):
        raise Unsupported("linalg.inv")

    @staticmethod
    def lstsq(a, b, *r, **k):
        return matmul_any(opaque_call("pinv", a), b), None, None, None

    @staticmethod
    def det(x):
        a = asarr(x)
        if a.shape == (3, 3):
            m = a.view(rnp.ndarray)
            return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
                    + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))
        raise Unsupported("det")


def opaque_call(name, *args):
    """an external function about which only its result shape is known"""
    h = getattr(T.CTX.eng, "externals", {}).get(name)
    if h is None:
        raise Unsupported("external function " + name)
    return h(*args)


def _struct(name):
    """structural numpy function, applied to object arrays"""
    f = getattr(rnp, name)

    def g(*args, **kw):
        args = [rawtree(a) for a in args]
        kw = {k: rawtree(v) for k, v in kw.items()}
        return wrap(f(*args, **kw))
    g.__name__ = name
    return g


def rawtree(a):
    if isinstance(a, S.SymVec):
        raise Unsupported("symbolic-length array")
    if isinstance(a, rnp.ndarray):
        return asarr(a).view(rnp.ndarray)
    if isinstance(a, (Re, Bo)):
        if isinstance(a, Re) and a.isconst and type(a.cval()) is int:
            return a.cval()
        return a
    return a


def rawseq(a):
    """sequence of arrays"""
    return [asarr(x).view(rnp.ndarray) for x in a]


def wrap(r):
    if isinstance(r, rnp.ndarray):
        if r.dtype == object:
            if r.shape == ():
                return r.item()
            return r.view(SArr)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    return r


def _shape_arg(s):
    if isinstance(s, (Re, int)):
        s = (s,)
    return tuple(s)


class _NP(types.SimpleNamespace):
    pass


NP = _NP()


def _init():
    N = NP
    N.ndarray = rnp.ndarray
    N.float64 = "float64"
    N.float32 = "float32"
    N.double = "float64"
    N.int8 = "int8"
    N.int32 = "int32"
    N.int64 = "int64"
    N.bool_ = "bool"
    N.newaxis = None
    N.linalg = linalg
    N.inf = float("inf")
    N.nan = float("nan")

    class _fin:
        def __init__(self, *a):
            pass
        eps = float(rnp.finfo(float).eps)
        tiny = float(rnp.finfo(float).tiny)
        max = float(rnp.finfo(float).max)
    N.finfo = _fin

    def kindof_dtype(dt):
        if dt in (float, "float64", "float32", "f8", "d", None):
            return "f"
        if dt in (int, "int8", "int32", "int64", "i8", "int"):
            return "i"
        if dt in (bool, "bool"):
            return "b"
        if dt is object:
            return "o"
        raise Unsupported("dtype %r" % (dt,))

    def zeros(shape, dtype=None, order=None):
        s = _shape_arg(shape)
        if any(isinstance(d, Re) and not d.isconst for d in s):
            return S.sym_zeros(s)
        s = tuple(int(d.cval()) if isinstance(d, Re) else d for d in s)
        return mk(s, 0, kindof_dtype(dtype))
    N.zeros = N.empty = zeros
    def ones(shape, dtype=None):
        s = _shape_arg(shape)
        if any(isinstance(d, Re) and not d.isconst for d in s):
            return S.sym_zeros(s, 1)
        return mk(tuple(int(d.cval()) if isinstance(d, Re) else d for d in s), 1, kindof_dtype(dtype))
    N.ones = ones
    def full(shape, v, dtype=None):
        a = mk(tuple(_shape_arg(shape)))
        a[...] = v
        return a
    N.full = full
    N.zeros_like = lambda a, dtype=None: S.sym_zeros(a.shape) if isinstance(a, S.SymVec) else mk(asarr(a).shape, 0, asarr(a).kind if dtype is None else kindof_dtype(dtype))
    N.ones_like = lambda a, dtype=None: mk(asarr(a).shape, 1, asarr(a).kind if dtype is None else kindof_dtype(dtype))

    def eye(n, m=None, k=0, dtype=None):
        if isinstance(n, Re):
            n = int(n)
        a = mk((n, n if m is None else m), 0, kindof_dtype(dtype))
        for i in range(builtins.min(a.shape)):
            a[i, i] = 1
        return a
    N.eye = eye
    N.identity = lambda n, dtype=None: eye(n, dtype=dtype)

    def array(x, dtype=None, copy=True, ndmin=0):
        if isinstance(x, S.SymVec):
            return x.copy()
        a = asarr(x)
        if a is x or isinstance(x, rnp.ndarray):
            a = a.copy()
            a.kind = asarr(x).kind
        if dtype is not None:
            a.kind, ok = kindof_dtype(dtype), a.kind
            if a.kind == "i" and ok == "f":
                f = a.ravel()
                v = a.view(rnp.ndarray)
                for i in rnp.ndindex(*a.shape):
                    e = v[i]
                    if not e.isint:
                        if e.isconst:
                            v[i] = Re.const(int(e.cval()))
                        else:
                            v[i] = trunc(e)
            if a.kind == "f":
                v = a.view(rnp.ndarray)
                for i in rnp.ndindex(*a.shape):
                    if isinstance(v[i], Bo):
                        v[i] = v[i].toint()
                    if v[i] is None or isinstance(v[i], str):
                        raise TypeError("float() argument must be a string or a real number, not %r" % type(v[i]).__name__)
        return a
    N.array = array

    def asarray(x, dtype=None):
        if isinstance(x, S.SymVec):
            return x
        if isinstance(x, SArr) and (dtype is None or kindof_dtype(dtype) == x.kind):
            return x
        return array(x, dtype)
    N.asarray = N.asanyarray = asarray
    N.ascontiguousarray = asarray
    def matrix(x):
        a = array(x)
        return a
    N.matrix = matrix
    N.copy = lambda a: array(a)
    def shape(x):
        if isinstance(x, (rnp.ndarray, S.SymVec)):
            return x.shape
        if isinstance(x, (list, tuple)):
            if len(x) == 0:
                return (0,)
            ss = [shape(e) for e in x]
            if any(s != ss[0] for s in ss):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            return (len(x),) + ss[0]
        if isinstance(x, S.VList):
            return (x.length,)
        if hasattr(x, "shape_sym"):
            return x.shape_sym()
        return ()
    N.shape = shape
    N.ndim = lambda x: len(shape(x))
    N.size = lambda x: asarr(x).size

    def reshape(a, s):
        if isinstance(a, S.VList) and a.row is None:
            a = a.asarray()
        if isinstance(a, S.SymVec):
            return a.reshape(s)
        return asarr(a).reshape(s)
    N.reshape = reshape
    N.ravel = lambda a: asarr(a).ravel()
    N.squeeze = lambda a, axis=None: a.squeeze() if isinstance(a, S.SymVec) else wrapsq(asarr(a).view(rnp.ndarray).squeeze(axis))

    def wrapsq(r):
        return r.view(SArr) if r.shape != () else r.view(SArr)
    N.transpose = lambda a: asarr(a).T
    N.atleast_1d = _struct("atleast_1d")
    N.diag = lambda a, k=0: wrap(rnp.diag(asarr(a).view(rnp.ndarray), k)) if asarr(a).ndim == 2 else _diag(a)
    def _diag(a):
        a = asarr(a)
        m = mk((len(a), len(a)))
        for i in range(len(a)):
            m[i, i] = a[i]
        return m
    N.diagonal = lambda a: wrap(rnp.diagonal(asarr(a).view(rnp.ndarray)).copy())
    def trace(a):
        a = asarr(a)
        r = Re.const(0)
        for i in range(builtins.min(a.shape)):
            r = r + a[i, i]
        return r
    N.trace = trace

    def kjoin(a):
        ks = set(asarr(x).kind for x in a)
        return "f" if "f" in ks else "o" if "o" in ks else "i"

    def seqf(name):
        f = getattr(rnp, name)

        def g(a, axis=None, **kw):
            a = list(a)
            if any(isinstance(x, S.SymVec) for x in a):
                return S.join(name, a, axis)
            k = kjoin(a)
            r = f(rawseq(a), axis=axis) if axis is not None else f(rawseq(a))
            r = wrap(r)
            r.kind = k
            return r
        return g
    for n in ("concatenate", "stack"):
        setattr(N, n, seqf(n))
    N.hstack = lambda a: seqf("hstack")(a)
    N.vstack = lambda a: seqf("vstack")(a)
    N.column_stack = lambda a: seqf("column_stack")(a)
    N.row_stack = N.vstack
    def block(b):
        if isinstance(b, list) and b and isinstance(b[0], list):
            return seqf("concatenate")([seqf("concatenate")([at2(x) for x in row], axis=1) for row in b], axis=0)
        return seqf("concatenate")([at2(x) for x in b], axis=1)
    def at2(x):
        x = asarr(x)
        return x if x.ndim >= 2 else x.reshape((1, -1))
    N.block = block
    N.append = lambda a, b, axis=None: seqf("concatenate")([asarr(a).ravel(), asarr(b).ravel()]) if axis is None else seqf("concatenate")([a, b], axis=axis)
    N.tile = _struct("tile")
    N.take = lambda a, i, axis=None: _take(a, i)
    def _take(a, i):
        if isinstance(a, S.SymVec):
            if isinstance(i, (tuple, list)):
                return asarr([a[j] for j in i])
            return a[i]
        a = asarr(a)
        if isinstance(i, (tuple, list)):
            return asarr([a.ravel()[concrete_index(j)] for j in i])
        return a.ravel()[concrete_index(i)]
    N.roll = _struct("roll")
    N.flip = _struct("flip")
    N.kron = _struct("kron")
    N.tril = _struct("tril")
    N.triu = _struct("triu")

    def dot(a, b):
        if isinstance(a, S.SymVec) or isinstance(b, S.SymVec):
            return S.matmul(a, b)
        a, b = asarr(a), asarr(b)
        if a.ndim == 0 or b.ndim == 0:
            return a * b
        r = _mm(a, b)
        return r
    N.dot = dot
    N.inner = lambda a, b: dot(a, asarr(b).T)
    def vdot(a, b):
        return dot(asarr(a).ravel(), asarr(b).ravel())
    N.vdot = vdot
    def outer(a, b):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        return elementwise(lambda x, y: x * y, a.reshape((-1, 1)), b.reshape((1, -1)))
    N.outer = outer

    def _mm(a, b):
        A, B = a.view(rnp.ndarray), b.view(rnp.ndarray)
        a1 = A.ndim == 1
        b1 = B.ndim == 1
        if a1:
            A = A.reshape((1, -1))
        if b1:
            B = B.reshape((-1, 1))
        if A.ndim != 2 or B.ndim != 2:
            raise Unsupported("matmul of higher rank")
        if A.shape[1] != B.shape[0]:
            raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (B.shape[0], A.shape[1]))
        out = rnp.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                s, nn = {}, True
                for k in range(A.shape[1]):
                    x, y = A[i, k], B[k, j]
                    if x.p and y.p:
                        s = T.padd(s, T.pmul(x.p, y.p))
                        nn = nn and (x is y or x.p == y.p or x.notneg and y.notneg)
                out[i, j] = Re(s, nn)
        if a1 and b1:
            return out[0, 0]
        if a1:
            out = out[0]
        elif b1:
            out = out[:, 0]
        out = out.view(SArr)
        out.kind = "i" if a.kind in "ib" and b.kind in "ib" else "f"
        return out

    def matmul(a, b):
        if isinstance(a, S.SymVec) or isinstance(b, S.SymVec):
            return S.matmul(a, b)
        a, b = asarr(a), asarr(b)
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        return _mm(a, b)
    N.matmul = matmul
    SArr.__matmul__ = lambda a, b: matmul(a, b)
    SArr.__rmatmul__ = lambda a, b: matmul(b, a)
    N.linalg.multi_dot = staticmethod(lambda xs: __import__("functools").reduce(matmul, xs))

    def cross(a, b):
        a, b = asarr(a), asarr(b)
        if a.shape != (3,) or b.shape != (3,):
            raise Unsupported("cross of shapes %s %s" % (a.shape, b.shape))
        return asarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    N.cross = cross

    def ssum(a, axis=None):
        if isinstance(a, S.SymVec):
            raise Unsupported("sum over a symbolic-length array")
        a = asarr(a)
        if axis is None:
            r = Re.const(0)
            for e in a.ravel().tolist():
                r = r + e
            return r
        return wrap(rnp.add.reduce(a.view(rnp.ndarray), axis=axis))
    N.sum = ssum
    N.mean = lambda a: ssum(a) / asarr(a).size
    N.prod = lambda a: __import__("functools").reduce(lambda x, y: x * y, asarr(a).ravel().tolist(), Re.const(1))

    def ew(name, f):
        def g(*args, **kw):
            if kw.get("out") is not None:
                raise Unsupported("out=")
            r = S.rows_op(lambda *x: elementwise(f, *[asarr(a) for a in x]), args)
            if r is not None:
                return r
            return elementwise(f, *[asarr(a) for a in args])
        g.__name__ = name
        setattr(N, name, g)
    for n, f in _ELEM.items():
        ew(n, f)
    ew("abs", _abs)
    ew("mod", _rem)
    ew("add", lambda a, b: a + b)
    ew("subtract", lambda a, b: a - b)
    ew("multiply", lambda a, b: a * b)
    ew("divide", lambda a, b: Re.of(a) / b)
    ew("true_divide", lambda a, b: Re.of(a) / b)
    ew("negative", lambda a: -a)
    ew("square", lambda a: a * a)
    ew("deg2rad", lambda a: a * T.PI() / 180)
    ew("radians", lambda a: a * T.PI() / 180)
    ew("rad2deg", lambda a: a * 180 / T.PI())
    ew("degrees", lambda a: a * 180 / T.PI())
    ew("hypot", lambda a, b: T.norm([Re.of(a), Re.of(b)]))
    ew("isnan", lambda a: T.FALSE)
    ew("isfinite", lambda a: T.TRUE)
    ew("isinf", lambda a: T.FALSE)
    ew("fmod", lambda a, b: _fmod(a, b))
    def _fmod(a, b):
        raise Unsupported("fmod")
    N.divmod = lambda a, b: (elementwise(_floordiv, asarr(a), asarr(b)), elementwise(_rem, asarr(a), asarr(b)))
    N.bool = "bool"

    def clip(a, lo=None, hi=None, a_min=None, a_max=None):
        lo = a_min if lo is None else lo
        hi = a_max if hi is None else hi
        def f(x, *b):
            return T.clip(x, lo, hi)
        if isinstance(lo, (rnp.ndarray, list)) or isinstance(hi, (rnp.ndarray, list)):
            return elementwise(lambda x, l, h: T.clip(x, l, h), asarr(a), asarr(lo), asarr(hi))
        return elementwise(f, asarr(a))
    N.clip = clip
    N.nan_to_num = lambda a, **k: a

    def where(c, a=None, b=None):
        if a is None:
            return nonzero(c)
        return elementwise(lambda c, x, y: T.ite(T.bo(c), x, y), asarr(c), asarr(a), asarr(b))
    N.where = where

    def nonzero(c):
        if isinstance(c, S.SymVec):
            return S.nonzero(c)
        c = asarr(c)
        m = rnp.array([bool(T.bo(e)) for e in c.ravel().tolist()], dtype=bool).reshape(c.shape)
        return m.nonzero()
    N.nonzero = nonzero
    N.flatnonzero = lambda c: nonzero(asarr(c).ravel())[0]
    def argwhere(c):
        if isinstance(c, S.SymVec):
            return S.argwhere(c)
        c = asarr(c)
        m = rnp.array([bool(T.bo(e)) for e in c.ravel().tolist()], dtype=bool).reshape(c.shape)
        return rnp.argwhere(m)
    N.argwhere = argwhere
    N.count_nonzero = lambda c: len(nonzero(asarr(c).ravel())[0])

    def allf(a, axis=None):
        if isinstance(a, (S.SymVec, S.VList)):
            return a.all()
        return asarr(a).all()
    def anyf(a, axis=None):
        if isinstance(a, (S.SymVec, S.VList)):
            return a.any()
        return asarr(a).any()
    N.all, N.any = allf, anyf

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return elementwise(lambda x, y: T.bo(T.absv(x - y) <= Re.of(atol) + Re.of(rtol) * T.absv(Re.of(y))), asarr(a), asarr(b))
    N.isclose = isclose

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        h = (getattr(T.CTX.eng, "externals", None) or {}).get("allclose")
        if h is not None and isinstance(a, S.SymVec) and isinstance(b, S.SymVec):
            return h(a, b, rtol, atol)
        r = isclose(a, b, rtol, atol)
        return r.all() if isinstance(r, (rnp.ndarray, S.SymVec)) else T.bo(r)
    N.allclose = allclose
    def array_equal(a, b):
        a, b = asarr(a), asarr(b)
        if a.shape != b.shape:
            return T.FALSE
        return (a == b).all() if a.shape else T.bo(a == b)
    N.array_equal = array_equal

    def maxf(a, axis=None):
        xs = asarr(a).ravel().tolist()
        r = xs[0]
        for x in xs[1:]:
            r = T.maxv(r, x)
        return r
    def minf(a, axis=None):
        xs = asarr(a).ravel().tolist()
        r = xs[0]
        for x in xs[1:]:
            r = T.minv(r, x)
        return r
    N.max = N.amax = maxf
    N.min = N.amin = minf

    def argmax(a, axis=None):
        xs = asarr(a).ravel().tolist()
        k = 0
        for i in range(1, len(xs)):
            if bool(xs[i] > xs[k]):
                k = i
        return k
    def argmin(a, axis=None):
        xs = asarr(a).ravel().tolist()
        k = 0
        for i in range(1, len(xs)):
            if bool(xs[i] < xs[k]):
                k = i
        return k
    N.argmax, N.argmin = argmax, argmin

    def argsort(a, axis=-1, kind=None):
        if isinstance(a, (S.SymVec, S.VList)):
            return S.argsort(a)
        xs = asarr(a).ravel().tolist()
        idx = list(range(len(xs)))
        # stable insertion sort on symbolic keys
        out = []
        for i in idx:
            j = len(out)
            while j > 0 and bool(xs[i] < xs[out[j - 1]]):
                j -= 1
            out.insert(j, i)
        return rnp.array(out, dtype=int)
    N.argsort = argsort

    def arange(*a, **k):
        a = [Re.of(x) for x in a]
        if len(a) == 1:
            a = [Re.const(0), a[0]]
        step = a[2] if len(a) > 2 else Re.const(1)
        if all(x.isconst for x in a) and step.isconst:
            from fractions import Fraction as F
            out = []
            x, e, s = Fraction(a[0].cval()), Fraction(a[1].cval()), Fraction(step.cval())
            while (x < e) if s > 0 else (x > e):
                out.append(T._norm(x))
                x += s
            r = asarr(out)
            r.kind = "i"
            return r
        h = getattr(T.CTX.eng, "externals", {}).get("arange")
        if h is not None:
            return h(*a)
        return S.SymRange(a[0], a[1], step).asvec()
    N.arange = arange
    def linspace(a, b, n=50):
        n = int(n)
        return asarr([Re.of(a) + (Re.of(b) - Re.of(a)) * Fraction(i, n - 1) for i in range(n)])
    N.linspace = linspace

    def rnd(a, n=0, decimals=None):
        n = n if decimals is None else decimals
        h = getattr(T.CTX.eng, "externals", {}).get("round")
        return elementwise(lambda x: round_model(x, n), asarr(a))
    N.round = N.around = rnd
    N.fix = lambda a: elementwise(trunc, asarr(a))
    N.trunc = N.fix

    class random:
        @staticmethod
        def rand(*dims):
            return opaque_call("rand", *dims)
        random = staticmethod(lambda size=None: opaque_call("rand", *([size] if isinstance(size, int) else list(size or ()))))
        random_sample = random
        uniform = staticmethod(lambda lo=0, hi=1, size=None: opaque_call("uniform", lo, hi, size))
        randn = staticmethod(lambda *d: opaque_call("randn", *d))
        default_rng = staticmethod(lambda *a: random)
    N.random = random
    N.array_repr = lambda *a, **k: "array"
    N.array_str = lambda *a, **k: "array"
    N.set_printoptions = lambda *a, **k: None
    N.errstate = lambda **k: _Null()

    class _LazyPi:
        pass


def matmul_any(a, b):
    return NP.matmul(a, b)


class _Null:
    def __enter__(self): return self
    def __exit__(self, *a): return False


def round_model(x, n):
    """np.round(x, n): within half a unit of the last place kept"""
    x = Re.of(x)
    if x.isconst:
        from fractions import Fraction as F
        return Re.const(F(round(Fraction(x.cval()) * 10**n)) / 10**n)
    mode = getattr(T.CTX.eng, "round_mode", None)
    if callable(mode):
        mode = mode(x, n)
    if mode == "exact":
        T.CTX.eng.assumed.add("np.round(x, %d) treated as exact (differs by at most 0.5e-%d)" % (n, n))
        return x
    t = T.CTX.tables.setdefault("round", {})
    k = (x.key(), n)
    if k in t:
        return t[k]
    a = T.CTX.atom("round_%d" % len(t), "round")
    v = T.of_atom(a)
    h = Fraction(1, 2 * 10**n)
    a.facts.append(("fact", T.band([v - x <= h, x - v <= h])))
    t[k] = v
    return v


def trunc(x):
    x = Re.of(x)
    if x.isint:
        return x
    return T.floor(x) if bool(x >= 0) else -T.floor(-x)


_init()


def _dispatch(name, f):
    from . import geo

    def g(*a, **k):
        if geo.has(a):
            return geo.call(name, a, k)
        return f(*a, **k)
    g.__name__ = name
    return g


class _Linalg:
    def __getattr__(self, name):
        f = getattr(linalg, name, None)
        if f is None:
            raise Unsupported("numpy.linalg." + name)
        return _dispatch(name, f) if callable(f) and not isinstance(f, type) else f


class NpModule(types.ModuleType):
    def __getattr__(self, name):
        if name == "pi":
            return T.PI()
        if name.startswith("__"):
            raise AttributeError(name)
        try:
            f = getattr(NP, name)
        except AttributeError:
            raise Unsupported("numpy." + name)
        if name == "linalg":
            return _Linalg()
        if callable(f) and not isinstance(f, type):
            return _dispatch(name, f)
        return f


def numpy_module():
    return NpModule("numpy")


class MathModule(types.ModuleType):
    def __getattr__(self, name):
        f = {"sin": _sin, "cos": _cos, "sqrt": _sqrt, "atan2": _atan2, "acos": _acos, "asin": _asin, "fabs": _abs,
             "floor": _floor, "hypot": lambda *a: T.norm([Re.of(x) for x in a]),
             "radians": lambda a: a * T.PI() / 180, "degrees": lambda a: a * 180 / T.PI(),
             "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: T.bo(T.absv(a - b) <= T.maxv(Re.of(rel_tol) * T.maxv(T.absv(a), T.absv(b)), abs_tol)),
             "isnan": lambda a: False, "isfinite": lambda a: True, "pow": lambda a, b: Re.of(a) ** b,
             "tan": lambda a: T.sin(a) / T.cos(a), "copysign": None, "fsum": lambda x: NP.sum(list(x)),
             "trunc": trunc}.get(name)
        if name == "pi":
            return T.PI()
        if name == "tau":
            return 2 * T.PI()
        if name == "inf":
            return float("inf")
        if f is None:
            raise Unsupported("math." + name)
        return lambda *a, **k: f(*[_sc(x) for x in a], **k)


def _sc(x):
    if isinstance(x, rnp.ndarray):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return asarr(x).item()
    return x


def math_module():
    return MathModule("math")
