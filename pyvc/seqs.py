"""Arrays, ranges and lists of symbolic length."""
import numpy as rnp
from . import terms as T
from .terms import Re, Bo, Unsupported


def same(a, b):
    """index equality: True/False, forking when both are possible"""
    d = Re.of(a) - Re.of(b)
    if d.isconst:
        return d.cval() == 0
    return bool(T.lit(d, "="))


def gidx():
    return T.var("#g", isint=True)


class SymRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = Re.of(start), Re.of(stop), Re.of(step)

    def const(self):
        if self.start.isconst and self.stop.isconst and self.step.isconst:
            return range(self.start.cval(), self.stop.cval(), self.step.cval())
        return None

    def __iter__(self):
        c = self.const()
        if c is None:
            raise Unsupported("iteration over a symbolic range outside a loop")
        return iter(c)

    def __len__(self):
        c = self.const()
        if c is None:
            raise Unsupported("len(range)")
        return len(c)

    @property
    def length(self):
        if self.step.isconst and self.step.cval() == 1:
            return self.stop - self.start
        if self.step.isconst and self.step.cval() == -1:
            return self.start - self.stop
        raise Unsupported("range step")

    def at(self, k):
        return self.start + k * self.step

    def __getitem__(self, k):
        return self.at(k)

    def asvec(self):
        return SymVec(self.length, lambda j: self.at(j))


class SymVec:
    """array with one symbolic dimension: rows None -> (N,), rows r -> (r, N), layout 'n1' -> (N,1)"""
    __array_ufunc__ = None

    def __init__(self, length, base, rows=None, name=None, layout=None, owner=None):
        self.length = Re.of(length)
        self.base = base
        self.rows = rows
        self.log = []
        self.name = name
        self.layout = layout
        self.owner = owner          # (parent, ...) for views
        self.kind = "f"
        self.frozen = False

    # -- shape
    @property
    def shape(self):
        if self.layout == "n1":
            return (self.length, 1)
        return (self.length,) if self.rows is None else (self.rows, self.length)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return self.length * (self.rows or 1)

    @property
    def T(self):
        if self.rows is None and self.layout is None:
            return self
        if self.rows is not None and self.layout is None:
            me = self.copy()
            t = VList(self.length, me.get, self.name)       # the rows of the transpose, for iteration and indexing
            t.frozen = True
            return t
        raise Unsupported("transpose of a symbolic-length array")

    def copy(self):
        c = SymVec(self.length, self.base, self.rows, self.name, self.layout)
        c.log = list(self.log)
        return c

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def flatten(self):
        if self.rows is not None:
            raise Unsupported("flatten of a symbolic-length matrix")
        c = self.copy()
        c.layout = None
        return c

    def ravel(self):
        c = self.flatten()
        c.frozen = self.frozen
        return c

    def squeeze(self, axis=None):
        # an (N,1) array squeezes to (N,) except for N == 1, where it becomes 0-d
        if self.rows is None:
            if bool(self.length == 1):
                from .npshim import asarr
                return asarr(self.get(0))
            return self.ravel()
        raise Unsupported("squeeze")

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        elif len(s) == 1 and isinstance(s[0], list):
            s = tuple(s[0])
        if self.rows is not None:
            raise Unsupported("reshape of a symbolic-length matrix")
        s = tuple(-1 if isinstance(x, int) and x == -1 else Re.of(x) for x in s)
        c = self.copy()
        c.frozen = self.frozen
        if len(s) == 1:
            c.layout = None
            if s[0] != -1 and not same(s[0], self.length):
                raise ValueError("cannot reshape")
            return c
        if len(s) == 2 and isinstance(s[1], Re) and s[1].isconst and s[1].cval() == 1:
            if isinstance(s[0], Re) and not same(s[0], self.length):
                raise ValueError("cannot reshape")
            c.layout = "n1"
            return c
        raise Unsupported("reshape of a symbolic-length array")

    def astype(self, *a, **k):
        return self.copy()

    def tolist(self):
        return VList(self.length, self.get)

    # -- element access
    def norm_index(self, j):
        j = Re.of(j)
        if j is None:
            raise Unsupported("index")
        if j.isconst and j.cval() < 0:
            j = self.length + j
        T.CTX.eng.in_bounds(j, self.length)
        return j

    def get(self, j):
        j = Re.of(j)
        for idx, val in reversed(self.log):
            if same(j, idx):
                return val
        return self.base(j)

    def col(self, j):
        v = self.get(j)
        return v.copy() if isinstance(v, rnp.ndarray) else v

    def _sel(self, k):
        """normalises an index for the symbolic axis: ('one', j) / ('list', [j]) / ('slice', a, b)"""
        from .npshim import SArr, asarr
        if isinstance(k, (Re, int, rnp.integer)):
            return ("one", self.norm_index(k))
        if isinstance(k, (list, rnp.ndarray)):
            ks = k if isinstance(k, list) else asarr(k).ravel().tolist()
            return ("list", [self.norm_index(x) for x in ks])
        if isinstance(k, slice):
            if k.step is not None and not (isinstance(k.step, int) and k.step == 1):
                raise Unsupported("slice step on a symbolic axis")
            a = Re.of(0 if k.start is None else k.start)
            b = self.length if k.stop is None else Re.of(k.stop)
            if a.isconst and a.cval() < 0:
                a = self.length + a
            if b.isconst and b.cval() < 0:
                b = self.length + b
            return ("slice", a, b)
        raise Unsupported("index %r on a symbolic axis" % (k,))

    def __getitem__(self, k):
        from .npshim import SArr, asarr, mk
        if self.rows is None:
            if isinstance(k, tuple):
                if self.layout == "n1" and len(k) == 2:
                    k = k[0]
                elif len(k) == 1:
                    k = k[0]
                else:
                    raise IndexError("too many indices for array")
            s = self._sel(k)
            if s[0] == "one":
                v = self.get(s[1])
                return asarr([v]) if self.layout == "n1" else v
            if s[0] == "list":
                return asarr([self.get(j) for j in s[1]])
            return self._slice(s[1], s[2])
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported("row index of a symbolic-length matrix")
        r, c = k
        s = self._sel(c)
        if s[0] == "one":
            v = self.get(s[1])
            fr = getattr(T.CTX.eng, "frame", None)
            if fr and self.frozen:
                v = fr.freeze(v.copy())
                return v if isinstance(r, slice) and r == slice(None) else v[r]
            return v[r] if not (isinstance(r, slice) and r == slice(None)) else v.copy()
        if s[0] == "list":
            cols = [self.get(j) for j in s[1]]
            m = mk((self.rows, len(cols)))
            for i, v in enumerate(cols):
                m[:, i] = v
            return m[r, :] if not (isinstance(r, slice) and r == slice(None)) else m
        v = self._slice(s[1], s[2])
        if isinstance(r, slice) and r == slice(None):
            return v
        return self._rows(v, r)

    def _rows(self, v, r):
        from .npshim import asarr
        probe = v.base(gidx())[r]
        rows = None if isinstance(probe, Re) else len(probe)
        w = SymVec(v.length, lambda j: v.get(j)[r], rows)
        w.frozen = v.frozen
        return w

    def _slice(self, a, b):
        me = self
        n = b - a
        if not a.isconst or a.cval() != 0:
            w = SymVec(n, lambda j: me.get(j + a), self.rows, layout=self.layout)
        else:
            snap = self.copy()
            w = SymVec(n, lambda j: snap.get(j), self.rows, layout=self.layout)
        w.frozen = self.frozen
        return w

    def __setitem__(self, k, v):
        from .npshim import asarr
        if self.frozen:
            T.CTX.eng.fail("argument not modified", "an argument array is written to")
        if self.rows is None:
            if isinstance(k, tuple):
                k = k[0]
            s = self._sel(k)
            if s[0] == "one":
                v = asarr(v).item() if isinstance(v, (rnp.ndarray, list)) else Re.of(v) if Re.of(v) is not None else v
                self.log.append((s[1], v))
                return
            if s[0] == "list":
                vs = asarr(v).ravel().tolist()
                if len(vs) == 1:
                    vs = vs * len(s[1])
                for j, x in zip(s[1], vs):
                    self.log.append((j, x))
                return
            raise Unsupported("slice assignment on a symbolic axis")
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported("row assignment to a symbolic-length matrix")
        r, c = k
        s = self._sel(c)
        if s[0] == "slice":
            raise Unsupported("slice assignment on a symbolic axis")
        js = [s[1]] if s[0] == "one" else s[1]
        val = asarr(v)
        for n, j in enumerate(js):
            old = self.get(j).copy()
            if s[0] == "list":
                tmp = old.reshape((-1, 1))
                tmp[r, [0]] = val if val.ndim < 2 or val.shape[1] == 1 else val[:, [n]]
                new = tmp.reshape((-1,))
            else:
                old[r] = val
                new = old
            self.log.append((j, new))

    # -- operators
    def _op(self, o, f):
        return elementwise(f, self, o)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __neg__(self): return elementwise(lambda a: -a, self)
    def __lt__(self, o): return self._op(o, lambda a, b: T.bo(a < b))
    def __le__(self, o): return self._op(o, lambda a, b: T.bo(a <= b))
    def __gt__(self, o): return self._op(o, lambda a, b: T.bo(a > b))
    def __ge__(self, o): return self._op(o, lambda a, b: T.bo(a >= b))
    def __eq__(self, o):
        if o is None:
            return False
        return self._op(o, lambda a, b: T.bo(a == b))
    def __ne__(self, o):
        if o is None:
            return True
        return self._op(o, lambda a, b: T.bo(a != b))
    def __and__(self, o): return self._op(o, lambda a, b: T.band([T.bo(a), T.bo(b)]))
    def __or__(self, o): return self._op(o, lambda a, b: T.bor([T.bo(a), T.bo(b)]))
    def __invert__(self): return elementwise(lambda a: T.bnot(T.bo(a)), self)
    def __abs__(self): return elementwise(T.absv, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    __hash__ = None

    def __iadd__(self, o):
        return self._inplace(elementwise(lambda a, b: a + b, self, o))

    def __isub__(self, o):
        return self._inplace(elementwise(lambda a, b: a - b, self, o))

    def _inplace(self, r):
        if self.frozen:
            T.CTX.eng.fail("argument not modified", "an argument array is written to")
        self.base, self.log = r.base, []
        return self

    def __len__(self):
        raise Unsupported("len() of a symbolic-length array reached native code")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic-length array outside a loop")

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def all(self, axis=None):
        return forall(self)

    def any(self, axis=None):
        return T.bnot(forall(elementwise(lambda a: T.bnot(T.bo(a)), self)))

    def dot(self, o):
        return matmul(self, o)

    def sum(self, *a):
        raise Unsupported("sum over a symbolic-length array")

    def nonzero(self):
        return nonzero(self)

    def __repr__(self):
        return "SymVec(%s,%s)" % (self.name, self.shape)


def elementwise(f, *args):
    vs = [a for a in args if isinstance(a, SymVec)]
    n = vs[0].length
    for v in vs[1:]:
        if not same(v.length, n):
            raise ValueError("operands could not be broadcast together")
    lay = set(v.layout for v in vs)
    if len(lay) > 1:
        raise Unsupported("broadcast of (N,) with (N,1)")
    rows = set(v.rows for v in vs)
    if len(rows) > 1:
        raise Unsupported("mixed rank broadcast on a symbolic axis")
    from .npshim import asarr, elementwise as ew
    snaps = []
    for a in args:
        if isinstance(a, SymVec):
            snaps.append(a.copy())
        elif isinstance(a, VList):
            if not same(a.length, n):
                raise ValueError("operands could not be broadcast together")
            snaps.append(SymVec(a.length, a.get))
        else:
            a = asarr(a) if not isinstance(a, (Re, Bo)) else a
            if isinstance(a, rnp.ndarray):
                if a.shape != () and a.size != 1:
                    raise Unsupported("broadcast of fixed and symbolic length")
                a = a.item()
            snaps.append(a)
    r = rows.pop()
    if r is None:
        g = lambda j: f(*[s.get(j) if isinstance(s, SymVec) else s for s in snaps])
    else:
        g = lambda j: ew(f, *[s.get(j) if isinstance(s, SymVec) else s for s in snaps])
    return SymVec(n, g, r, layout=lay.pop())


def forall(v):
    """quantified condition; equal element conditions give the same atom"""
    v = v.copy()
    eng = T.CTX.eng
    if eng is None:
        e = v.get(gidx())
    else:
        e = eng.generic(lambda: T.bo(x) if not isinstance(x := v.get(gidx()), rnp.ndarray) else x, gidx(), Re.of(v.length))
        if e is None:
            return eng.forall_by_cases(v.get, Re.of(v.length))
    if isinstance(e, rnp.ndarray):
        return T.band([_forall1(v.length, lambda j, i=i: T.bo(v.get(j).ravel().tolist()[i])) for i in range(e.size)])
    return _forall1(v.length, lambda j: T.bo(v.get(j)))


def _inside(at, g, n):
    """at(g) for an index that is within the bounds"""
    eng = T.CTX.eng
    return at(g) if eng is None else eng.inside(lambda: at(g), g, n)


def _forall1(n, at):
    n = Re.of(n)
    c = _inside(at, gidx(), n)
    if c.op == "const":
        ws = []
        if c.a and T.CTX.eng is not None:           # a contract may describe single elements differently
            for w in T.CTX.eng.witnesses:
                cw = _inside(at, w, n)
                if cw.op != "const" or not cw.a:
                    ws.append(T.bor([w < 0, w >= n, cw]))
        return T.band([T.bor([c, n <= 0])] + ws)
    if c.op == "and":
        return T.band([_forall1(n, lambda j, i=i: _part(at(j), i)) for i in range(len(c.a))])
    name = "forall #g<%r: %r" % (n, c)
    T.CTX.tables.setdefault("forall", {})[name] = (at, n)
    return T.batom(name)


def _part(c, i):
    return c.a[i] if c.op == "and" else c


def forall_cond(n, f):
    """contract side: forall j < n. f(j)"""
    return _forall1(n, lambda j: T.bo(f(j)))


def sym_zeros(shape, fill=0):
    shape = tuple(Re.of(s) for s in shape)
    from .npshim import mk
    if len(shape) == 1:
        return SymVec(shape[0], lambda j: Re.const(fill))
    if len(shape) == 2 and shape[0].isconst:
        r = int(shape[0].cval())
        return SymVec(shape[1], lambda j: mk((r,), fill), r)
    if len(shape) == 2 and shape[1].isconst and shape[1].cval() == 1:
        return SymVec(shape[0], lambda j: Re.const(fill), layout="n1")
    raise Unsupported("symbolic array shape %r" % (shape,))


def matmul(a, b):
    from .npshim import asarr, NP
    if not isinstance(a, SymVec) and isinstance(b, SymVec):
        a = asarr(a)
        if b.rows is None or a.ndim != 2:
            raise Unsupported("product with a symbolic-length vector")
        if a.shape[1] != b.rows:
            raise ValueError("matmul: core dimension mismatch")
        s = b.copy()
        return SymVec(b.length, lambda j: NP.matmul(a, s.get(j)), a.shape[0])
    h = getattr(T.CTX.eng, "externals", {}).get("matmul")
    if h is not None:
        return h(a, b)
    raise Unsupported("contraction over a symbolic axis")


class Indices:
    """indices at which a condition of symbolic length holds, in ascending order (numpy.nonzero, argwhere, argmax of a condition).
    Only the first one and whether there is one are represented:
    k0 is the first index: c(k0) and for all j < k0 not c(j)."""

    def __init__(self, c, column):
        self.c, self.n, self.column = c.copy(), c.length, column
        self.k0 = None

    def cond(self, j):
        return T.bo(self.c.get(j))

    def exists(self):
        e = T.CTX.eng
        if self.k0 is None:
            if e.choose(2) == 0:
                e.skolems += 1
                k = T.var("#first%d" % e.skolems, isint=True)
                e.assume(k >= 0)
                e.assume(k < self.n)
                e.assume(self.cond(k))
                self.k0 = k
                T.CTX.tables.setdefault("firsts", []).append(self)
            else:
                # for all j < n not c(j), used at the first and the last index
                self.k0 = False
                if bool(self.n >= 1):
                    for w in (Re.const(0), self.n - 1):
                        c = T.bnot(self.cond(w))
                        e.assume(c)
                        if c.op != "const" and not e.feasible(c):
                            from .engine import Infeasible
                            raise Infeasible()
        return self.k0 is not False

    def before(self, j):
        """instance at j of: for all j < k0 not c(j)"""
        return T.bor([j < 0, j >= self.k0, T.bnot(self.cond(j))])

    def first(self):
        if not self.exists():
            raise IndexError("index 0 is out of bounds for axis 0 with size 0")
        return self.k0

    def __getitem__(self, k):
        from .npshim import asarr
        if isinstance(k, tuple) and self.column and k in ((0, 0),):
            return self.first()
        if isinstance(k, int) and k == 0:
            return asarr([self.first()]) if self.column else self.first()
        raise Unsupported("index %r into the positions of a condition" % (k,))

    def len_sym(self):
        if not self.exists():
            return 0
        e = T.CTX.eng
        e.skolems += 1
        m = T.var("#count%d" % e.skolems, isint=True, nonneg=True)
        e.assume(m >= 1)
        return m

    def __len__(self):
        if self.exists():
            raise Unsupported("number of positions of a condition")
        return 0

    @property
    def length(self):
        raise Unsupported("loop over the positions of a condition")

    @property
    def size(self):
        return self.len_sym()

    @property
    def shape(self):
        return (self.len_sym(), 1) if self.column else (self.len_sym(),)

    def flatten(self):
        r = Indices(self.c, False)
        r.k0 = self.k0
        return r
    ravel = flatten


def nonzero(c):
    return (Indices(c, False),)


def argwhere(c):
    return Indices(c, True)


def argsort(a):
    h = getattr(T.CTX.eng, "externals", {}).get("argsort")
    if h is None:
        raise Unsupported("argsort of a symbolic-length array")
    return h(a)


def join(name, parts, axis=None):
    """stacking rows of arrays with the same symbolic number of columns"""
    if (name == "vstack" or name == "concatenate" and axis in (None, 0)) and all(isinstance(p, SymVec) and p.rows is not None for p in parts):
        n = parts[0].length
        for p in parts[1:]:
            if not same(p.length, n):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        snaps = [p.copy() for p in parts]
        from .npshim import NP
        return SymVec(n, lambda j: NP.concatenate([s.get(j) for s in snaps]), sum(p.rows for p in parts))
    raise Unsupported("joining arrays of symbolic length")


class VList:
    """list of symbolic length (elements by function; writes and appends are logged)"""
    row = None          # length of the elements when they are vectors

    def __init__(self, length, base, name=None):
        self.length = Re.of(length)
        self.base = base
        self.log = []
        self.name = name
        self.frozen = False

    def get(self, j):
        j = Re.of(j)
        for idx, val in reversed(self.log):
            if same(j, idx):
                return val
        return self.base(j)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._slice(k)
        k = Re.of(k)
        if k.isconst and k.cval() < 0:
            k = self.length + k
        T.CTX.eng.in_bounds(k, self.length)
        return self.get(k)

    def _slice(self, k):
        if k.step is not None and not (isinstance(k.step, int) and k.step == 1):
            raise Unsupported("slice step on a symbolic-length list")

        def end(x, d):
            x = Re.of(d if x is None else x)
            if x.isconst and x.cval() < 0 or bool(x < 0):
                x = self.length + x
                return x if bool(x >= 0) else Re.const(0)
            return x if bool(x <= self.length) else self.length
        a, b = end(k.start, 0), end(k.stop, self.length)
        c = self.copy()
        n = b - a if bool(a <= b) else Re.const(0)
        return VList(n, lambda j: c.get(j + a))

    def __setitem__(self, k, v):
        if self.frozen:
            T.CTX.eng.fail("argument not modified", "an argument list is written to")
        k = Re.of(k)
        if k.isconst and k.cval() < 0:
            k = self.length + k
        T.CTX.eng.in_bounds(k, self.length)
        self.log.append((k, v))

    def append(self, v):
        if self.frozen:
            T.CTX.eng.fail("argument not modified", "an argument list is appended to")
        n = self.length
        self.length = n + 1
        self.log.append((n, v))

    def copy(self):
        c = VList(self.length, self.base, self.name)
        c.log = list(self.log)
        c.row = self.row
        return c

    def __add__(self, o):
        if isinstance(o, VList) or o.__class__ is list:
            return concat(self, o)
        raise Unsupported("concatenation of symbolic-length lists")

    def __radd__(self, o):
        if o.__class__ is list:
            return concat(o, self)
        raise Unsupported("concatenation of symbolic-length lists")

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        if o.__class__ in (list, tuple):
            for x in o:
                self.append(x)
            return
        raise Unsupported("extend of a symbolic-length list")

    def __len__(self):
        raise Unsupported("len() of a symbolic-length list reached native code")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic-length list outside a loop")

    def __bool__(self):
        return bool(self.length > 0)

    def asarray(self):
        me = self.copy()
        return SymVec(self.length, me.get)

    none_rule = None    # contract: does the list contain None?
    reps = None         # contract: every element is like one of these, and each of these is like some element

    def __contains__(self, x):
        if x is None and self.none_rule is not None:
            return self.none_rule(self)

        def differs(v):
            if v is None or x is None:
                return T.TRUE if v is not x else T.FALSE
            return T.bnot(T.bo(v == x))
        return bool(T.bnot(forall(VList(self.length, lambda j: differs(self.get(j))))))

    def all(self):
        if self.reps:
            return T.band([T.bo(x) for x in self.reps()])
        return forall(self)

    def any(self):
        if self.reps:
            return T.bor([T.bo(x) for x in self.reps()])
        return T.bnot(forall(VList(self.length, lambda j: T.bnot(T.bo(self.get(j))))))


def concat(a, b):
    la = a.length if isinstance(a, VList) else Re.const(len(a))
    lb = b.length if isinstance(b, VList) else Re.const(len(b))
    a, b = a.copy(), b.copy()

    def get(x, n, j):
        if isinstance(x, VList):
            return x.get(j)
        if j.isconst:
            return x[j.cval()]
        for i in range(len(x) - 1):
            if same(j, i):
                return x[i]
        return x[-1]

    def base(j):
        d = j - la
        first = d.cval() < 0 if d.isconst else bool(j < la)
        return get(a, la, j) if first else get(b, lb, d)
    return VList(la + lb, base)


def rows_op(f, args):
    """elementwise function of a list of vectors and plain operands"""
    xs = [a for a in args if isinstance(a, VList) and a.row is not None]
    if not xs:
        return None
    if len(xs) > 1:
        raise Unsupported("elementwise operation on two lists of vectors")
    for a in args:
        if a is not xs[0] and isinstance(a, (VList, SymVec)) and not isinstance(xs[0].row, Re):
            raise Unsupported("elementwise operation on a list of vectors")
    args = [a.asarray() if a is not xs[0] and isinstance(a, VList) else a for a in args]
    snap = xs[0].copy()
    r = VList(snap.length, lambda j: f(*[snap.get(j) if a is xs[0] else a for a in args]))
    r.row = snap.row
    return r


class Bag(VList):
    """list that is only appended to, with an invariant that holds for every element:
    append(x) is obliged to establish it, and whatever is read satisfies it"""

    def __init__(self, name, inv, make, row=None):
        n = T.var("len(%s)" % name, isint=True, nonneg=True)
        T.CTX.eng.assume(n >= 0)
        VList.__init__(self, n, None, name)
        self.inv, self.make, self.row, self.elems = inv, make, row, []

    def get(self, j):
        j = Re.of(j)
        for i, v in self.elems:
            if same(i, j):
                return v
        v = self.make("%s[%d]" % (self.name, len(self.elems)))
        self.elems.append((j, v))
        return v

    def copy(self):
        return self

    def append(self, x):
        self.inv(x)
        self.length = self.length + 1       # which elements were read before is forgotten
        self.elems = []

    def extend(self, xs):
        if isinstance(xs, (list, tuple)):
            for x in xs:
                self.append(x)
            return
        raise Unsupported("extend")

    def __setitem__(self, k, v):
        raise Unsupported("assignment to an element")
