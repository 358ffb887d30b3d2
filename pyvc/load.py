"""Loads the modules of /repo for verification.

The source text is read from /repo on every run, parsed, and compiled after one
mechanical rewriting of the syntax tree:
  * `for`/`while` statements get a loop header that lets the verifier replace
    iteration over a symbolic range by the induction rule (concrete iteration is
    unchanged);
  * `while i < E: ...; i += 1` is compiled as `for i in range(i, E): ...` when the body changes neither i nor E;
  * list comprehensions, set comprehensions and generator expressions get the same treatment;
  * a local function whose loop changes a variable of the function around it declares it `nonlocal`, so that the loop header
    can put the invariant's value there;
  * `"literal" % x` formats symbolic numbers by their text;
  * nothing else is changed; doc strings and comments are ignored by Python itself.
Imports are redirected to the verifier's numpy/math and to stand-ins for packages
that are external to the repository."""
import ast, builtins, os, re, sys, types
from . import terms as T, npshim, seqs as S
from .terms import Re, Bo, Unsupported
from .engine import PathEnd, Probe

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "general_robotics_toolbox"
SRC = os.path.join(REPO, "src", PKG)


# ---------------------------------------------------------------- rewriting
MUTATORS = ("append", "extend", "insert", "pop", "update", "add", "remove", "clear", "sort", "reverse", "setdefault", "popitem", "discard", "fill", "put", "itemset")


def bound(fn):
    """names bound in a function, not counting those of functions inside it"""
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    free = set()

    def walk(n):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
                continue
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                free.update(x.names)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                out.update((y.asname or y.name).split(".")[0] for y in x.names)
            walk(x)
    for b in fn.body:
        walk(ast.Module(body=[b], type_ignores=[]))
    return out - free


def effects(fn):
    """{local function: variables of fn and of the functions around it that calling it changes}"""
    fs = {x.name: x for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}
    eff = {k: [] for k in fs}
    while True:
        old = {k: list(v) for k, v in eff.items()}
        for k, x in fs.items():
            b = bound(x)
            eff[k] = [n for n in assigned(x.body, old) if n not in b]
        if eff == old:
            return eff


def assigned(nodes, calls=None):
    names = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in names:
                names.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, ast.Subscript):
            base(t)

    def base(t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        if isinstance(t, ast.Name) and t.id not in names:
            names.append(t.id)

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_Call(self, n):
            # method calls may mutate their object (append, extend, ...)
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                base(n.func.value)
            if isinstance(n.func, ast.Name):
                for x in (calls or {}).get(n.func.id, ()):      # what a local function changes
                    if x not in names:
                        names.append(x)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            pass

        def visit_Lambda(self, n):
            pass
    for n in nodes:
        V().visit(n)
    return names


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infunc = 0
        self.funcname = []
        self.scopes, self.outer, self.calls = [], [], {}

    def visit_FunctionDef(self, node):
        self.infunc += 1
        self.funcname.append(node.name)
        old = self.calls
        if self.infunc == 1:
            self.calls = effects(node)
        self.scopes.append(bound(node))
        self.outer.append([])
        node = self.generic_visit(node)
        if self.outer[-1]:
            # a variable of a function around this one gets an invariant in a loop here
            doc = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(doc, ast.Nonlocal(names=list(self.outer[-1])))
        self.outer.pop()
        self.scopes.pop()
        self.calls = old
        self.funcname.pop()
        self.infunc -= 1
        return node

    def _carried(self, names):
        """the loop-carried variables among names: those of this function and of the functions around it"""
        out = []
        for n in names:
            if n.startswith("_pv_"):
                continue
            if n in self.scopes[-1]:
                out.append(n)
            elif any(n in sc for sc in self.scopes[:-1]):
                out.append(n)
                if n not in self.outer[-1]:
                    self.outer[-1].append(n)
        return out

    def _call(self, name, args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[])

    def _havoc(self, var, names):
        body = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                           value=ast.Subscript(value=ast.Name(id=var, ctx=ast.Load()), slice=ast.Constant(n), ctx=ast.Load()))
                for n in names]
        return ast.If(test=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr="symbolic", ctx=ast.Load()),
                      body=body or [ast.Pass()], orelse=[])

    def visit_For(self, node):
        names = assigned(node.body, self.calls)
        node = self.generic_visit(node)
        if not self.infunc:
            return node
        self.n += 1
        v = "_pv_L%d" % self.n
        names = self._carried(names)
        tn = assigned([ast.For(target=node.target, iter=ast.Constant(0), body=[], orelse=[])])
        names = [n for n in names if n not in tn] + []
        mk = ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                        value=self._call("__pv_for__", [ast.Constant("%s#%d" % (".".join(self.funcname), node.lineno)), node.iter,
                                                        ast.Constant(tuple(names)), self._call("__pv_locals__", [])]))
        node.iter = ast.Name(id=v, ctx=ast.Load())
        re = self._havoc(v, names)
        re.test = ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="rebind", ctx=ast.Load())
        import copy
        node.body = [re] + node.body
        node.orelse = [copy.deepcopy(re)] + node.orelse
        return [mk, self._havoc(v, names), node]

    def _counting(self, node):
        """while i < E: body; i += 1   is   for i in range(i, E): body   when the body changes neither i nor what E reads"""
        t, last = node.test, node.body[-1]
        if not (self.infunc and isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and
                isinstance(t.left, ast.Name) and not node.orelse and len(node.body) > 1):
            return None
        i = t.left.id
        if isinstance(last, ast.AugAssign):
            inc = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i:
            v = last.value
            inc = isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == i and v.right
        else:
            inc = None
        if not (isinstance(inc, ast.Constant) and inc.value == 1):
            return None
        body = node.body[:-1]
        ch = set(assigned(body)) | {i}
        E = t.comparators[0]
        for x in ast.walk(E):
            if isinstance(x, ast.Name) and x.id in ch or isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return None
            if not isinstance(x, (ast.Name, ast.Call, ast.Constant, ast.BinOp, ast.Attribute, ast.Subscript, ast.operator, ast.expr_context)):
                return None
        read = {x.id for x in ast.walk(E) if isinstance(x, ast.Name)}
        if not isinstance(E, ast.Name):
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        return None
                    if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id in read for a in x.args):
                        return None
        if i in assigned(body) or any(isinstance(x, (ast.Continue, ast.Delete)) for b in body for x in ast.walk(b)):
            return None
        rng = ast.Call(func=ast.Name(id="__pv_range__", ctx=ast.Load()), args=[ast.Name(id=i, ctx=ast.Load()), E], keywords=[])
        end = ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=ast.Call(func=ast.Name(id="__pv_max__", ctx=ast.Load()),
                         args=[ast.Name(id="_pv_s%d" % (self.n + 1), ctx=ast.Load()), E], keywords=[]))
        start = ast.Assign(targets=[ast.Name(id="_pv_s%d" % (self.n + 1), ctx=ast.Store())], value=ast.Name(id=i, ctx=ast.Load()))
        loop = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=rng, body=body, orelse=[end])
        for x in (start, loop, end):
            ast.copy_location(x, node)
        ast.fix_missing_locations(start), ast.fix_missing_locations(loop)
        return [start] + self.visit_For(loop)

    def visit_While(self, node):
        r = self._counting(node)
        if r is not None:
            return r
        names = assigned(node.body, self.calls)
        node = self.generic_visit(node)
        if not self.infunc:
            return node
        self.n += 1
        v = "_pv_W%d" % self.n
        names = self._carried(names)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.test)
        mk = ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())],
                        value=self._call("__pv_while__", [ast.Constant("%s#%d" % (".".join(self.funcname), node.lineno)), lam,
                                                          ast.Constant(tuple(names)), self._call("__pv_locals__", [])]))
        node.test = ast.Call(func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="test", ctx=ast.Load()), args=[], keywords=[])
        return [mk, self._havoc(v, names), node]

    def _comp(self, node, kind):
        node = self.generic_visit(node)
        if len(node.generators) != 1 or not self.infunc:
            return node
        g = node.generators[0]
        if g.is_async:
            return node
        tgt = g.target
        if isinstance(tgt, ast.Name):
            params = [tgt.id]
        elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
            params = [e.id for e in tgt.elts]
        else:
            return node

        def lam(body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[], kw_defaults=[],
                                                 defaults=[]), body=body)
        cond = ast.Constant(None)
        if g.ifs:
            cond = lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        return self._call("__pv_comp__", [ast.Constant(kind), lam(node.elt), g.iter, cond, ast.Constant(isinstance(tgt, ast.Tuple))])

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(self._call("__pv_fmt__", [node.left, node.right]), node)
        return node

    def visit_SetComp(self, node):
        return self._call("set", [self._comp(node, "gen")]) if self.infunc else node

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")


# ---------------------------------------------------------------- runtime support
class Poison:
    """value of a loop-carried variable about which no invariant is known"""

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried variable '%s' has no invariant" % object.__getattribute__(self, "_n"))
    __getattr__ = __call__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __neg__ = __eq__ = __ne__ = __contains__ = _bad
    __hash__ = None


class ConcreteLoop:
    symbolic = rebind = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def _symbolic_iter(it):
    if isinstance(it, S.SymRange):
        c = it.const()
        return None if c is not None else it
    if isinstance(it, (S.VList, S.SymVec, SymZip)) or isinstance(it, S.Indices) and not it.column:
        return it
    return None


class SymZip:
    """zip/enumerate over sequences of symbolic length"""

    def __init__(self, parts):
        self.parts = parts
        self.length = None
        for p in parts:
            n = p.length
            if self.length is None:
                self.length = n
            elif not S.same(self.length, n):
                self.length = n if bool(n < self.length) else self.length     # zip stops at the shortest

    def at(self, k):
        return tuple(p.at(k) if isinstance(p, (S.SymRange, SymZip)) else p.get(k) for p in self.parts)

    get = at


def seq_at(it, k):
    return it.at(k) if isinstance(it, (S.SymRange, SymZip)) else it.get(k)


class SymFor:
    symbolic = True

    def __init__(self, eng, lid, it, names, loc):
        self.eng = eng
        self.rule = eng.loop_rule(lid, it, names, loc)
        fr = getattr(eng, "frame", None)
        self.alias = {n for n in names if n in loc and fr.aliases(loc[n])} if fr else ()
        self.vals = self.rule.enter()      # entry check, case split, havoc

    def __getitem__(self, n):
        if n not in self.vals:
            return Poison(n)
        return self.eng.frame.freeze(self.vals[n]) if n in self.alias else self.vals[n]

    def __iter__(self):
        return self

    @property
    def rebind(self):
        # a rule that starts iterations from states of its own sets the loop-carried variables
        return getattr(self.rule, "rebind", False)

    def __next__(self):
        fr = sys._getframe(1)
        try:
            return self.rule.step(dict(fr.f_locals))
        finally:
            self.vals = getattr(self.rule, "vals", self.vals)


class While:
    def __init__(self, eng, lid, cond, names, loc):
        self.eng, self.cond = eng, cond
        self.symbolic = False
        self.first = True
        h = getattr(eng, "while_rule", None)
        if h is not None:
            old = getattr(eng, "probing", False)
            eng.probing = True
            try:
                bool(cond())
            except Probe:
                self.symbolic = True
            finally:
                eng.probing = old
            if self.symbolic:
                self.rule = h(lid, cond, names, loc)
                fr = getattr(eng, "frame", None)
                self.alias = {n for n in names if n in loc and fr.aliases(loc[n])} if fr else ()
                self.vals = self.rule.enter()

    alias = ()

    def __getitem__(self, n):
        if n not in self.vals:
            return Poison(n)
        return self.eng.frame.freeze(self.vals[n]) if n in self.alias else self.vals[n]

    count = 0

    def test(self):
        if not self.symbolic:
            self.count += 1
            if self.count > 10000:
                raise Unsupported("loop bound")
            return bool(self.cond())
        if self.first:
            self.first = False
            b = bool(self.cond())
            self.rule.tested(b)
            return b
        fr = sys._getframe(1)
        self.rule.end(dict(fr.f_locals))
        raise PathEnd()


def pv_comp(kind, f, it, cond, tup):
    g = (lambda x: f(*x)) if tup else f
    c = None if cond is None else ((lambda x: cond(*x)) if tup else cond)
    s = _symbolic_iter(it)
    if s is None:
        if kind == "list":
            return [g(x) for x in it if c is None or c(x)]
        return (g(x) for x in it if c is None or c(x))
    if c is not None:
        h = getattr(T.CTX.eng, "filter_rule", None)
        if h is None:
            raise Unsupported("filtered comprehension over a symbolic-length sequence")
        return h(s, g, c)
    r = S.VList(s.length, lambda j: g(seq_at(s, j)))
    if getattr(s, "reps", None):
        r.reps = lambda s=s: [g(x) for x in s.reps()]
    h = getattr(T.CTX.eng, "comp_rule", None)
    return r if h is None else h(r)


# ---------------------------------------------------------------- builtins
def pv_fmt(fmt, a):
    """fmt % a"""
    xs = a if isinstance(a, tuple) else (a,)
    if any(isinstance(x, (Re, Bo)) for x in xs):
        fmt = re.sub(r"%[-+ 0#]*\d*(\.\d+)?[diufFeEgG]", "%s", fmt)
    return fmt % a


class SymSet:
    """set of the elements of a sequence of symbolic length"""
    __hash__ = None

    def __init__(self, xs):
        self.xs = xs

    def __contains__(self, x):
        return bool(T.bo(S.VList(self.xs.length, lambda j: T.bo(self.xs.get(j) == x)).any())) if not self.xs.reps else bool(T.bor([T.bo(y == x) for y in self.xs.reps()]))

    def issubset(self, o):
        f = lambda y: T.bor([T.bo(y == x) for x in o])
        if self.xs.reps:
            return bool(T.band([f(y) for y in self.xs.reps()]))
        return bool(T.bo(S.VList(self.xs.length, lambda j: f(self.xs.get(j))).all()))

    def issuperset(self, o):
        return all(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            raise Unsupported("comparison of a set of symbolic size")
        return self.issuperset(o) and self.issubset(o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __le__, __ge__ = issubset, issuperset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __bool__(self):
        return bool(self.xs.length > 0)

    def _bad(self, *a, **k):
        raise Unsupported("operation on a set of symbolic size")
    __len__ = __iter__ = __lt__ = __gt__ = __and__ = __or__ = __sub__ = __xor__ = __rand__ = __ror__ = __rsub__ = add = update = discard = remove = _bad
    intersection = union = difference = _bad


def b_set(*a):
    if a and isinstance(a[0], (S.VList, S.SymVec)):
        x = a[0]
        return SymSet(x.copy() if isinstance(x, S.VList) and not x.reps else x if isinstance(x, S.VList) else x.tolist())
    return set(*a)


class _SM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, SymSet))

    def __call__(cls, *a):
        return b_set(*a)


class _SetProxy(set, metaclass=_SM):
    pass


def b_len(x):
    if isinstance(x, S.VList):
        return x.length
    if isinstance(x, S.SymVec):
        return x.shape[0]
    if isinstance(x, (S.SymRange, SymZip)):
        return x.length
    if hasattr(x, "len_sym"):
        return x.len_sym()
    return builtins.len(x)


def b_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    import numpy as rnp
    a = [x.item() if isinstance(x, rnp.ndarray) else x for x in a]
    a = [Re.of(x) for x in a]
    for x in a:
        if not x.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        a = [Re.const(0), a[0]]
    r = S.SymRange(*a)
    c = r.const()
    return c if c is not None else r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Re))


class b_float(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        import numpy as rnp
        if isinstance(x, rnp.ndarray):
            x = npshim.asarr(x).item()
        if isinstance(x, (Re, Bo)):
            return Re.of(x)
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Re) and x.isint)


class b_int(builtins.int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        import numpy as rnp
        if isinstance(x, rnp.ndarray):
            x = npshim.asarr(x).item()
        if isinstance(x, Bo):
            x = x.toint()
        if isinstance(x, Re):
            if x.isconst:
                return builtins.int(x.cval())
            return npshim.trunc(x)
        return builtins.int(x, *a)


def b_sum(xs, start=0):
    if _symbolic_iter(xs) is not None:
        h = getattr(T.CTX.eng, "sum_rule", None)
        if h is None:
            raise Unsupported("sum over a symbolic-length sequence")
        return h(xs) + start
    r = start
    for x in xs:
        r = r + x
    return r


def b_all(xs):
    if isinstance(xs, (S.VList, S.SymVec)):
        return xs.all()
    for x in xs:
        if not x:
            return False
    return True


def b_any(xs):
    if isinstance(xs, (S.VList, S.SymVec)):
        return xs.any()
    for x in xs:
        if x:
            return True
    return False


def b_zip(*xs):
    ss = [_symbolic_iter(x) for x in xs]
    if any(s is not None for s in ss):
        if all(s is not None for s in ss):
            return SymZip(ss)
        raise Unsupported("zip of fixed and symbolic lengths")
    return zip(*xs)


def b_enumerate(x, start=0):
    s = _symbolic_iter(x)
    if s is not None:
        return SymZip([S.SymRange(start, s.length + start), s])
    return enumerate(x, start)


def b_list(x=()):
    if isinstance(x, S.VList):
        return x.copy()
    if isinstance(x, S.SymVec):
        return x.tolist()
    if isinstance(x, S.SymRange):
        return S.VList(x.length, x.at)
    return list(x)


def b_tuple(x=()):
    if isinstance(x, (S.VList, S.SymVec, S.SymRange)):
        return b_list(x)
    return tuple(x)


def b_map(f, *xs):
    if len(xs) == 1:
        s = _symbolic_iter(xs[0])
        if s is not None:
            return S.VList(s.length, lambda j: f(seq_at(s, j)))
    return map(f, *xs)


def b_filter(f, x):
    s = _symbolic_iter(x)
    if s is not None:
        h = getattr(T.CTX.eng, "filter_rule", None)
        if h is None:
            raise Unsupported("filter over a symbolic-length sequence")
        return h(s, lambda e: e, f)
    return filter(f, x)


def b_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k:
        return builtins.min(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        r = x if bool(x < r) else r
    return r


def b_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k:
        return builtins.max(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        r = x if bool(x > r) else r
    return r


def b_abs(x):
    if isinstance(x, (Re, Bo)):
        return T.absv(Re.of(x))
    return builtins.abs(x)


def b_round(x, n=0):
    if isinstance(x, Re):
        return npshim.round_model(x, n or 0)
    return builtins.round(x, n)


def b_divmod(a, b):
    if isinstance(a, Re) or isinstance(b, Re):
        return T.floor(Re.of(a) / b), Re.of(a) % b
    return builtins.divmod(a, b)


def b_pow(a, b):
    return a ** b


def b_reversed(x):
    s = _symbolic_iter(x)
    if s is not None:
        return S.VList(s.length, lambda j: seq_at(s, s.length - 1 - j))
    return reversed(x)


def b_isinstance(x, t):
    if t is dict and hasattr(x, "isdict_sym"):
        return x.isdict_sym()
    if t is str and hasattr(x, "isstr_sym"):
        return x.isstr_sym()
    if t is list and isinstance(x, S.VList):
        return True
    return isinstance(x, t)


def stub_warnings():
    m = types.ModuleType("warnings")
    m.warn = lambda *a, **k: None
    m.simplefilter = lambda *a, **k: None
    m.filterwarnings = lambda *a, **k: None
    return m


CODE = {}       # compiled text of the modules, within one run


class Loader:
    """one fresh copy of the package per explored path is not needed: module state is immutable constants"""

    def __init__(self, eng, stubs=None):
        self.eng = eng
        self.stubs = dict(stubs or {})
        self.modules = {}
        self.np = npshim.numpy_module()
        self.math = npshim.math_module()
        self.sources = {}

    def module(self, name):
        """name within the package, e.g. 'urdf'; '' is the package itself"""
        if name in self.modules:
            return self.modules[name]
        full = PKG + ("." + name if name else "")
        path = os.path.join(SRC, (name or "__init__") + ".py")
        src = open(path).read()
        self.sources[path] = src
        if (path, src) not in CODE:
            tree = ast.parse(src, path)
            tree = Rewrite().visit(tree)
            ast.fix_missing_locations(tree)
            CODE[path, src] = compile(tree, path, "exec")
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = PKG
        if not name:
            m.__path__ = [SRC]
        self.modules[name] = m
        bd = dict(builtins.__dict__)
        bd.update({"__import__": self._import, "len": b_len, "range": b_range, "xrange": b_range, "sum": b_sum, "all": b_all,
                   "any": b_any, "zip": b_zip, "enumerate": b_enumerate, "list": _ListProxy, "map": b_map, "filter": b_filter,
                   "min": b_min, "max": b_max, "abs": b_abs, "round": b_round, "divmod": b_divmod, "float": b_float, "int": b_int,
                   "isinstance": b_isinstance, "reversed": b_reversed, "tuple": _TupleProxy, "set": _SetProxy, "__pv_fmt__": pv_fmt, "pow": b_pow,
                   "__pv_for__": self._for, "__pv_while__": self._while, "__pv_locals__": lambda: dict(sys._getframe(1).f_locals),
                   "__pv_comp__": pv_comp, "__pv_range__": b_range, "__pv_max__": b_max})
        m.__dict__["__builtins__"] = bd
        exec(CODE[path, src], m.__dict__)
        if getattr(self.eng, "frame", None):
            self.eng.frame.wrap(m)
        return m

    def _for(self, lid, it, names, loc):
        s = _symbolic_iter(it)
        if s is None:
            h = getattr(self.eng, "concrete_rule", None)
            if h is None:
                return ConcreteLoop(it)
            it, s = h(it)
            if s is None:
                return ConcreteLoop(it)
        return SymFor(self.eng, lid, s, names, loc)

    def _while(self, lid, cond, names, loc):
        return While(self.eng, lid, cond, names, loc)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level >= 1 or name == PKG or name.startswith(PKG + "."):
            sub = name if level >= 1 else name[len(PKG) + 1:] if name != PKG else ""
            if sub:
                return self.module(sub)
            if fromlist and all(os.path.exists(os.path.join(SRC, f + ".py")) for f in fromlist):
                return types.SimpleNamespace(**{f: self.module(f) for f in fromlist})
            m = self.module("")
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    setattr(m, f, self.module(f))
            return m
        root = name.split(".")[0]
        if name in self.stubs:
            # "import a.b.c" returns a; "from a.b import c" returns a.b
            return self.stubs[name] if fromlist or "." not in name else self.stubs[root]
        if root in self.stubs:
            return self.stubs[root]
        if root == "numpy":
            if name != "numpy":
                raise Unsupported("import " + name)
            return self.np
        if root == "math":
            return self.math
        if root == "warnings":
            return stub_warnings()
        if root in ("sys", "os", "io", "typing", "__future__", "types", "collections", "functools", "itertools", "operator", "copy",
                    "abc", "enum", "dataclasses", "re", "string"):
            return __import__(name, {}, {}, fromlist or (), 0)
        raise ImportError("No module named '%s'" % name)


class _LM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, S.VList))

    def __call__(cls, *a):
        return b_list(*a)


class _ListProxy(list, metaclass=_LM):
    pass


class _TM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)

    def __call__(cls, *a):
        return b_tuple(*a)


class _TupleProxy(tuple, metaclass=_TM):
    pass
