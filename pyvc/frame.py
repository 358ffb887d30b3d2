"""Frame conditions: what a function is given is left as it was.

A Monitor runs a contract with its postconditions switched off and adds one obligation per call that the contract makes
to a function of /repo: every array, list, pose and robot reachable from the arguments (and from the default values)
has the same elements after the call as before it, on every path, whichever way the call ends.

Loops of unbounded length are verified by an arbitrary iteration started from a state of its own, so a variable that
held (a view of) an argument before the loop is given a value that must not be written to; so are the elements that are
taken out of an argument of symbolic length."""
import types
import numpy as rnp
from . import terms as T
from .terms import Re, Bo, Unsupported, NeedScale
from .engine import Infeasible, PathEnd

ATOMIC = (int, float, complex, str, bytes, bool, type(None), Re, Bo, types.FunctionType, types.MethodType, types.ModuleType, type, range)


def base_of(a):
    while isinstance(a.base, rnp.ndarray):
        a = a.base
    return a


def same_item(a, b):
    if a is b:
        return True
    if isinstance(a, Re) and isinstance(b, (Re, int, float)) or isinstance(b, Re) and isinstance(a, (int, float)):
        try:
            return not T.pclear((Re.of(a) - Re.of(b)).p)
        except Unsupported:
            return False
    if isinstance(a, Bo) and isinstance(b, Bo):
        return repr(a) == repr(b)
    if isinstance(a, rnp.ndarray) and isinstance(b, rnp.ndarray):
        return a.shape == b.shape and all(same_item(x, y) for x, y in zip(a.view(rnp.ndarray).ravel().tolist(), b.view(rnp.ndarray).ravel().tolist()))
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_item(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (int, float, str, bool)):
        return a == b
    from . import geo
    if isinstance(a, geo.GBase) and type(a) is type(b):
        return repr(a) == repr(b)
    return False


class Monitor:
    def __init__(self, eng):
        self.eng = eng
        self.depth = 0
        self.frozen = {}
        self.calls = 0

    # ------------------------------------------------------------ what is reachable
    def reach(self, path, o, out, seen, depth=0):
        from . import seqs as S, geo
        if isinstance(o, ATOMIC) or id(o) in seen or depth > 6:
            return
        seen[id(o)] = o
        if isinstance(o, rnp.ndarray):
            out.append((path, o, ("array", o.shape, getattr(o, "kind", None), o.view(rnp.ndarray).ravel().tolist())))
            if o.dtype == object:
                for x in o.view(rnp.ndarray).ravel().tolist():
                    self.reach(path + "[...]", x, out, seen, depth + 1)
        elif isinstance(o, (S.SymVec, S.VList)):
            out.append((path, o, ("seq", o.base, o.length, list(o.log), o.frozen)))
        elif isinstance(o, geo.GV):
            out.append((path, o, ("gv", dict(o.d))))
        elif isinstance(o, geo.GCols):
            out.append((path, o, ("gcols", list(o.cols), o.frozen)))
            for c in o.cols:
                self.reach(path + "[:,j]", c, out, seen, depth + 1)
        elif isinstance(o, geo.GBase):
            return
        elif isinstance(o, (list, tuple)):
            if isinstance(o, list):
                out.append((path, o, ("list", list(o))))
            for n, x in enumerate(o):
                self.reach("%s[%d]" % (path, n), x, out, seen, depth + 1)
        elif isinstance(o, dict):
            out.append((path, o, ("dict", dict(o))))
            for n, x in o.items():
                self.reach("%s[%r]" % (path, n), x, out, seen, depth + 1)
        elif hasattr(o, "__dict__"):
            d = vars(o)
            pub = {k: v for k, v in d.items() if not k.startswith("_")}
            out.append((path, o, ("object", pub)))
            for k, x in d.items():
                self.reach("%s.%s" % (path, k), x, out, seen, depth + 1)

    def changed(self, o, old):
        """how o differs from its record"""
        kind = old[0]
        if kind == "array":
            if o.shape != old[1] or getattr(o, "kind", None) != old[2]:
                return "shape or type changed"
            for n, (x, y) in enumerate(zip(o.view(rnp.ndarray).ravel().tolist(), old[3])):
                if not same_item(x, y):
                    return "element %d was %r and is %r" % (n, y, x)
        elif kind == "seq":
            if o.base is not old[1] or not same_item(o.length, old[2]) or len(o.log) != len(old[3]) or any(a is not b for a, b in zip(o.log, old[3])):
                return "elements written"
        elif kind == "gv":
            if len(o.d) != len(old[1]) or any(k not in o.d or not same_item(o.d[k], v) for k, v in old[1].items()):
                return "vector changed"
        elif kind == "gcols":
            if len(o.cols) != len(old[1]) or any(not same_item(x, y) for x, y in zip(o.cols, old[1])):
                return "columns written"
        elif kind == "list":
            if len(o) != len(old[1]):
                return "length changed"
            for n, (x, y) in enumerate(zip(o, old[1])):
                if not same_item(x, y):
                    return "element %d replaced" % n
        elif kind == "dict":
            if len(o) != len(old[1]) or any(k not in o or not same_item(o[k], v) for k, v in old[1].items()):
                return "entries changed"
        elif kind == "object":
            d = vars(o)
            for k, v in old[1].items():
                if k not in d or not same_item(d[k], v):
                    return "attribute %s replaced" % k
        return None

    # ------------------------------------------------------------ calls
    def call(self, name, f, a, k, isinit=False):
        if self.depth:
            return f(*a, **k)
        from . import seqs as S
        rec, seen = [], {}
        if isinit:
            seen[id(a[0])] = a[0]
        for n, x in enumerate(a):
            self.reach("argument %d" % n, x, rec, seen)
        for n, x in k.items():
            self.reach("argument " + n, x, rec, seen)
        for n, x in enumerate(getattr(f, "__defaults__", None) or ()):
            self.reach("default value %d" % n, x, rec, seen)
        seqs = [o for _, o, r in rec if r[0] == "seq"]
        for o in seqs:
            o.frozen = True
            if isinstance(o, S.VList):
                o.base = self.guard(o.base)
        cols = [o for _, o, r in rec if r[0] == "gcols"]
        for o in cols:
            o.frozen = True
        self.args = [o for _, o, r in rec if r[0] in ("array", "list")]
        self.depth = 1
        done = True
        try:
            return f(*a, **k)
        except (Infeasible, NeedScale, Unsupported):
            done = False
            raise
        finally:
            self.depth = 0
            self.frozen = {}
            self.args = ()
            for o, r in ((o, r) for _, o, r in rec if r[0] == "seq"):
                o.frozen = r[4]
                if isinstance(o, S.VList):
                    o.base = getattr(o.base, "guarded", o.base)
            for o, r in ((o, r) for _, o, r in rec if r[0] == "gcols"):
                o.frozen = r[2]
            if done:
                self.calls += 1
                bad = [p + ": " + c for p, o, r in rec for c in [self.changed(o, r)] if c]
                self.eng._record("frame: %s leaves its arguments as they were" % name, "failed" if bad else "discharged", "evaluation on every path", 0, "; ".join(bad[:4]))

    def guard(self, base):
        def g(j):
            return self.freeze(base(j))
        g.guarded = base
        return g

    # ------------------------------------------------------------ values that must not be written to
    def freeze(self, v):
        from . import seqs as S
        if isinstance(v, rnp.ndarray):
            b = base_of(v)
            self.frozen[id(b)] = b
        elif isinstance(v, (S.SymVec, S.VList)):
            v.frozen = True
        elif isinstance(v, (list, tuple)):
            for x in v:
                self.freeze(x)
        return v

    def isfrozen(self, a):
        return bool(self.frozen) and id(base_of(a)) in self.frozen

    def aliases(self, v):
        """does v share memory with something that must not be written to"""
        from . import seqs as S
        if isinstance(v, (S.SymVec, S.VList)):
            return v.frozen
        if isinstance(v, rnp.ndarray):
            return self.isfrozen(v) or any(isinstance(o, rnp.ndarray) and base_of(v) is base_of(o) for o in self.args)
        if isinstance(v, list):
            return any(v is o for o in self.args)
        return False

    args = ()

    # ------------------------------------------------------------ installation
    def wrap(self, m):
        def w(name, f, isinit=False):
            def g(*a, **k):
                return self.call(name, f, a, k, isinit)
            g.__name__ = f.__name__
            g.__defaults__ = None
            g.wrapped = f
            return g
        for n, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__code__.co_filename == m.__file__:
                m.__dict__[n] = w(n, v)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                for n2, v2 in list(v.__dict__.items()):
                    if isinstance(v2, types.FunctionType) and v2.__code__.co_filename == m.__file__:
                        setattr(v, n2, w(n + "." + n2, v2, n2 == "__init__"))


def frame_of(contract):
    """the frame conditions of the calls that a contract makes"""
    def fn(e):
        mon = Monitor(e)
        e.frame = mon

        def ensure(label, *a, **k):
            return True

        record = e._record

        def only_frames(label, status, backend, secs, detail=""):
            # postconditions are judged by the checks of their own properties
            if status == "discharged" or label.startswith("frame: ") or label == "argument not modified" \
                    or label in ("verifier support", "path exploration", "trigonometry of a fraction of an angle") \
                    or label == "no exception" and not detail.startswith("AssertionError"):
                if status != "discharged" or label.startswith("frame: "):
                    record(label, status, backend, secs, detail)
        e._record = only_frames

        def defined(label, goal, what=None):
            e._assume(T.bo(goal))
        e.ensure = e.ensure_all = e.ensure_close = e.check = ensure
        e.defined = defined
        e.defined_nonneg = e.defined_unit = ensure
        ended = True
        try:
            contract(e)
        except AssertionError:
            pass                # raised by the code or by the contract about a result: not a matter of this property
        except Infeasible:
            ended = False
            raise
        finally:
            if ended and not mon.calls:
                record("frame: no function is called", "discharged", "evaluation on every path", 0)
            for n in ("ensure", "ensure_all", "ensure_close", "check", "defined", "defined_nonneg", "defined_unit", "frame", "_record"):
                e.__dict__.pop(n, None)
    return fn
