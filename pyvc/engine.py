"""Path exploration and proof obligations."""
import os, time, math, subprocess, traceback
from fractions import Fraction
import z3
from . import terms as T
from .terms import Re, Bo, Unsupported, NeedScale, lit, bnot, band, bor


class PathEnd(Exception):
    """this path is complete (e.g. the end of a generic loop iteration)"""


class Infeasible(Exception):
    pass


class Probe(Exception):
    pass


class TooManyPaths(Exception):
    pass


SLOW = float(os.environ.get("PYVC_SLOW", "0"))
PI_LO = z3.Q(314159265358979, 100000000000000)
PI_HI = z3.Q(314159265358980, 100000000000000)


class Z3Enc:
    """encodes the atoms occurring in some polynomials, with their definitions"""

    def __init__(self, deep=True):
        self.vars = {}
        self.cons = []
        self.deep = deep
        self.bools = {}

    def var(self, i):
        if i in self.vars:
            return self.vars[i]
        a = T.ctx().atoms[i]
        v = z3.Real("%s!%d" % (a.name, i))
        self.vars[i] = v
        if a.kind == "pi":
            self.cons += [v > PI_LO, v < PI_HI]
            return v
        if a.isint:
            iv = z3.Int("int!%d" % i)
            self.cons.append(v == z3.ToReal(iv))
        if a.nonneg and a.nonzero:
            self.cons.append(v > 0)
        elif a.nonneg:
            self.cons.append(v >= 0)
        elif a.nonzero:
            self.cons.append(v != 0)
        if not self.deep:
            return v
        if a.kind == "abs":
            x = self.poly(a.info.p)
            self.cons.append(v == z3.If(x >= 0, x, -x))
        elif a.sq is not None:
            self.cons.append(v * v == self.poly(a.sq))
        if a.kind in ("sin", "cos"):
            self.cons += [v <= 1, v >= -1]
        if a.defn is not None:
            self.cons.append(v == self.poly(a.defn))
        if a.lo is not None:
            pi = self.var(T.ctx().atom("pi", "pi").id)
            T.PI()
            self.cons += [v >= self.q(a.lo) * pi, v <= self.q(a.hi) * pi]
        for f in a.facts:
            if f[0] == "floor":
                x = self.poly(f[1].p)
                self.cons += [v <= x, x < v + 1]
            elif f[0] == "atan2":
                y, x = self.poly(f[1].p), self.poly(f[2].p)
                pi = self.var(T.ctx().atom("pi", "pi").id)
                self.cons += [z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, z3.And(v < 0, v > -pi)),
                              z3.Implies(z3.And(y == 0, x >= 0), v == 0), z3.Implies(z3.And(y == 0, x < 0), v == pi),
                              z3.Implies(z3.And(x > 0), z3.And(2 * v < pi, 2 * v > -pi)),
                              z3.Implies(z3.And(x == 0, y > 0), 2 * v == pi), z3.Implies(z3.And(x == 0, y < 0), 2 * v == -pi),
                              z3.Implies(z3.And(x < 0), z3.Or(2 * v > pi, 2 * v < -pi))]
                self.small_angle(v, a)
            elif f[0] == "acos":
                u = self.poly(f[1].p)
                pi = self.var(T.ctx().atom("pi", "pi").id)
                self.cons += [u <= 1, u >= -1, (u == 1) == (v == 0), (u == -1) == (v == pi), (u > 0) == (2 * v < pi),
                              (u < 0) == (2 * v > pi)]
                self.small_angle(v, a)
            elif f[0] == "asin":
                u = self.poly(f[1].p)
                pi = self.var(T.ctx().atom("pi", "pi").id)
                self.cons += [u <= 1, u >= -1, (u > 0) == (v > 0), (u < 0) == (v < 0), (u == 1) == (2 * v == pi),
                              (u == -1) == (2 * v == -pi)]
            elif f[0] == "fact":
                self.cons.append(self.bo(f[1]))
        return v

    def small_angle(self, v, a):
        if not a.deps:
            return
        c, s = a.info(1)
        c, s = self.poly(c.p), self.poly(s.p)
        self.cons += [s * s <= v * v, 2 * (1 - c) <= v * v]

    @staticmethod
    def q(c):
        c = Fraction(c)
        return z3.RatVal(c.numerator, c.denominator)

    def poly(self, p):
        """negative exponents are expressed by division-free auxiliary variables"""
        terms = []
        for m, c in p.items():
            t = None
            for i, e in m:
                if e > 0:
                    v = self.var(i)
                else:
                    v = self.inv(i)
                    e = -e
                f = v
                for _ in range(e - 1):
                    f = f * v
                t = f if t is None else t * f
            if t is None:
                terms.append(self.q(c))
            else:
                terms.append(t if c == 1 else self.q(c) * t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def inv(self, i):
        k = ("inv", i)
        if k in self.vars:
            return self.vars[k]
        v = self.var(i)
        w = z3.Real("inv!%d" % i)
        self.vars[k] = w
        self.cons.append(w * v == 1)
        return w

    def lit(self, b):
        p = b.a.p
        # clear denominators by even powers
        mins = {}
        for m in p:
            for i, e in m:
                if e < 0:
                    mins[i] = min(mins.get(i, 0), e)
        if mins:
            fac = []
            for i, e in mins.items():
                a = T.ctx().atoms[i]
                k = -e
                if k % 2 and not a.nonneg and b.b in ("<", "<="):
                    k += 1
                fac.append((i, k))
            p2 = T.pmul(p, {tuple(sorted(fac)): 1})
            if all(e > 0 for m in p2 for i, e in m):
                p = p2
                for i, e in mins.items():
                    self.var(i)
        x = self.poly(p)
        return {"<": x < 0, "<=": x <= 0, "=": x == 0, "!=": x != 0}[b.b]

    def bo(self, b):
        if b.op == "const":
            return z3.BoolVal(b.a)
        if b.op == "lit":
            return self.lit(b)
        if b.op == "and":
            return z3.And([self.bo(x) for x in b.a])
        if b.op == "or":
            return z3.Or([self.bo(x) for x in b.a])
        if b.op == "not":
            return z3.Not(self.bo(b.a))
        if b.op == "atom":
            if b.a not in self.bools:
                self.bools[b.a] = z3.Bool(str(b.a))
            return self.bools[b.a]
        raise Unsupported(b.op)


def bo_atoms(b, acc):
    if b.op == "lit":
        acc |= T.patoms(b.a.p)
    elif b.op in ("and", "or"):
        for x in b.a:
            bo_atoms(x, acc)
    elif b.op == "not":
        bo_atoms(b.a, acc)
    return acc


class Obligation:
    def __init__(self, fn, label, status, backend, secs, path, detail=""):
        self.fn, self.label, self.status, self.backend, self.secs, self.path, self.detail = \
            fn, label, status, backend, secs, path, detail

    def asdict(self):
        return dict(function=self.fn, label=self.label, status=self.status, backend=self.backend,
                    secs=round(self.secs, 4), path=self.path, detail=self.detail)


class Engine:
    def __init__(self, prop, timeout_ms=20000, max_paths=4000, verbose=False):
        self.prop = prop
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.obligations = []
        self.functions = {}
        self.stats = {"paths": 0, "z3_queries": 0, "z3_secs": 0.0, "cvc5_queries": 0}
        self.verbose = verbose
        self.current = None
        self.scales = {}
        self.feas_timeout = 3000
        self.path = []
        self.assumed = set()
        self.checks_on = True

    # ------------------------------------------------------------ exploration
    def run(self, name, fn, expect_paths=True, timeout_ms=None):
        """Runs fn(self) once per feasible path."""
        self.current = name
        self.scales = {}
        n0 = len(self.obligations)
        old_to = self.timeout
        if timeout_ms:
            self.timeout = timeout_ms
        t0 = time.time()
        while True:
            try:
                self._explore(name, fn)
                break
            except NeedScale as e:
                if e.scale > 8:
                    self._record("trigonometry of a fraction of an angle", "failed", "engine", 0, "unsupported scale")
                    break
                self.scales[e.key] = e.scale
                del self.obligations[n0:]
            except TooManyPaths:
                self._record("path exploration", "failed", "engine", 0, "more than %d paths" % self.max_paths)
                break
        self.timeout = old_to
        self.functions[name] = dict(obligations=len(self.obligations) - n0, secs=round(time.time() - t0, 3))
        if len(self.obligations) == n0:
            self._record("vacuity", "failed", "engine", 0, "no obligation was generated for this contract")

    def _explore(self, name, fn):
        stack = [[]]
        count = 0
        live = 0
        n0 = len(self.obligations)
        while stack:
            if sum(1 for o in self.obligations[n0:] if o.status != "discharged") >= 6:
                break           # the contract has failed: no need to explore further paths
            prefix = stack.pop()
            count += 1
            if count > self.max_paths:
                raise TooManyPaths()
            T.reset()
            T.CTX.eng = self
            self.prefix = prefix
            self.pos = 0
            self.trace = []
            self.path = []           # literals known on the path (assumptions and branch conditions)
            self.pathkeys = set()
            self.guards = []
            self.witnesses = []
            self.skolems = 0
            self.hyps = []           # assumed equalities, for certificates
            self.newforks = []
            self.locals = {}
            self.bad = False
            self.running = True
            try:
                fn(self)
                live += 1
            except PathEnd:
                live += 1
            except Infeasible:
                pass
            except Unsupported as e:
                if not self.dead():
                    self._record("verifier support", "failed", "engine", 0, "unsupported: %s @ %s" % (e, where()))
            except NeedScale:
                raise
            except RecursionError as e:
                self._record("verifier support", "failed", "engine", 0, "recursion")
            except Exception as e:
                if os.environ.get("PYVC_TRACE"):
                    traceback.print_exc()
                if not self.dead():
                    self._record("no exception", "failed", "engine", 0, "%s: %s @ %s" % (type(e).__name__, e, where()))
            self.running = False
            stack.extend(reversed(self.newforks))
            self.stats["paths"] += 1
            if self.verbose:
                print("  path", count, self.trace, [str(x)[:100] for x in self.path[-3:]])
        if live == 0:
            self._record("vacuity", "failed", "engine", 0, "no feasible path satisfies the precondition")

    def pathid(self):
        return "".join("T" if x is True else "F" if x is False else str(x) for x in self.trace)

    def decide(self, cond):
        if cond.op == "const":
            return cond.a
        pr = getattr(self, "probing", False)
        if pr is True:
            raise Probe()
        v = self.syntactic(cond)
        if pr == "undecided":
            if v is None:
                v = self.feasible(cond)
                if v and self.feasible(bnot(cond)):
                    raise Probe()
            return v
        if v is not None:
            self._guard(cond if v else bnot(cond))
            return v
        if cond.op in ("and", "or") and any(self._isforall(x) for x in cond.a):
            # one by one: which of the quantified conditions fails has to be known to use it
            for x in cond.a:
                if self.decide(x) != (cond.op == "and"):
                    return cond.op == "or"
            return cond.op == "and"
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self._learn(cond if v else bnot(cond))
            return v
        ft = self.feasible(cond)
        ff = self.feasible(bnot(cond)) if ft else True
        if ft and ff:
            v = True
            self.newforks.append(list(self.trace) + [False])
        else:
            v = ft
        self.pos += 1
        self.trace.append(v)
        self.prefix = list(self.trace)
        self._learn(cond if v else bnot(cond))
        return v

    def choose(self, n, label=""):
        """n-way case split (all cases are explored)"""
        if getattr(self, "probing", False):
            raise Probe()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            return v
        v = 0
        for k in range(n - 1, 0, -1):
            self.newforks.append(list(self.trace) + [k])
        self.pos += 1
        self.trace.append(v)
        self.prefix = list(self.trace)
        return v

    def syntactic(self, cond):
        k = cond.key()
        if k in self.pathkeys:
            return True
        if bnot(cond).key() in self.pathkeys:
            return False
        if cond.op == "and":
            vs = [self.syntactic(x) if x.op != "const" else x.a for x in cond.a]
            if all(v is True for v in vs):
                return True
            if any(v is False for v in vs):
                return False
        if cond.op == "or":
            vs = [self.syntactic(x) if x.op != "const" else x.a for x in cond.a]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
        if cond.op == "lit":
            p = cond.a
            s = 0
            if cond.b in ("<", "<="):
                # weaker/stronger known forms of the same polynomial
                if cond.b == "<=" and (lit(p, "<").key() in self.pathkeys or lit(p, "=").key() in self.pathkeys):
                    return True
                if cond.b == "<" and lit(-p, "<").key() in self.pathkeys:
                    return False
                if cond.b == "<" and lit(p, "=").key() in self.pathkeys:
                    return False
            if cond.b in ("=", "!="):
                if lit(p, "<").key() in self.pathkeys or lit(-p, "<").key() in self.pathkeys:
                    return cond.b == "!="
            s = posform(p)
            if cond.b == "<" and s == "nonneg":
                return False
            if cond.b in ("<", "<=") and s == "pos":
                return False
            s2 = posform(-p)
            if cond.b == "<=" and s2 in ("nonneg", "pos"):
                return True
            if cond.b == "<" and s2 == "pos":
                return True
            if cond.b in ("=", "!=") and (s == "pos" or s2 == "pos"):
                return cond.b == "!="
        return None

    def quick_known(self, cond):
        cond = T.bo(cond)
        if cond.op == "const":
            return cond.a
        return self.syntactic(cond) is True

    def _guard(self, c):
        if c.op == "and":
            for x in c.a:
                self._guard(x)
        else:
            self.guards.append(c)

    def _learn(self, c):
        self._guard(c)
        self._assume(c)

    def _assume(self, c):
        if c.op == "and":
            for x in c.a:
                self._assume(x)
            return
        if c.op == "const":
            if not c.a:
                raise Infeasible()
            return
        k = c.key()
        if k in self.pathkeys:
            return
        self.pathkeys.add(k)
        self.path.append(c)
        if c.op == "atom" or c.op == "not":
            self._quantified(c)
        if c.op == "lit":
            if c.b in ("!=", "<"):
                pp = c.a.p
                if len(pp) == 1:
                    T.mark_nonzero(c.a)
                    (m, co), = pp.items()
                    if c.b == "<" and len(m) == 1 and m[0][1] % 2 == 1 and co < 0:
                        T.CTX.atoms[m[0][0]].nonneg = True

    @staticmethod
    def _isforall(x):
        if x.op == "not":
            x = x.a
        return x.op == "atom" and x.a in T.CTX.tables.get("forall", {})

    def _quantified(self, c):
        """instantiation of universally quantified conditions"""
        pos = c.op == "atom"
        name = c.a if pos else c.a.a
        q = T.CTX.tables.get("forall", {}).get(name)
        if q is None:
            return
        at, n = q
        if pos:
            for w in self.witnesses:
                if self.prove(band([w >= 0, w < n]), 2000)[0]:
                    c = T.bo(at(w))
                    self._assume(c)
                    if c.op != "const" and not self.feasible(c):
                        raise Infeasible()
        else:
            self.skolems += 1
            sk = T.var("#sk%d" % self.skolems, isint=True)
            self._assume(sk >= 0)
            self._assume(sk < n)
            c = bnot(T.bo(at(sk)))
            self._assume(c)
            if c.op != "const" and not self.feasible(c):
                raise Infeasible()

    def generic(self, f, g, n):
        """value of f at the generic index g of a sequence of length n; None if it takes decisions about the element"""
        old = getattr(self, "probing", False)
        lits, keys = list(self.path), set(self.pathkeys)
        self.probing = "undecided" if not old else old
        try:
            self._assume(g >= 0)
            self._assume(g < n)
            return f()
        except Infeasible:
            return T.TRUE           # there is no element
        except Probe:
            if old:
                raise
            return None
        finally:
            self.probing = old
            self.path, self.pathkeys = lits, keys

    def inside(self, f, g, n):
        """f() under the further condition 0 <= g < n"""
        lits, keys = list(self.path), set(self.pathkeys)
        try:
            self._assume(g >= 0)
            self._assume(g < n)
            return f()
        except Infeasible:
            return T.TRUE           # there is no element
        finally:
            self.path, self.pathkeys = lits, keys

    def forall_by_cases(self, at, n):
        """truth of: for all j < n. at(j), where at takes decisions: sk is an index at which it fails, if there is one"""
        if not bool(n > 0):
            return T.TRUE
        self.skolems += 1
        sk = T.var("#sk%d" % self.skolems, isint=True)
        self._assume(sk >= 0)
        self._assume(sk < n)
        if not bool(T.bo(at(sk))):
            return T.FALSE
        for w in self.witnesses:
            if self.prove(band([w >= 0, w < n]), 2000)[0] and not bool(T.bo(at(w))):
                raise Infeasible()
        return T.TRUE

    def prove_forall(self, q):
        """proof of a universally quantified condition at a fresh index"""
        at, n = q
        self.skolems += 1
        sk = T.var("#sk%d" % self.skolems, isint=True)
        lits, keys = list(self.path), set(self.pathkeys)
        try:
            self._assume(sk >= 0)
            self._assume(sk < n)
            return self.prove(at(sk))
        except Infeasible:
            return True, "path condition", ""
        finally:
            self.path, self.pathkeys = lits, keys

    witnesses = ()
    skolems = 0

    def assume(self, c):
        """precondition / assumed fact"""
        self._assume(T.bo(c))

    def assume_eq(self, a, b, tag=None):
        d = Re.of(a) - Re.of(b)
        if not T.pclear(d.p):
            return
        self.hyps.append((tag, d))
        self._assume(lit(d, "="))

    def hyp(self, d, tag=None):
        """an equality kept for certificates only (not sent to the solvers)"""
        self.hyps.append((tag, Re.of(d)))

    # ------------------------------------------------------------ solvers
    def _solver(self, goal_neg, timeout, relevant=True):
        enc = Z3Enc()
        s = z3.Solver()
        s.set("timeout", timeout)
        g = enc.bo(goal_neg) if goal_neg is not None else z3.BoolVal(True)
        lits = self.path
        if relevant and goal_neg is not None:
            lits = self.relevant(goal_neg)
        ls = [enc.bo(c) for c in lits]
        s.add(ls)
        s.add(g)
        s.add(enc.cons)
        return s, enc

    def relevant(self, goal):
        """path literals connected to the goal through shared atoms"""
        acc = self.closure(bo_atoms(goal, set()))
        lits = list(self.path)
        used = []
        changed = True
        la = [(c, self.closure(bo_atoms(c, set()))) for c in lits]
        while changed:
            changed = False
            rest = []
            for c, a in la:
                if a & acc or not a:
                    used.append(c)
                    acc |= a
                    changed = True
                else:
                    rest.append((c, a))
            la = rest
        return used

    def closure(self, ids):
        pi = T.CTX.byname.get("pi")
        out = set()
        todo = list(ids)
        while todo:
            i = todo.pop()
            if i in out or i == pi:
                continue
            out.add(i)
            a = T.CTX.atoms[i]
            for p in (a.sq, a.defn):
                if p:
                    todo.extend(T.patoms(p))
            if a.kind == "abs":
                todo.extend(T.patoms(a.info.p))
            for f in a.facts:
                for x in f[1:]:
                    if isinstance(x, Re):
                        todo.extend(T.patoms(x.p))
                    elif isinstance(x, Bo):
                        todo.extend(bo_atoms(x, set()))
        return out

    def int_query(self, cond):
        """satisfiability of a condition on integers against the path conditions on integers only (None: not such a condition)"""
        if not pure_int(cond):
            return None
        key = (len(self.path), cond.key())
        t = T.CTX.tables.setdefault("intq", {})
        if key in t:
            return t[key]
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", 3000)
        iv = {}

        def enc(b):
            if b.op == "const":
                return z3.BoolVal(b.a)
            if b.op == "lit":
                p = b.a.p
                den = 1
                for c in p.values():
                    den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
                x = z3.IntVal(0)
                for m, c in p.items():
                    k = int(c * den)
                    x = x + (k * iv.setdefault(m[0][0], z3.Int("i%d" % m[0][0])) if m else z3.IntVal(k))
                return {"<": x < 0, "<=": x <= 0, "=": x == 0, "!=": x != 0}[b.b]
            xs = [enc(x) for x in (b.a if b.op in ("and", "or") else [b.a])]
            return z3.And(xs) if b.op == "and" else z3.Or(xs) if b.op == "or" else z3.Not(xs[0])
        s.add(enc(cond))
        for c in self.path:
            if pure_int(c):
                s.add(enc(c))
        for i, v in iv.items():
            if T.CTX.atoms[i].nonneg:
                s.add(v >= 0)
        r = s.check()
        self.stats["int_queries"] = self.stats.get("int_queries", 0) + 1
        t[key] = r
        return r

    def feasible(self, cond):
        if size(cond) > 400:
            return True
        r = self.int_query(cond)
        if r is not None and r != z3.unknown:
            return r == z3.sat
        t0 = time.time()
        try:
            s, enc = self._solver(cond, self.feas_timeout)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats["z3_queries"] += 1
        self.stats["z3_secs"] += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("    slow feasibility %.1fs %s %s | %d lits" % (time.time() - t0, r, str(cond)[:200], len(self.path)))
        return r != z3.unsat

    def prove(self, goal, timeout=None):
        """(ok, backend, detail)"""
        goal = T.bo(goal)
        if goal.op == "const":
            return (goal.a, "normal form", "" if goal.a else "the negation holds identically")
        if goal.op == "and":
            bk = "normal form"
            for g in goal.a:
                ok, b, d = self.prove(g, timeout)
                if not ok:
                    return ok, b, d
                if b != "normal form":
                    bk = b
            return True, bk, ""
        if self.syntactic(goal) is True:
            return True, "path condition", ""
        if goal.op == "atom":
            q = T.CTX.tables.get("forall", {}).get(goal.a)
            if q is not None:
                return self.prove_forall(q)
        if goal.op == "lit" and goal.b == "=":
            p = self.substitute(goal.a.p)
            if not T.pclear(p):
                return True, "normal form modulo path equalities", ""
        if self.int_query(bnot(goal)) == z3.unsat:
            return True, "z3", ""
        t0 = time.time()
        s, enc = self._solver(bnot(goal), timeout or self.timeout)
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        self.stats["z3_queries"] += 1
        self.stats["z3_secs"] += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            print("    slow proof %.1fs %s %s" % (time.time() - t0, r, str(goal)[:200]))
        if r == z3.unsat:
            return True, "z3", ""
        detail = "solver answered %s" % r
        if r == z3.sat:
            m = s.model()
            vals = {}
            for i, v in enc.vars.items():
                if isinstance(i, int):
                    a = T.ctx().atoms[i]
                    if a.kind in ("var", "unit"):
                        try:
                            vals[a.name] = approx(m.eval(v, model_completion=True))
                        except Exception:
                            pass
            detail = "counterexample " + ", ".join("%s=%s" % kv for kv in sorted(vals.items()))
            self.last_model = vals
        else:
            ok = self._cvc5(s)
            if ok:
                return True, "cvc5", ""
        return False, "z3", detail + " for %s" % (str(goal)[:300])

    def _cvc5(self, s):
        try:
            txt = "(set-logic QF_NIRA)\n" + s.to_smt2()
            self.stats["cvc5_queries"] += 1
            p = subprocess.run(["cvc5", "--tlimit=%d" % min(self.timeout, 8000), "--lang=smt2"], input=txt, capture_output=True,
                               text=True, timeout=30)
            return p.stdout.strip().startswith("unsat")
        except Exception:
            return False

    def substitute(self, p):
        """use path equalities that are linear with constant coefficient in some atom"""
        for c in self.path:
            if c.op != "lit" or c.b != "=":
                continue
            q = c.a.p
            best = None
            for m, co in q.items():
                if len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    a = T.CTX.atoms[i]
                    if a.sq is not None and a.kind != "unit":
                        pass
                    if all(i not in dict(m2) for m2 in q if m2 != m):
                        if best is None or i > best[0]:
                            best = (i, m, co)
            if best is None:
                continue
            i, m, co = best
            val = T.pscale({k: v for k, v in q.items() if k != m}, Fraction(-1) / co)
            if any(j == i and e < 0 for mm in p for j, e in mm):
                continue
            out = {}
            for mm, cc in p.items():
                e = dict(mm).get(i, 0)
                if not e:
                    out = T.padd(out, {mm: cc})
                else:
                    r = {tuple(x for x in mm if x[0] != i): cc}
                    for _ in range(e):
                        r = T.pmul(r, val)
                    out = T.padd(out, r)
            p = out
        return p

    # ------------------------------------------------------------ obligations
    running = False

    def dead(self):
        """do the conditions on integers contradict each other?  (asked only before a failure is reported)"""
        cs = [c for c in self.path if c.op != "const" and pure_int(c)]
        return bool(cs) and self.int_query(cs[-1]) == z3.unsat

    def _record(self, label, status, backend, secs, detail=""):
        if status == "failed" and self.running and self.dead():
            raise Infeasible()
        o = Obligation(self.current, label, status, backend, secs, self.pathid() if hasattr(self, "trace") else "", detail)
        self.obligations.append(o)
        if self.verbose and status != "discharged":
            print("    FAILED", o.asdict())
        return o

    def ensure(self, label, goal, timeout=None):
        t0 = time.time()
        try:
            ok, bk, det = self.prove(goal, timeout)
        except Unsupported as e:
            ok, bk, det = False, "engine", "unsupported: %s" % e
        self._record(label, "discharged" if ok else "failed", bk, time.time() - t0, det)
        return ok

    def ensure_all(self, label, goals, timeout=None):
        """one obligation for a conjunction (entries of a matrix)"""
        t0 = time.time()
        bks = set()
        for n, g in enumerate(goals):
            try:
                ok, bk, det = self.prove(g, timeout)
            except Unsupported as e:
                ok, bk, det = False, "engine", "unsupported: %s" % e
            if not ok:
                self._record(label, "failed", bk, time.time() - t0, "component %d: %s" % (n, det))
                return False
            bks.add(bk)
        bk = "normal form" if bks <= {"normal form"} else ", ".join(sorted(bks))
        self._record(label, "discharged", bk, time.time() - t0)
        return True

    # ---- bounds by interval arithmetic over bounds of single atoms
    BOUNDS = [F * s for F in [Fraction(1, 10**k) for k in (9, 8, 7)] for s in (1, 2, 5)] + \
        [Fraction(51, 10**8), Fraction(6, 10**7), Fraction(7, 10**7), Fraction(8, 10**7)] + [Fraction(k, 10**7) for k in (10, 11, 12, 15, 20, 25, 30, 40, 50, 80, 100)] + \
        [Fraction(1, 10**k) for k in (4, 3, 2, 1)] + [Fraction(1, 2), Fraction(1), Fraction(2)]
    LOWS = [Fraction(99, 100), Fraction(9, 10), Fraction(1, 2), Fraction(1, 3), Fraction(1, 4), Fraction(1, 10), Fraction(1, 100)]

    def bound_abs(self, i):
        """proved upper bound for |atom i| on this path, or None"""
        t = T.CTX.tables.setdefault("bound%d" % len(self.path), {})
        if i in t:
            return t[i]
        x = T.of_atom(T.CTX.atoms[i])
        lo, hi = 0, len(self.BOUNDS)
        while lo < hi:
            m = (lo + hi) // 2
            if self.prove(x * x <= self.BOUNDS[m] ** 2, 3000)[0]:
                hi = m
            else:
                lo = m + 1
        t[i] = self.BOUNDS[hi] if hi < len(self.BOUNDS) else None
        return t[i]

    def bound_low(self, i):
        """proved lower bound for atom_i^2"""
        t = T.CTX.tables.setdefault("low%d" % len(self.path), {})
        if i in t:
            return t[i]
        a = T.CTX.atoms[i]
        x = T.of_atom(a)
        t[i] = None
        for b in self.LOWS:
            if self.prove(x * x >= b, 5000)[0]:
                t[i] = b
                break
        return t[i]

    def bound_poly(self, p):
        scale = Fraction(1)
        for _ in range(10):
            mins = {}
            for m in p:
                for i, e in m:
                    if e < 0:
                        mins[i] = min(e, mins.get(i, 0))
            if not mins:
                break
            i = max(mins)
            k = -mins[i] + (-mins[i]) % 2
            b = self.bound_low(i)
            if b is None:
                return None
            scale *= (1 / b) ** (k // 2)
            p = T.pmul(p, {((i, k),): 1})
        a = self._bound_terms(p)
        b = self._bound_terms(homogenise(p))
        if a is None or b is None:
            return None
        return min(a, b) * scale

    def _bound_terms(self, p):
        tot = Fraction(0)
        for m, c in p.items():
            v = abs(Fraction(c))
            groups = {}
            for i, e in m:
                if e < 0:
                    return None
                b = self.bound_abs(i)
                if b is None:
                    return None
                a = T.CTX.atoms[i]
                if b >= 1 and a.group is not None:
                    groups.setdefault(a.group, []).append(e)
                else:
                    v *= b ** e
            for es in groups.values():
                # components of a unit vector: |x^a y^b| <= (a/(a+b))^(a/2) (b/(a+b))^(b/2)
                if len(es) > 1:
                    n = sum(es)
                    w = 1.0
                    for k in es:
                        w *= (k / n) ** (k / 2)
                    v *= Fraction(w * 1.000001)
            tot += v
        return tot

    def ensure_close(self, label, a, b, tol):
        """|a-b| <= tol entrywise"""
        from .npshim import asarr
        t0 = time.time()
        for n, (x, y) in enumerate(zip(asarr(a).ravel().tolist(), asarr(b).ravel().tolist())):
            d = Re.of(x) - Re.of(y)
            if not T.pclear(d.p):
                continue
            bd = self.bound_poly(d.p)
            if SLOW:
                print("    bound", None if bd is None else float(bd), {k: {T.CTX.atoms[i].name: v and float(v) for i, v in t.items()} for k, t in T.CTX.tables.items() if k.startswith("bound") or k.startswith("low")}, str(d)[:100])
            if bd is not None and bd <= tol:
                continue
            for g in (d <= tol, -d <= tol):
                ok, bk, det = self.prove(g)
                if not ok:
                    self._record(label, "failed", bk, time.time() - t0, "component %d: %s" % (n, det))
                    return False
        self._record(label, "discharged", "interval arithmetic over z3-proved bounds", time.time() - t0)
        return True

    def check(self, label, ok, detail=""):
        """structural obligation decided by evaluation (shapes, identities of objects, strings)"""
        self._record(label, "discharged" if ok else "failed", "evaluation", 0, "" if ok else str(detail))
        return ok

    def fail(self, label, detail):
        self._record(label, "failed", "engine", 0, "%s @ %s" % (detail, where()))

    def defined(self, label, goal, what=None):
        if not self.checks_on:
            return
        t0 = time.time()
        ok, bk, det = self.prove(goal)
        if not ok:
            det += " @ " + where()
        self._record(label, "discharged" if ok else "failed", bk, time.time() - t0, det)
        self._assume(T.bo(goal))

    def in_bounds(self, j, n):
        if not self.checks_on:
            return
        self.defined("index is within bounds", band([j >= 0, j < n]))

    def loop_rule(self, lid, it, names, loc):
        from .rules import WitnessLoop
        h = getattr(self, "for_rule", None)
        r = h(lid, it, names, loc) if h is not None else None
        if r is None:
            r = WitnessLoop(self, lid, it, names, loc)
        return r

    def _bounded_by_guard(self, u, hi=None, lo=None):
        """is u <= hi (u >= lo) implied by a guard on u itself, so that rounding of u does not matter?"""
        base = {m: c for m, c in u.p.items() if m}
        k0 = u.p.get((), 0)
        if not base:
            return True
        m0 = min(base)
        need_hi = hi is not None
        need_lo = lo is not None
        for g in self.guards:
            if g.op != "lit" or g.b == "!=":
                continue
            gb = {m: c for m, c in g.a.p.items() if m}
            if set(gb) != set(base):
                continue
            r = Fraction(gb[m0]) / base[m0]
            if any(Fraction(gb[m]) != r * base[m] for m in gb):
                continue
            # g = r*(u-k0) + gk  (op) 0
            bound = Fraction(k0) - Fraction(g.a.p.get((), 0)) / r
            if g.b == "=":
                if need_hi and bound <= hi:
                    need_hi = False
                if need_lo and bound >= lo:
                    need_lo = False
            elif r > 0:
                if need_hi and bound <= hi:
                    need_hi = False
            else:
                if need_lo and bound >= lo:
                    need_lo = False
        return not need_hi and not need_lo

    MARGIN = Fraction(1, 10**9)

    def defined_nonneg(self, label, u):
        if not self.checks_on:
            return
        if posform(u) is not None:
            return
        t0 = time.time()
        if self._bounded_by_guard(u, lo=0):
            self._record(label, "discharged", "guard", time.time() - t0)
            return
        ok, bk, det = self.prove(u >= Re.const(self.MARGIN))
        if not ok:
            ok2, bk2, _ = self.prove(u >= 0)
            det = ("holds only up to rounding error: " if ok2 else "") + det + " @ " + where()
        self._record(label, "discharged" if ok else "failed", bk, time.time() - t0, det)

    def defined_unit(self, label, u):
        if not self.checks_on:
            return
        if u.isconst:
            if abs(u.cval()) > 1:
                self.fail(label, "constant %s" % u)
                raise Unsupported("acos/asin of %s" % u)
            return
        t0 = time.time()
        ok, bk, det = True, "guard", ""
        for kw, g in (({"hi": 1}, u <= 1 - self.MARGIN), ({"lo": -1}, u >= -1 + self.MARGIN)):
            if self._bounded_by_guard(u, **kw):
                continue
            ok, bk, det = self.prove(g)
            if not ok:
                ok2, _, _ = self.prove(u <= 1 if "hi" in kw else u >= -1)
                det = ("holds only up to rounding error: " if ok2 else "") + det + " @ " + where()
                break
        self._record(label, "discharged" if ok else "failed", bk, time.time() - t0, det)

    # ------------------------------------------------------------ results
    def failed(self):
        return [o for o in self.obligations if o.status != "discharged"]


def homogenise(p):
    """same value, written homogeneously in the components of a unit vector"""
    gs = {}
    for i in T.patoms(p):
        g = T.CTX.atoms[i].group
        if g is not None:
            gs.setdefault(g, None)
    for g in gs:
        ids = [a.id for a in T.CTX.atoms if a.group == g]
        one = {((i, 2),): 1 for i in ids}
        deg = lambda m: sum(e for i, e in m if i in ids)
        dmax = max(deg(m) for m in p)
        if any((dmax - deg(m)) % 2 for m in p):
            continue
        out = {}
        for m, c in p.items():
            q = {m: c}
            for _ in range((dmax - deg(m)) // 2):
                q2 = {}
                for m1, c1 in q.items():
                    for m2 in one:
                        mm = T.mono_mul(m1, m2)
                        q2[mm] = q2.get(mm, 0) + c1
                q = q2
            for mm, cc in q.items():
                v = out.get(mm, 0) + cc
                if v:
                    out[mm] = v
                else:
                    out.pop(mm, None)
        p = out
    return p


def posform(u):
    """'pos'/'nonneg' when u is syntactically a sum of non-negative terms"""
    if not u.p:
        return "nonneg"
    pos = False
    for m, c in u.p.items():
        if c < 0:
            return None
        strict = True
        for i, e in m:
            a = T.CTX.atoms[i]
            if not (a.nonneg or e % 2 == 0):
                return None
            if not a.nonzero:
                strict = False
        if strict:
            pos = True
    return "pos" if pos else "nonneg"


def pure_int(b):
    if b.op == "lit":
        return all(not m or (len(m) == 1 and m[0][1] == 1 and T.CTX.atoms[m[0][0]].isint and T.CTX.atoms[m[0][0]].kind == "var") for m in b.a.p)
    if b.op in ("and", "or"):
        return all(pure_int(x) for x in b.a)
    if b.op == "not":
        return pure_int(b.a)
    return b.op == "const"


def size(b):
    if b.op == "lit":
        return len(b.a.p)
    if b.op in ("and", "or"):
        return sum(size(x) for x in b.a)
    if b.op == "not":
        return size(b.a)
    return 1


def approx(v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(15).as_fraction())
    return str(v)


def where():
    """innermost frame in the code under verification"""
    import sys
    et, ev, tb = sys.exc_info()
    fr = []
    if tb is not None:
        for f in traceback.extract_tb(tb):
            if "/general_robotics_toolbox/" in f.filename or f.filename.startswith("<repo"):
                fr.append("%s:%d" % (os.path.basename(f.filename), f.lineno))
    f = sys._getframe(1)
    while f is not None and not fr:
        fn = f.f_code.co_filename
        if "/general_robotics_toolbox/" in fn:
            fr.append("%s:%d" % (os.path.basename(fn), f.f_lineno))
        f = f.f_back
    return fr[-1] if fr else "contract"
