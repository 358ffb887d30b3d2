"""C23: equivalent_configurations, any number of joints, configurations, turns

Soundness: every list the function builds carries an invariant over its elements (a variant of a given configuration:
full turns of revolute joints, within the limits, not all zero); append and extend are obliged to establish it.
Completeness: one arbitrary variant tau of an arbitrary given configuration is followed through the loops.  Before joint p
the list of variants holds tau with the turns of the joints >= p left out, unless that is the given configuration itself."""
from .common import *
from pyvc.engine import PathEnd, Infeasible
from pyvc.rules import seq_at
from pyvc.seqs import gidx
from .c19 import turns
from . import ik

FUNCTIONS = ["equivalent_configurations"]
ASSUMPTIONS = ["numpy.nonzero gives the positions of a condition in ascending order; numpy.argsort a permutation that orders",
               "'already given' is numpy.allclose with its default tolerances, as in the code"]
TURN = None


class Ctx:
    def __init__(self, e):
        self.e = e
        T2 = 2 * T.PI()
        self.N, self.M = size("N"), size("M")
        e.assume(self.N >= 1)
        e.assume(self.M >= 0)
        mkv = lambda n: memo(n, lambda nm: var(nm) * T2)
        self.lo, self.up = mkv("lo"), mkv("up")

        def mkt(nm):
            t = var("t" + nm, isint=True)
            e.assume(bor([t == 0, t == 1]))
            return t
        self.jt = memo("jt", mkt)
        self.cfgs = memo("cfg", lambda nm: self._vec("cfg " + nm))
        self.bags = []
        self.confs = []             # configurations in use (index, vector)
        self.cuts = []              # joint indices in use
        self.cur = None             # configuration whose variants are being made
        self.cutoff = None          # joint after the one being processed
        self.a = None               # index of the configuration tau is a variant of
        self.m = memo("m*", lambda nm: intvar(nm))
        self.zero = None            # tau has no turns in joints below this
        self.ghost = False

    def _vec(self, nm):
        x = memo(nm, lambda n: var(n) * 2 * T.PI())
        return x

    def config(self, b):
        """the given configuration b"""
        x = self.cfgs(b)

        def at(g):
            v = x(g)
            self.e.assume(self.lo(g) <= v)
            self.e.assume(v <= self.up(g))
            return v
        r = S.SymVec(self.N, at, None, "configuration")
        r.frozen = True
        return r

    def fresh(self, name, n):
        self.e.skolems += 1
        k = intvar("#%s%d" % (name, self.e.skolems))
        self.e.assume(k >= 0)
        self.e.assume(k < n)
        return k

    # ---- tau
    def know(self, g):
        e = self.e
        m = self.m(g)
        v = self.config(self.a).get(g) + 2 * T.PI() * m
        e.assume(self.lo(g) <= v)
        e.assume(v <= self.up(g))
        e.assume(bor([T.lit(self.jt(g), "="), T.lit(m, "=")]))
        if self.zero is not None:
            e.assume(bor([g >= self.zero, T.lit(m, "=")]))
        return m

    def tau(self, p=None):
        """tau with the turns of the joints >= p left out"""
        def at(g):
            m = self.know(g)
            if p is not None and not bool(g < p):
                m = 0
            return self.config(self.a).get(g) + 2 * T.PI() * m
        return S.SymVec(self.N, at, None, "tau")

    def scoped(self, conds, f):
        """f under further conditions"""
        e = self.e
        lits, keys = list(e.path), set(e.pathkeys)
        try:
            for c in conds:
                e.assume(c)
                if T.bo(c).op != "const" and not e.feasible(T.bo(c)):
                    return True
            return f()
        except Infeasible:
            return True
        finally:
            e.path, e.pathkeys = lits, keys

    def everywhere(self, f):
        """f(g) at an arbitrary joint g, below, at and above the joint index in use"""
        g = self.fresh("g", self.N)
        ok = True
        if not self.cuts:
            return self.scoped([], lambda: f(g))
        c = self.cuts[-1]
        for cond, j in ([g < c], g), ([], c), ([g > c], g):
            if cond or self.cutoff is not None:
                ok = self.scoped(cond, lambda: f(j)) and ok
        return ok

    def equal(self, x, y):
        if not (isinstance(x, S.SymVec) and x.rows is None):
            return False
        return self.everywhere(lambda g: not T.pclear((x.get(g) - y.get(g)).p) or self.e.prove(T.lit(x.get(g) - y.get(g), "="))[0])


class Bag(S.VList):
    """list of variants. conf: the configuration they are variants of (None: any of the given ones); bound: no turns in
    joints >= bound; given: elements that are numpy.allclose to a given configuration are excluded.
    members: (position, element) known to be in the list."""

    def __init__(self, c, conf, bound, given, name):
        c.e.skolems += 1
        S.VList.__init__(self, var("len(%s)#%d" % (name, c.e.skolems), isint=True, nonneg=True), None, name)
        c.e.assume(self.length >= 0)
        self.c, self.conf, self.bound, self.given, self.row = c, conf, bound, given, c.N
        self.elems, self.members, self.made = [], [], []
        c.bags.append(self)

    def again(self, bound=None):
        b = Bag(self.c, self.conf, self.bound if bound is None else bound, self.given, self.name)
        b.parent = self
        for pos, v in self.members:
            b.member(pos, v)
        return b

    parent = None

    def descends(self, v):
        return self is v or self.parent is not None and self.parent.descends(v)

    def member(self, pos, v):
        self.c.e.assume(pos >= 0)
        self.c.e.assume(pos < self.length)
        self.members.append((pos, v))

    def any(self):
        """an arbitrary element"""
        c = self.c
        e = c.e
        e.skolems += 1
        n = e.skolems
        conf = self.conf
        if conf is None:
            b = c.fresh("source", c.M)
            conf = c.config(b)
            c.confs.append(conf)
        m = memo("turns#%d" % n, intvar)
        d = c.fresh("turned", c.N)
        bound = self.bound

        def at(g):
            k = m(g)
            v = conf.get(g) + 2 * T.PI() * k
            e.assume(bor([T.lit(c.jt(g), "="), T.lit(k, "=")]))
            e.assume(c.lo(g) <= v)
            e.assume(v <= c.up(g))
            if bound is not None:
                e.assume(bor([g < bound, T.lit(k, "=")]))
            return v
        e.assume(T.lit(m(d), "!="))
        if bound is not None:
            e.assume(d < bound)
        x = S.SymVec(c.N, at, None, "variant")
        x.turned = [d]
        if self.given:
            g = c.given
            e.assume(bnot(c.close(c.config(g), x)))
        self.made.append(x)
        return x

    def get(self, j):
        j = Re.of(j)
        for i, v in self.elems + self.members:
            if S.same(i, j):
                return v
        v = self.any()
        self.elems.append((j, v))
        return v

    def copy(self):
        return self

    def require(self, x):
        """x satisfies the invariant"""
        c = self.c
        e = c.e
        if not (isinstance(x, S.SymVec) and x.rows is None and x.layout is None):
            e.check("a configuration is a vector with one angle per joint", False, repr(x))
            return
        e.ensure("a configuration is a vector with one angle per joint", T.lit(x.length - c.N, "="))
        if x.frozen:
            e.check("a variant is not one of the arguments", False)
            return
        cands = [self.conf] if self.conf is not None else list(reversed(c.confs))
        g0 = c.fresh("g", c.N)
        conf = None
        for b in cands:
            hit = []
            for cond in ([g0 > c.cuts[-1]], [g0 < c.cuts[-1]]) if c.cuts else ([],):
                if not hit:
                    c.scoped(cond, lambda: hit.append(turns(x.get(g0) - b.get(g0)) is not None))
            if all(hit) and hit:
                conf = b
                break
        if conf is None:
            e.check("a configuration differs from a given one by full turns", False, [repr(x.get(g0)), [repr(b.get(g0)) for b in cands]])
            return

        def at(g):
            v = x.get(g)
            m = turns(v - conf.get(g))
            e.check("a configuration differs from a given one by full turns", m is not None, repr(v - conf.get(g)))
            if m is None:
                return True
            e.ensure("only revolute joints are turned", bor([T.lit(c.jt(g), "="), T.lit(m, "=")]))
            e.ensure("a variant is within the limits", band([c.lo(g) <= v, v <= c.up(g)]))
            if self.bound is not None:
                e.ensure("only the joints looked at so far are turned", bor([g < self.bound, T.lit(m, "=")]))
            return True
        c.everywhere(at)
        ds = (c.cuts[-1:] if c.cutoff is not None else []) + list(getattr(x, "turned", []))
        goals = []
        for d in ds:
            r = []
            c.scoped([], lambda: r.append(x.get(d) - conf.get(d)))
            goals += [T.lit(v, "!=") for v in r]
        e.ensure("a variant differs from the given configuration", bor(goals) if goals else T.FALSE)
        if self.given:
            e.ensure("nothing already given is returned", bnot(c.close(c.config(c.given), x)))

    def loosen(self):
        # what is read from now on may also be what was just added
        self.elems = []
        if self.bound is not None and self.c.cutoff is not None:
            self.bound = self.c.cutoff

    def append(self, x):
        self.loosen()
        self.require(x)
        pos = self.length
        self.length = pos + 1
        if isinstance(x, S.SymVec):
            self.members.append((pos, x))

    def extend(self, o):
        if isinstance(o, (list, tuple)):
            for x in o:
                self.append(x)
            return
        if not isinstance(o, Bag):
            raise T.Unsupported("extend by %r" % (o,))
        self.loosen()
        n = self.length
        ms = list(o.members)
        k = self.c.e.skolems
        self.c.e.skolems += 1
        self.require(o.any())
        for pos, v in ms:
            self.members.append((n + pos, v))
        self.length = n + o.length

    def __add__(self, o):
        r = self.again()
        r.extend(o)
        return r

    def __setitem__(self, k, v):
        raise T.Unsupported("assignment to an element")

    def __bool__(self):
        return bool(self.length > 0)


class Loop:
    symbolic = True
    rebind = False

    def __init__(self, c, it, names, loc):
        self.c, self.e, self.it, self.names, self.loc = c, c.e, it, names, loc
        self.pos = 0
        self.todo = []

    def carried(self):
        return [n for n in self.names if n in self.loc and (isinstance(self.loc[n], Bag) or self.loc[n].__class__ is list)]

    def bag(self, v, conf, bound, given, name):
        if isinstance(v, Bag):
            return v.again(bound if v.bound is not None else None)
        b = Bag(self.c, conf, bound, given, name)
        for x in v:
            b.append(x)
        return b

    def same(self, loc):
        for n, v in self.vals.items():
            self.e.check("the loop only adds to its lists", isinstance(loc.get(n), Bag) and loc[n].descends(v))


class Configs(Loop):
    """loop over the given configurations"""

    def enter(self):
        c, e = self.c, self.e
        self.case = e.choose(2)
        self.vals = {n: self.bag(self.loc[n], None, None, False, n) for n in self.carried()}
        k = c.fresh("k", c.M) if self.case == 0 else c.a
        self.todo = [k]
        return dict(self.vals)

    def step(self, loc):
        c = self.c
        if self.pos == 0:
            self.pos = 1
            c.cur = c.config(self.todo[0])
            c.confs.append(c.cur)
            c.ghost = self.case == 1
            return seq_at(self.it, self.todo[0]) if not self.it.frozen else c.cur
        self.same(loc)
        if self.case == 0:
            raise PathEnd()
        c.cur, c.ghost = None, False
        c.cuts, c.cutoff = [], None
        raise StopIteration


class Joints(Loop):
    """loop over the joints, in ascending order: invariant before joint p"""

    def enter(self):
        c, e = self.c, self.e
        if isinstance(self.it, S.Indices):
            self.cond = self.it.cond
        else:
            self.cond = lambda j: T.TRUE
        e.check("variants are made of one given configuration", c.cur is not None)
        ns = self.carried()
        for n in ns:
            v = self.loc[n]
            e.check("invariant holds on entry: no joint was turned yet", v.__class__ is list and not v)
        if c.ghost:
            # joints the loop does not look at are not turned in tau
            if e.choose(2):
                j = c.fresh("j", c.N)
                e.assume(bnot(self.cond(j)))
                m = c.know(j)
                e.ensure("a joint that is not looked at has no other turn within its limits", T.lit(m, "="))
                raise PathEnd()
        self.case = e.choose(2)
        p = c.fresh("p", c.N) if self.case == 0 else c.N
        if self.case == 0:
            e.assume(self.cond(p))
        self.p = p
        self.vals = {n: Bag(c, c.cur, p, False, n) for n in ns}
        c.cuts = [p]
        c.cutoff = p + 1 if self.case == 0 else None
        self.zero = None
        if c.ghost:
            self.zero = bool(e.choose(2))
            if self.zero:
                c.zero = p
            else:
                d = c.fresh("turned", p)
                e.assume(T.lit(c.know(d), "!="))
                t = c.tau(p if self.case == 0 else None)
                t.turned = [d]
                for n, b in self.vals.items():
                    pos = intvar("#pos%d" % e.skolems)
                    e.skolems += 1
                    b.member(pos, t)
        return dict(self.vals)

    def step(self, loc):
        c, e = self.c, self.e
        if self.case == 1:
            raise StopIteration
        if self.pos == 0:
            self.pos = 1
            return self.p if isinstance(self.it, S.Indices) else seq_at(self.it, self.p)
        for n, v in self.vals.items():
            e.check("the loop only adds to its lists", isinstance(loc.get(n), Bag))
            if not isinstance(loc.get(n), Bag):
                raise PathEnd()
        if c.ghost:
            m = c.know(self.p)
            none = bool(T.lit(m, "="))
            if not (none and self.zero):
                goal = c.tau(self.p + 1)
                label = "invariant is preserved: the variant with the turns of the joints up to p is in the list"
                for n in self.vals:
                    if any(c.equal(v, goal) for pos, v in loc[n].members):
                        e.check(label, True)
                    else:
                        e.ensure(label, T.lit(m, "=") if not none else T.FALSE)     # or tau has no turn here after all
        raise PathEnd()


class Adding(Loop):
    """loop that only adds to lists: an arbitrary iteration, or complete; then the iterations of interest were executed"""

    def enter(self):
        c, e = self.c, self.e
        self.case = e.choose(2)
        e.assume(self.it.length >= 0)
        inside = c.cur is not None
        given = not inside and isinstance(self.it, Bag)
        self.vals = {n: self.bag(self.loc[n], c.cur, c.cutoff, given, n) for n in self.carried()}
        if self.case == 0:
            if isinstance(self.it, Bag):
                self.todo = [None]
            else:
                self.todo = [c.fresh("k", self.it.length)]
        elif isinstance(self.it, Bag):
            self.todo = [pos for pos, v in self.it.members]
            self.elem = {id(pos): v for pos, v in self.it.members}
        elif inside and c.ghost:
            m = c.know(c.cuts[-1])
            for w in (m - 1, -m - 1):
                if bool(band([w >= 0, w < self.it.length])):
                    self.todo.append(w)
        elif not inside and not given and isinstance(self.it, S.VList):
            raise T.Unsupported("loop over %r" % (self.it,))
        return dict(self.vals)

    def step(self, loc):
        if self.pos:
            self.same(loc)
        if self.pos < len(self.todo):
            k = self.todo[self.pos]
            self.pos += 1
            if isinstance(self.it, Bag):
                return self.it.any() if k is None else self.elem[id(k)]
            return seq_at(self.it, k)
        if self.case == 0:
            raise PathEnd()
        raise StopIteration


def contract(use):
    def f(e):
        e.externals = {}
        i = I(e)
        c = Ctx(e)
        asort = ik.argsort(e)
        T.CTX.tables["closeness"] = {}

        def close(x, y, rtol=1e-05, atol=1e-08):
            z = gidx()
            ks = []
            c.scoped([], lambda: ks.append("%r ~ %r" % (x.get(z), y.get(z))))
            return T.batom("allclose(%s, %r, %r)" % (ks[0], rtol, atol))
        c.close = close
        dist = {}

        def norm(x):
            z = gidx()
            r = []
            c.scoped([], lambda: r.append(x.get(z).key()))
            k = r[0]
            if k not in dist:
                dist[k] = var("norm#%d" % len(dist), nonneg=True)
                e.assume(dist[k] >= 0)
            return dist[k]
        e.externals.update(allclose=close, norm=norm)
        theta_v = S.VList(c.M, c.config, "theta_v")
        theta_v.frozen = True

        class R:
            pass
        r = R()
        r.joint_type = S.VList(c.N, c.jt, "joint_type") if e.choose(2) else S.SymVec(c.N, c.jt, None, "joint_type")
        r.joint_lower_limit, r.joint_upper_limit = S.SymVec(c.N, c.lo), S.SymVec(c.N, c.up)
        last = None
        if use:
            lst = memo("last", lambda nm: var(nm) * 2 * T.PI())
            last = S.VList(c.N, lst) if e.choose(2) else S.SymVec(c.N, lst)
        for x in (r.joint_type, r.joint_lower_limit, r.joint_upper_limit, last):
            if x is not None:
                x.frozen = True
        # tau: an arbitrary variant of an arbitrary given configuration; given: an arbitrary given configuration
        some = bool(c.M >= 1)
        if some:
            c.a, c.given = c.fresh("a", c.M), c.fresh("given", c.M)
            e.witnesses = [c.given]

        def rule(lid, it, names, loc):
            if it is theta_v:
                return Configs(c, it, names, loc) if some else Empty(c, it, names, loc)
            if isinstance(it, S.Indices):
                return Joints(c, it, names, loc)
            if not isinstance(it, Bag) and not T.pclear((it.length - c.N).p):
                return Joints(c, it, names, loc)
            return Adding(c, it, names, loc)
        e.for_rule = rule

        def keep(s, g, cond):
            """filtered comprehension"""
            if not isinstance(s, Bag):
                raise T.Unsupported("filter over %r" % (s,))
            b = Bag(c, s.conf, s.bound, c.cur is None, "kept")
            if e.choose(2):
                x = s.any()
                if bool(T.bo(cond(x))):
                    b.require(g(x))
                raise PathEnd()
            for pos, v in s.members:
                if bool(T.bo(cond(v))):
                    q = intvar("#kept%d" % e.skolems)
                    e.skolems += 1
                    b.member(q, g(v))
            return b
        e.filter_rule = keep
        res = i.equivalent_configurations(r, theta_v, last) if use or e.choose(2) else i.equivalent_configurations(r, theta_v)
        if not some:
            n = len(res) if isinstance(res, list) else res.length
            e.ensure("no configuration, no variant", T.lit(Re.of(n), "="))
            return
        if isinstance(res, list) and not res:
            bags = []
            e.check("a list is returned", True)
        else:
            e.check("a list is returned", isinstance(res, S.VList), repr(type(res)))
            if not isinstance(res, S.VList):
                return
        # the variant tau
        if e.choose(2):
            c.cuts = []
            goal = c.tau()
            m0 = c.zero is not None and not T.pclear((c.zero - c.N).p)
            if m0:
                e.check("every variant of a given configuration is given or returned", True)       # tau is configuration a itself
                return
            found = False
            if isinstance(res, S.VList):
                pos = [p for b in c.bags if b.given for p, v in b.members] if asort.calls else [p for p, v in getattr(res, "members", [])]
                for p in pos:
                    k = p
                    if asort.calls:
                        k = c.fresh("rank", res.length)
                        r = T.lit(asort.calls[-1][1](k) - p, "=")
                        if not e.feasible(r):
                            raise Infeasible()
                        e.assume(r)
                    found = found or c.equal(res.get(k), goal)
            # not in the list: then it was found to be already given
            t = goal_is_given(e, c, goal)
            e.check("every variant of a given configuration is given or returned", found or t)
            return
        if isinstance(res, list):
            return
        # the elements of the result
        if isinstance(res, Bag) and e.choose(2):
            out = Bag(c, None, None, True, "result")
            out.require(res.any())
            return
        ri, rj = c.fresh("ri", res.length), c.fresh("rj", res.length)
        if not e.feasible(ri < res.length):
            e.check("a list is returned", True)
            return
        out = Bag(c, None, None, True, "result")
        x = res.get(ri)
        out.require(x)
        if use:
            e.assume(rj > ri)
            y = res.get(rj)
            e.ensure("with last_joints the list is ordered by distance to it", norm(NP.subtract(x, last)) <= norm(NP.subtract(y, last)))
    return f


def goal_is_given(e, c, tau):
    """the path knows that some given configuration is close to tau"""
    q = S.VList(c.M, lambda b: bnot(c.close(c.config(b), tau)))
    want = q.all()
    return e.prove(bnot(want))[0]


class Empty(Loop):
    """loop over no configuration"""

    def enter(self):
        self.vals = {}
        return {n: self.loc[n] for n in self.carried()}

    def step(self, loc):
        raise StopIteration


CONTRACTS = [("equivalent_configurations", contract(False)), ("equivalent_configurations, last_joints", contract(True))]
