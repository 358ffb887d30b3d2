"""C24: iterative_invkin on robots with any number of joints, any number of iterations"""
from .common import *
from pyvc.engine import PathEnd
from pyvc.rules import seq_at
from pyvc.seqs import gidx
from .c19 import turns

FUNCTIONS = ["iterative_invkin", "normalize_joints.__init__", "normalize_joints.normalize", "normalize_joints.__call__"]
ASSUMPTIONS = ["callee contracts: fwdkin (C10, C11: a function of the joint vector), R2rot (C03)",
               "nothing is assumed about robotjacobian, pinv or lstsq, the gains and the step that is taken"]


class Poses:
    """contracts of fwdkin and R2rot: the pose is a function of the joint vector"""

    def __init__(self, e, rox, robot, N, R_d, p_d):
        self.e, self.rox, self.robot, self.N, self.R_d, self.p_d = e, rox, robot, N, R_d, p_d
        self.known = []         # (key, vector, R, p, k, theta)

    def flat(self, q):
        ok = isinstance(q, S.SymVec) and q.rows is None and q.layout is None
        if not ok:
            raise T.Unsupported("joint vector %r" % (q,))
        self.e.ensure("the joint vector has one element per joint", T.lit(q.length - self.N, "="))
        return q

    def at(self, q):
        """pose and error of the joint vector q"""
        key = Re.of(q.get(gidx())).key()
        for s in self.known:
            if s[0] == key:
                return s
        n = len(self.known)
        if self.e.choose(2):
            k, th = [0, 0, 1], Re.const(0)
        else:
            k, th = unit("axis%d_" % n), var("angle%d" % n)
            self.e.assume(th >= 0)
            self.e.assume(th <= T.PI())
        s = (key, q.copy(), mat("Rq%d" % n, 3, 3), vec("pq%d" % n), k, th)
        self.known.append(s)
        self.e.iterates.append(s[1])
        return s

    def fwdkin(self, robot, theta, _ignore_limits=False):
        self.e.check("fwdkin is called for the robot, limits ignored", robot is self.robot and bool(_ignore_limits))
        s = self.at(self.flat(theta))
        return self.rox.Transform(s[2].copy(), s[3].copy())

    def R2rot(self, R):
        for s in self.known:
            E = mm(self.R_d.T, s[2])
            if equal(R, E):
                return (list(s[4]) if isinstance(s[4], list) else s[4].copy()), s[5]
            if equal(R, E.T):
                return [-Re.of(x) for x in s[4]], s[5]
        self.e.check("R2rot is called with the orientation error of the current joint vector", False)
        raise PathEnd()

    def small(self, q, tol):
        """every component of the errors is below the tolerance"""
        key, _, R, p, k, th = self.at(q)
        EP = mm(R.T, p - self.p_d)
        sn = T.cossin(th / 2)[1]
        out = []
        for x in [sn * Re.of(c) for c in k] + EP.tolist():
            out += [x < tol, -x < tol]
        return band(out)


def equal(a, b):
    return isinstance(a, rnp.ndarray) and a.shape == b.shape and all(g.op == "const" and g.a for g in eqs(a, b))


def truth(v):
    if isinstance(v, rnp.ndarray):
        v = v.item()
    return T.bo(v) if isinstance(v, (Bo, bool, int, rnp.bool_)) else None


class Iter:
    """invariant of the iteration, with a ghost counter n of the iterations made:
    integers have advanced by n (or counted down by n), a flag that is set means that the errors of every
    current joint vector are below the tolerance, joint vectors are arbitrary"""
    symbolic = True
    rebind = False

    def __init__(self, e, P, tol, steps, names, loc, it=None):
        self.e, self.P, self.tol, self.steps, self.names, self.loc, self.it = e, P, tol, steps, names, loc, it
        self.ran = False

    def shape(self, loc):
        ints, flags, vecs = [], [], []
        for n in self.names:
            if n not in loc:
                continue
            v = loc[n]
            if isinstance(v, (bool, Bo)):
                flags.append(n)
            elif isinstance(v, int) or isinstance(v, Re) and v.isint:
                ints.append(n)
            elif isinstance(v, S.SymVec) and v.rows is None:
                vecs.append(n)
        return ints, flags, vecs

    def conv(self, loc):
        return [truth(loc[n]) for n in self.flags]

    def goal(self, loc):
        return band([implies(c, band([self.P.small(loc[v].flatten(), self.tol) for v in self.vecs])) for c in self.conv(loc)])

    def enter(self):
        e = self.e
        self.ints, self.flags, self.vecs = self.shape(self.loc)
        for c in self.conv(self.loc):
            e.ensure("invariant holds on entry: not converged", bnot(c))
        e.skolems += 1
        self.n = intvar("#iterations%d" % e.skolems)
        e.assume(self.n >= 0)
        e.assume(self.n <= self.steps)
        d = {}
        for v in self.vecs:
            old = self.loc[v]
            q = memo("q#%d %s" % (e.skolems, v), lambda nm: var(nm) * 2 * T.PI())
            d[v] = S.SymVec(old.length, q, None, v, old.layout)
            e.iterates.append(d[v].flatten())
        for v in self.ints:
            x = Re.of(self.loc[v])
            d[v] = x + self.n if x.isconst else x - self.n
        done = False
        for v in self.flags:
            d[v] = bool(e.choose(2))
            done = done or d[v]
        if done:
            for v in self.vecs:
                e.assume(self.P.small(d[v].flatten(), self.tol))
        self.vals = d
        if self.it is not None:
            self.case = e.choose(2)
            if self.case == 0:
                e.assume(self.n < self.steps)
            else:
                e.assume(T.lit(self.n - self.steps, "="))
        return d

    # while
    def tested(self, b):
        if b:
            self.e.ensure("at most max_steps iterations are made", self.n < self.steps)
        self.e.witnesses = []

    def end(self, loc):
        e = self.e
        for v in self.ints:
            x = Re.of(self.loc[v])
            e.ensure("invariant is preserved: %s counts the iterations" % "a variable",
                     T.lit(Re.of(loc[v]) - (x + self.n + 1 if x.isconst else x - self.n - 1), "="))
        e.ensure("invariant is preserved: converged only below the tolerance", self.goal(loc))
        for v in self.vecs:
            e.ensure("invariant is preserved: one element per joint", T.lit(loc[v].length - self.loc[v].length, "="))

    # for
    def step(self, loc):
        if self.case == 1:
            raise StopIteration
        if self.ran:
            self.end(loc)
            raise PathEnd()
        self.ran = True
        return seq_at(self.it, self.n)


class Bot:
    """robot with N joints, as far as it is looked at"""

    def __init__(self, e, types, limits):
        self.N = size()
        e.assume(self.N >= 1)
        turn = 2 * T.PI()
        mkv = lambda n: memo(n, lambda nm: var(nm) * turn)
        self.seed = mkv("seed")

        def mkt(nm):
            t = var("t" + nm, isint=True)
            e.assume(bor([t == x for x in types]))
            return t
        self.jt = memo("jt", mkt)
        self.joint_type = S.VList(self.N, self.jt, "joint_type") if e.choose(2) else S.SymVec(self.N, self.jt, None, "joint_type")
        self.joint_lower_limit = self.joint_upper_limit = None
        if limits:
            self.joint_lower_limit = S.SymVec(self.N, mkv("lo"))
            self.joint_upper_limit = S.SymVec(self.N, mkv("up"))
        self.q = S.VList(self.N, self.seed) if e.choose(2) else S.SymVec(self.N, self.seed)
        self.w = intvar("joint")
        e.assume(self.w >= 0)
        e.assume(self.w < self.N)
        for a in (self.joint_type, self.joint_lower_limit, self.joint_upper_limit, self.q):
            if a is not None:
                a.frozen = True


def run(limits, defaults):
    def contract(e):
        i = I(e)
        e.iterates = []
        rox = i.rox
        r = Bot(e, (0, 1), limits)
        R_d, p_d = mat("Rd", 3, 3), vec("pd")
        P = Poses(e, rox, r, r.N, R_d, p_d)
        rox.fwdkin, rox.R2rot = P.fwdkin, P.R2rot
        jac = [0]

        def jacobian(robot, theta, _ignore_limits=False):
            e.check("the Jacobian is that of the robot, limits ignored", robot is r and bool(_ignore_limits))
            P.flat(theta)
            jac[0] += 1
            return S.SymVec(r.N, memo("J%d" % jac[0], lambda nm: vec(nm, 6)), 6)
        rox.robotjacobian = jacobian
        turn = 2 * T.PI()

        class Pinv:
            __array_ufunc__ = None
            frozen = False

        def mult(a, b):
            jac[0] += 1
            return S.SymVec(r.N, memo("delta%d" % jac[0], lambda nm: var(nm) * turn))
        e.externals = {"pinv": lambda J: S.SymVec(r.N, memo("pinv", lambda nm: vec(nm, 6)), 6, "pinv"), "matmul": mult}
        steps = intvar("max_steps")
        tol = var("tol")
        if defaults:
            tol = Re.const(Fraction(1e-4))
        e.assume(steps >= 0)
        e.while_rule = lambda lid, cond, names, loc: Iter(e, P, tol, steps, names, loc)
        e.for_rule = lambda lid, it, names, loc: Iter(e, P, tol, steps, names, loc, it) if not T.pclear((it.length - steps).p) else None

        # no element of a normalised configuration is None
        def none_rule(l):
            e.skolems += 1
            k = intvar("#n%d" % e.skolems)
            e.assume(k >= 0)
            e.assume(k < r.N)
            e.check("no joint is dropped", l.get(k) is not None)
            return False
        S.VList.none_rule = staticmethod(none_rule)
        try:
            pose = rox.Transform(R_d.copy(), p_d.copy())
            kw = dict(max_steps=steps) if defaults else dict(max_steps=steps, tol=tol, Kp=mat("Kp", 3, 3), KR=mat("KR", 3, 3))
            snap = Snapshot(pose.R, pose.p, *kw.values())
            res = i.iterative_invkin(r, pose, r.q, **kw)
            snap.ensure(e)
            ok = isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], list) and len(res[1]) == 1
            e.check("the result is (converged, [configuration])", ok)
            if not ok:
                return
            conv, x = truth(res[0]), res[1][0]
            ok = conv is not None and isinstance(x, (S.VList, S.SymVec))
            e.check("the result is (converged, [configuration])", ok)
            if not ok:
                return
            e.ensure("one angle per joint", T.lit(x.length - r.N, "="))
            xw = Re.of(x.get(r.w))
        finally:
            S.VList.none_rule = None
        # the current joint vector at the end, of which x is the normalised form
        cands = []
        for v in e.iterates:
            if turns(xw - v.get(r.w)) is not None:
                cands.append(v)
        e.check("the configuration is an iterate shifted by full turns", bool(cands), repr(xw))
        if not cands:
            return
        q = cands[0]
        e.ensure("when convergence is reported, every component of the errors is below the tolerance", implies(conv, P.small(q, tol)))
        t = r.jt(r.w)
        d = xw - r.seed(r.w)
        if bool(bor([T.lit(t - y, "=") for y in (0,)])):
            e.ensure("revolute joints are returned on the turn nearest the seed", band([d <= T.PI(), -d <= T.PI()]))
        else:
            e.ensure("prismatic joints are not shifted", T.lit(xw - q.get(r.w), "="))
    return contract


def turned(e):
    """a full turn of a revolute joint does not change its rotation"""
    k = unit("k")
    th, m = var("theta"), intvar("m")
    e.ensure_all("lemma: rot(k, theta + 2 pi m) = rot(k, theta)", eqs(rot(k, th + 2 * T.PI() * m), rot(k, th)))


CONTRACTS = [("iterative_invkin, limits", run(True, False)), ("iterative_invkin, no limits", run(False, False)),
             ("iterative_invkin, default gains and tolerance", run(True, True)), ("full turns", turned)]
