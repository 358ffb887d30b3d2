"""C13: the Jacobian is the derivative of the forward kinematics

Column c is specified by the derivative of the recursion of chain.py with respect to theta_c:
    dR_{c+1} = R_c Rod'(H_c, theta_c) (rotation) or 0 (translation), dp_{c+1} by the product rule, and the recursion
    differentiated with theta constant from there on.
The lemmas show by induction that, with w = R_c H_c,
    rotation:     dR_k = hat(w) R_k,  dp_k = w x (p_k - p_c)          for every k > c
    translation:  dR_k = 0,           dp_k = w
so that the derivative of T_base (R_N, p_N) T_flange Tool has the angular and linear velocity the postcondition names."""
from .chain import *
from pyvc.engine import PathEnd
import z3

FUNCTIONS = ["robotjacobian", "rot", "hat", "Robot.__init__"]


# ---------------------------------------------------------------- lemmas (specification only)
def lemma_base(e):
    """k = c+1"""
    k, q = unit("h"), None
    R, _ = rotmat("r")
    p, P1 = vec("p"), vec("P")
    th = var("th")
    c, s = T.cossin(th)
    Rod = rodrigues(k, c, s)
    # derivative of c I + (1-c) k k^T + s hat(k) with respect to theta: -s I + s k k^T + c hat(k)
    dRod = arr([[(-s if i == j else 0) + s * k[i] * k[j] + c * hat(k)[i, j] for j in range(3)] for i in range(3)])
    w = mm(R, k)
    R1 = mm(R, Rod)
    dR1 = mm(R, dRod)
    p1 = p + mm(R1, P1)
    dp1 = mm(dR1, P1)
    e.ensure_all("rotation: dR = hat(w) R", eqs(dR1, mm(hat(w), R1)))
    e.ensure_all("rotation: dp = w x (p_k - p_c)", eqs(dp1, cross(w, p1 - p)))
    # translation: p1 = p + th R k + R P1
    e.ensure_all("translation: dp = w", eqs(w, mm(R, k)))


def lemma_step(e):
    """k -> k+1, joint k held fixed"""
    R, _ = rotmat("r")
    w, p, pc, P1, h = vec("w"), vec("p"), vec("pc"), vec("P"), unit("h")
    th = var("th")
    dR, dp = mm(hat(w), R), cross(w, p - pc)
    A = rot(h, th)
    R1, dR1 = mm(R, A), mm(dR, A)
    p1, dp1 = p + mm(R1, P1), dp + mm(dR1, P1)
    e.ensure_all("through a rotating joint", eqs(dR1, mm(hat(w), R1)) + eqs(dp1, cross(w, p1 - pc)))
    p1, dp1 = p + th * mm(R, h) + mm(R, P1), dp + th * mm(dR, h) + mm(dR, P1)
    e.ensure_all("through a translating joint", eqs(dR, mm(hat(w), R)) + eqs(dp1, cross(w, p1 - pc)))


def lemma_end(e):
    """flange, tool and base: angular and linear velocity of the pose returned by fwdkin"""
    R, _ = rotmat("r")
    w, p, pc, v = vec("w"), vec("p"), vec("pc"), vec("v")
    F, Tl, B = [(rotmat(x + "q")[0], vec(x + "p")) for x in "ftb"]
    Rt, pt = mm(R, F[0], Tl[0]), p + mm(R, F[1]) + mm(R, F[0], Tl[1])
    dR, dp = mm(hat(w), R), cross(w, p - pc)
    dRt, dpt = mm(dR, F[0], Tl[0]), dp + mm(dR, F[1]) + mm(dR, F[0], Tl[1])
    e.ensure_all("rotation: linear velocity of the tool", eqs(mm(B[0], dpt), mm(B[0], cross(w, pt - pc))))
    e.ensure_all("rotation: dR = hat(B w) R", eqs(mm(B[0], dRt), mm(hat(mm(B[0], w)), B[0], Rt)))


# ---------------------------------------------------------------- the code
def tip(c, sp):
    R, p = c.R(c.N), c.p(c.N)
    for k in ("F", "tool"):
        if k in sp:
            R, p = compose((R, p), sp[k])
    return p


def spec_col(c, j, pT, B):
    """angular and linear velocity for joint j"""
    w = mm(c.R(j), c.H(j))
    if bool(c.jt(j) == 0):
        return list(mm(B, w).tolist()) + mm(B, cross(w, pT - c.p(j))).tolist()
    return [Re.const(0)] * 3 + mm(B, w).tolist()


def J_cand(e, c, pT, n=None, colf=None, upto=None, B=None):
    n = c.N if n is None else n
    B = eye() if B is None else B
    f = colf or (lambda j: spec_col(c, j, pT, B))

    def matches(v):
        return isinstance(v, S.SymVec) and v.rows == 6 and not T.pclear((v.length - n).p)

    up = upto or (lambda k: k)

    def make(k):
        # columns j < upto(k) hold the specification, the others zero
        return S.SymVec(n, lambda j: arr(f(j)) if bool(j < up(k)) else arr([0] * 6), 6, "J")

    def goals(k, v):
        e.skolems += 1
        sk = var("#h%d" % e.skolems, isint=True)
        e.assume(sk >= 0)
        e.assume(sk < n)
        if not matches(v):
            return [T.FALSE]
        x = v.get(sk)
        return eqs(x, arr(f(sk)) if bool(sk < up(k)) else arr([0] * 6))
    return Cand("Jacobian columns", matches, make, goals)


def jac_rules(e, g, c, sp):
    pT = tip(c, sp)
    hh = history(c, c.N, lambda j: mm(c.R(j), c.H(j)), lambda k: k, name="axes")
    pp = history(c, c.N + 1, lambda j: c.p(j), lambda k: k + 1, name="origins")
    hh.goals0, pp.goals0 = hh.goals, pp.goals

    def rule(lid, it, names, loc):
        if not names:
            return None
        cands = chain_candidates(c, g) + [pp, hh, J_cand(e, c, pT)] + counter()
        return FoldRule(e, lid, it, names, loc, cands, defines_next(c))

    def wrule(lid, cond, names, loc):
        return WhileRule(e, lid, names, loc, c.N, [J_cand(e, c, pT)], defines=None)
    e.for_rule = rule
    e.while_rule = wrule
    return pT


class WhileRule:
    """while over the joints with counters that advance by one: state k in 0..N"""

    def __init__(self, e, lid, names, loc, N, cands, defines=None):
        self.e, self.names, self.loc, self.N = e, names, loc, N
        self.f = FoldRule(e, lid, S.SymRange(0, N), names, loc, cands + counter())

    def enter(self):
        e = self.e
        self.f._entry(self.loc)
        e.skolems += 1
        self.k = var("#k%d" % e.skolems, isint=True)
        e.assume(self.k >= 0)
        e.assume(self.k <= self.N)
        return self.f._havoc(self.k)

    def tested(self, b):
        e = self.e
        if not b:
            e.ensure("the loop ends after the last joint", T.lit(self.k - self.N, "="))
            e.assume(T.lit(self.k - self.N, "="))
        else:
            e.ensure("the loop body runs for a joint", self.k < self.N)

    def end(self, loc):
        self.f._preserved(self.k, loc)


def value(e, aux, limits):
    g = G(e)
    c = Chain(e, types=(0, 1), rotations=True)
    th = c.theta(limited=limits == "both")
    kw = {}
    if limits in ("both", "ignored"):
        kw["joint_lower_limit"] = numbers(e, c.lo, c.N)
        kw["joint_upper_limit"] = numbers(e, c.up, c.N)
    r, sp = robot(e, g, c, kw, aux)
    pT = jac_rules(e, g, c, sp)
    J = g.robotjacobian(r, th, True) if limits == "ignored" else g.robotjacobian(r, th)
    e.check("the Jacobian has six rows", isinstance(J, S.SymVec) and J.rows == 6)
    e.ensure("the Jacobian has one column per joint", T.lit(J.length - c.N, "="))
    j = intvar("col")
    e.assume(j >= 0)
    e.assume(j < c.N)
    B = sp["B"][0] if "B" in sp else eye()
    want = spec_col(c, j, pT, B)
    x = J.get(j)
    e.ensure_all("angular velocity per unit rate", eqs(x[0:3], arr(want[0:3])))
    e.ensure_all("linear velocity per unit rate", eqs(x[3:6], arr(want[3:6])))


def numbers(e, f, n):
    v = S.VList(n, f, "limit") if e.choose(2) else S.SymVec(n, f, None, "limit")
    v.frozen = True
    return v


def rejects(e):
    g = G(e)
    c = Chain(e, types=(0, 1), rotations=True)
    gi = intvar("gi")
    e.assume(gi >= 0)
    e.assume(gi < c.N)
    th = c.theta(limited=True, bad=gi)
    e.witnesses.append(gi)
    if e.choose(2):
        e.assume(c.th(gi) < c.lo(gi))
    else:
        e.assume(c.th(gi) > c.up(gi))
    r, sp = robot(e, g, c, {"joint_lower_limit": numbers(e, c.lo, c.N), "joint_upper_limit": numbers(e, c.up, c.N)}, False)
    jac_rules(e, g, c, sp)
    raises(e, "a joint out of range raises an error", lambda: g.robotjacobian(r, th))


# ---------------------------------------------------------------- mobile base
class Mobile(Chain):
    """two joints of type 3, one of type 2, then an arm of any number of joints of type 0 or 1"""

    def __init__(self, e):
        self.M = size("M")
        e.assume(self.M >= 0)
        Chain.__init__(self, e, N=self.M + 3, rotations=True)
        raw = self.jt
        z = {0: 3, 1: 3, 2: 2}

        def jt(j):
            j = Re.of(j)
            if j.isconst:
                return Re.const(z[int(j.cval())])
            if e.int_query(j < 3) == z3.unsat:
                t = arm(j)
                return t
            return raw(j)

        def mka(nm):
            t = var("a" + nm, isint=True)
            e.assume(bor([t == 0, t == 1]))
            return t
        arm = memo("arm", mka)
        self.jt = jt
        t = T.CTX.tables
        for k in (1, 2):        # translations leave the orientation
            t["memo:Rk"][Re.const(k).key()] = (Re.const(k), eye())


class MobileRule:
    """invariant of the assembly loop: before the base (all counters 0, J zero), or m joints of the arm done"""

    def __init__(self, e, c, names, loc, cand0, cand, offsets):
        self.e, self.c, self.names, self.loc, self.cand0, self.cand, self.off = e, c, names, loc, cand0, cand, offsets

    def enter(self):
        e, c = self.e, self.c
        self.first = e.choose(2) == 0
        self.cnt = [n for n in self.names if n in self.loc and isint(self.loc[n])]
        self.arrs = [n for n in self.names if n in self.loc and self.cand0.matches(self.loc[n])]
        for n in self.arrs:
            e.ensure_all("invariant holds on entry: Jacobian columns", self.cand0.goals(Re.const(0), self.loc[n]))
        if self.first:
            return {n: self.loc[n] for n in self.cnt + self.arrs}
        e.skolems += 1
        self.m = var("#m%d" % e.skolems, isint=True)
        e.assume(self.m >= 0)
        e.assume(self.m <= c.M)
        d = {n: self.off[n] + self.m for n in self.cnt if n in self.off}
        for n in self.arrs:
            d[n] = self.cand.make(self.m)
        return d

    def tested(self, b):
        e = self.e
        if self.first:
            e.check("the loop body runs for the base", b)
            if not b:
                raise PathEnd()
        elif b:
            e.ensure("the loop body runs for a joint", self.m < self.c.M)
        else:
            e.ensure("the loop ends after the last joint", T.lit(self.m - self.c.M, "="))
            e.assume(T.lit(self.m - self.c.M, "="))

    def end(self, loc):
        e = self.e
        if self.first:
            for n in self.cnt:
                v = Re.of(loc[n])
                e.check("counters after the base are constants", v.isconst)
                self.off.setdefault(n, v)
        m1 = Re.const(0) if self.first else self.m + 1
        for n in self.cnt:
            e.ensure("invariant is preserved: counter", T.lit(Re.of(loc[n]) - self.off[n] - m1, "="))
        for n in self.arrs:
            e.ensure_all("invariant is preserved: Jacobian columns", self.cand.goals(m1, loc[n]))


def mobile(e, aux, offsets):
    g = G(e)
    c = Mobile(e)
    th = c.theta()
    r, sp = robot(e, g, c, {}, aux)
    B = sp["B"][0] if "B" in sp else eye()

    def colf(j, B=None):
        B = eye() if B is None else B
        if bool(Re.of(j) == 0):
            return [Re.const(0)] * 3 + mm(B, rot(c.H(Re.const(2)), c.th(Re.const(2))), c.H(Re.const(0))).tolist()
        if bool(Re.of(j) == 1):
            w = c.H(Re.const(2))
            return mm(B, w).tolist() + mm(B, cross(w, pT - c.p(Re.const(2)))).tolist()
        return spec_col(c, j + 1, pT, B)
    pT = jac_rules(e, g, c, sp)
    cand0 = J_cand(e, c, pT)
    cand = J_cand(e, c, pT, n=c.N - 1, colf=colf, upto=lambda m: m + 2)
    e.while_rule = lambda lid, cond, names, loc: MobileRule(e, c, names, loc, cand0, cand, offsets)
    J = g.robotjacobian(r, th)
    e.check("the Jacobian has six rows", isinstance(J, S.SymVec) and J.rows == 6)
    e.ensure("the base has two columns, every further joint one", T.lit(J.length - c.N + 1, "="))
    case = e.choose(3)
    if case < 2:
        j = Re.const(case)
    else:
        j = intvar("col")
        e.assume(j >= 2)
        e.assume(j < c.N - 1)
    e.ensure_all(["first column: forward motion", "second column: turning motion", "further columns: joints of the arm"][case], eqs(J.get(j), arr(colf(j, B))))


CONTRACTS = [("robotjacobian of a mobile base (aux %d)" % a, (lambda e, a=a, o={}: mobile(e, a, o))) for a in (0, 7)]
CONTRACTS += [("lemma: derivative at the joint", lemma_base), ("lemma: derivative along the chain", lemma_step), ("lemma: derivative at the tool", lemma_end)] + \
    [("robotjacobian within limits (aux %d)" % a, (lambda e, a=a: value(e, a, "both"))) for a in range(8)] + \
    [("robotjacobian without position limits (%s)" % l, (lambda e, l=l: value(e, 7, l))) for l in ("none", "ignored")] + \
    [("robotjacobian out of range", rejects)]
