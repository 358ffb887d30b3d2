"""Robots with any number of joints: specification state of the chain recursion and loop invariants over it.

The specification functions R_k, p_k (pose of the frame after joint k and its link offset) are defined by
    R_0 = I, p_0 = P_0
    joint k rotates (type 0, 2):      R_{k+1} = R_k Rod(H_k, theta_k),  p_{k+1} = p_k + R_{k+1} P_{k+1}
    joint k translates (type 1, 3):   R_{k+1} = R_k,                    p_{k+1} = p_k + theta_k R_k H_k + R_{k+1} P_{k+1}
Rk(j), pk(j) are their names at index j; the recursion is used exactly where an obligation speaks about k and k+1."""
from .common import *
from pyvc.rules import InvRule
from pyvc.engine import PathEnd

ROT, TRANS = (0, 2), (1, 3)


class Chain:
    def __init__(self, e, types=(0, 1, 2, 3), N=None, rotations=False):
        self.e = e
        self.N = size() if N is None else N
        e.assume(self.N >= 0)
        self.H = memo("H", lambda nm: unit("u" + nm))
        self.P = memo("P", vec)
        self.types = types

        def mkt(nm):
            t = var("t" + nm, isint=True)
            e.assume(bor([t == x for x in types]))
            return t
        self.jt = memo("jt", mkt)
        self.R = memo("Rk", (lambda nm: rotmat(nm)[0]) if rotations else (lambda nm: mat(nm, 3, 3)))
        self.p = memo("pk", vec)
        # R_0 = I, p_0 = P_0
        t = T.CTX.tables
        z = Re.const(0)
        t.setdefault("memo:Rk", {})[z.key()] = (z, eye())
        t.setdefault("memo:pk", {})[z.key()] = (z, self.P(z))

    # ---- arguments
    def arrays(self):
        N = self.N
        H = S.SymVec(N, self.H, 3, "H")
        P = S.SymVec(N + 1, self.P, 3, "P")
        jt = S.VList(N, self.jt, "joint_type") if self.e.choose(2) else S.SymVec(N, self.jt, None, "joint_type")
        for a in (H, P, jt):
            a.frozen = True
        self.args = (H, P, jt)
        return H, P, jt

    def theta(self, limited=False, bad=None):
        """joint vector; limited: within the limits; bad: out of range at that index, arbitrary elsewhere"""
        e = self.e
        self.lo, self.up = memo("lo", var), memo("up", var)

        def mk(nm):
            return var(nm)
        raw = memo("th", mk)
        seen = set()

        def th(j):
            t = raw(j)
            k = Re.of(j).key()
            if limited and k not in seen and bad is None:
                seen.add(k)
                e.assume(self.lo(j) <= t)
                e.assume(t <= self.up(j))
            return t
        self.th = th
        kind = e.choose(2)
        v = S.VList(self.N, th, "theta") if kind else S.SymVec(self.N, th, None, "theta")
        v.frozen = True
        return v

    # ---- one step of the recursion
    def step(self, k, R=None, p=None):
        R = self.R(k) if R is None else R
        p = self.p(k) if p is None else p
        t = self.jt(k)
        th = self.th(k)
        if bool(bor([t == x for x in ROT])):
            R1 = mm(R, rot(self.H(k), th))
            return R1, p + mm(R1, self.P(k + 1))
        return R, p + th * mm(R, self.H(k)) + mm(R, self.P(k + 1))


class Cand:
    """candidate invariant of one loop-carried variable: matches(v) at loop entry; make(k); goals(k, v)"""

    def __init__(self, name, matches, make, goals):
        self.name, self.matches, self.make, self.goals = name, matches, make, goals


def equal(a, b):
    return shape_of(a) == shape_of(b) and all(g.op == "const" and g.a for g in eqs(a, b))


def shape_of(a):
    return a.shape if isinstance(a, rnp.ndarray) else None


def chain_candidates(c, g, state=None):
    """state(k) -> (R, p) of the specification at loop index k"""
    st = state or (lambda k: (c.R(k), c.p(k)))
    I = eye()
    P0 = c.P(Re.const(0))
    out = []

    def vecs(f, first):
        for shp in ((3, 1), (3,)):
            out.append(Cand("position " + str(shp), lambda v, s=shp: shape_of(v) == s and equal(v.reshape(3), first),
                            lambda k, s=shp: f(k).reshape(s).copy(),
                            lambda k, v, s=shp: [T.bo(shape_of(v) == s)] + (eqs(v.reshape(3), f(k)) if shape_of(v) == s else [])))
    out.append(Cand("rotation", lambda v: shape_of(v) == (3, 3) and equal(v, I), lambda k: st(k)[0].copy(),
                    lambda k, v: eqs(v, st(k)[0])))
    vecs(lambda k: st(k)[1], P0)
    vecs(lambda k: st(k)[1] - mm(st(k)[0], c.P(k)), arr([0, 0, 0]))

    def hom(R, p):
        M = eye(4)
        M[:3, :3] = R
        M[:3, 3] = p
        return M
    out.append(Cand("homogeneous", lambda v: shape_of(v) == (4, 4) and equal(v, hom(I, P0)), lambda k: hom(*st(k)), lambda k, v: eqs(v, hom(*st(k)))))
    if g is not None:
        out.append(Cand("transform", lambda v: isinstance(v, g.Transform) and equal(v.R, I) and equal(v.p, P0),
                        lambda k: g.Transform(*st(k)), lambda k, v: eqs(v.R, st(k)[0]) + eqs(v.p, st(k)[1])))
        out.append(Cand("transform before the offset", lambda v: isinstance(v, g.Transform) and equal(v.R, I) and equal(v.p, arr([0, 0, 0])),
                        lambda k: g.Transform(st(k)[0], st(k)[1] - mm(st(k)[0], c.P(k))),
                        lambda k, v: eqs(v.R, st(k)[0]) + eqs(v.p, st(k)[1] - mm(st(k)[0], c.P(k)))))
    return out


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isinstance(v, Re) and v.isconst and v.isint)


def counter():
    return [Cand("counter", lambda v: isint(v), None, None)]


def history(c, n, f, upto, rows=3, name="history"):
    """array whose columns j < upto(k) hold f(j); the remaining columns are not constrained"""
    def matches(v):
        return isinstance(v, S.SymVec) and v.rows == rows and (v.length - n).isconst and (v.length - n).cval() == 0 and \
            all(eqs_true(v.get(Re.const(i)), f(Re.const(i))) for i in range(upto(Re.const(0)).cval()))

    def make(k):
        junk = memo("junk" + name, lambda nm: vec(nm, rows))

        def base(j):
            return f(j).copy() if bool(j < upto(k)) else junk(j)
        return S.SymVec(n, base, rows, name)

    def goals(k, v):
        e = c.e
        e.skolems += 1
        sk = var("#h%d" % e.skolems, isint=True)
        e.assume(sk >= 0)
        e.assume(sk < upto(k))
        if not (isinstance(v, S.SymVec) and v.rows == rows):
            return [T.FALSE]
        x = v.get(sk)       # first: the lookup may identify sk with an index written to
        return [T.lit(v.length - n, "=")] + eqs(x, f(sk))
    return Cand(name, matches, make, goals)


def eqs_true(a, b):
    return all(g.op == "const" and g.a for g in eqs(a, b))


class FoldRule(InvRule):
    """invariant of a loop over the joints: every carried variable holds the specification value of its candidate"""

    def __init__(self, e, lid, it, names, loc, cands, step=None, what="loop"):
        self.cands, self.stepf, self.what = cands, step, what
        self.bound = {}
        self.cnt = {}
        InvRule.__init__(self, e, lid, it, names, loc, self._havoc, self._entry, self._preserved)

    def _entry(self, loc):
        for n in self.names:
            if n not in loc:
                continue
            v = loc[n]
            for cd in self.cands:
                if cd.name == "counter":
                    if isint(v):
                        self.cnt[n] = Re.of(v)
                        break
                    continue
                try:
                    ok = cd.matches(v)
                except T.Unsupported:
                    ok = False
                if ok:
                    self.bound[n] = cd
                    break
        for n, cd in sorted(self.bound.items()):
            self.eng.check("invariant holds on entry: " + cd.name, True)

    def _havoc(self, k):
        d = {n: cd.make(k) for n, cd in self.bound.items()}
        for n, v in self.cnt.items():
            d[n] = v + k
        return d

    def _preserved(self, k, loc):
        if self.stepf:
            self.stepf(k)
        for n, cd in sorted(self.bound.items()):
            self.eng.ensure_all("invariant is preserved: " + cd.name, cd.goals(k + 1, loc[n]))
        for n, v in self.cnt.items():
            self.eng.ensure("invariant is preserved: counter", T.lit(Re.of(loc[n]) - v - k - 1, "="))


def defines_next(c):
    """at the end of iteration k: R_{k+1}, p_{k+1} are the recursion step from k"""
    def f(k):
        t = T.CTX.tables
        R1, p1 = c.step(k)
        for nm, v in (("Rk", R1), ("pk", p1)):
            t.setdefault("memo:" + nm, {})[Re.of(k + 1).key()] = (k + 1, v)
    return f


def robot(e, g, c, kw, aux=True):
    """a Robot made by the constructor; returns (robot, spec of the aux transforms)"""
    H, P, jt = c.arrays()
    sp = {}
    if aux is True:
        n = e.choose(8)
    elif isinstance(aux, int) and aux is not False:
        n = aux
    else:
        n = 0
    if n & 1:
        sp["F"] = (rotmat("fq")[0], vec("fp"))
        kw["T_flange"] = g.Transform(*[x.copy() for x in sp["F"]])
    if n & 2:
        sp["tool"] = (rotmat("tq")[0], vec("tp"))
        kw["R_tool"] = sp["tool"][0].copy()
        kw["p_tool"] = sp["tool"][1].reshape((3, 1)).copy() if e.choose(2) else sp["tool"][1].copy()
    if n & 4:
        sp["B"] = (rotmat("bq")[0], vec("bp"))
        kw["T_base"] = g.Transform(*[x.copy() for x in sp["B"]])
    e.for_rule = None
    r = g.Robot(H, P, jt, **kw)
    return r, sp


def compose(A, B):
    return mm(A[0], B[0]), A[1] + mm(A[0], B[1])


def with_aux(sp, Rp):
    """T_base * T * T_flange * tool"""
    for k in ("F", "tool"):
        if k in sp:
            Rp = compose(Rp, sp[k])
    if "B" in sp:
        Rp = compose(sp["B"], Rp)
    return Rp
