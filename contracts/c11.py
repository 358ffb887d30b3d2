"""C11: the Robot constructor"""
from .common import *

FUNCTIONS = ["Robot.__init__"]


def columns(name, tol=F(1, 10**6), bad=None):
    """3 x n columns of length within tol of one; the column at index `bad` is off by more than 1e-4"""
    def mkv(nm):
        u = unit("u" + nm)
        n = var("n" + nm, nonneg=True)
        T.CTX.eng.assume(n >= 0)
        if bad is None or repr(bad) not in nm:
            T.CTX.eng.assume(n >= 1 - tol)
            T.CTX.eng.assume(n <= 1 + tol)
        return u * n
    return memo(name, mkv)


def types(name, bad=None):
    def mkv(nm):
        if bad is None or repr(bad) not in nm:
            t = var("t" + nm, isint=True)
            T.CTX.eng.assume(t >= 0)
            T.CTX.eng.assume(t <= 3)
        else:
            t = var("t" + nm)       # any number
        return t
    return memo(name, mkv)


def args(e, N, **kw):
    H = S.SymVec(kw.get("nH", N), kw.get("H") or columns("H"), 3, "H")
    P = S.SymVec(kw.get("nP", N + 1), memo("P", vec), 3, "P")
    jt = S.VList(kw.get("nT", N), kw.get("jt") or types("jt"), "joint_type")
    return H, P, jt


def numbers(name, n, kind=0):
    f = memo(name, lambda nm: var(nm))
    return S.VList(n, f, name) if kind == 0 else S.SymVec(n, f, None, name)


class Name(str):
    pass


def accept(e, arrs, c0):
    g = G(e)
    N = size()
    e.assume(N >= 0)
    H, P, jt = args(e, N)
    opt = {}
    c = c0
    if c & 1:
        opt["joint_lower_limit"] = numbers("lo", N, arrs)
    if c & 2:
        opt["joint_upper_limit"] = numbers("up", N, arrs)
    if e.choose(2):
        opt["joint_vel_limit"] = numbers("vel", N, arrs)
    if e.choose(2):
        opt["joint_acc_limit"] = numbers("acc", N, arrs)
    if e.choose(2):
        opt["M"] = S.VList(N + 1, lambda j: mk((6, 6)), "M")
    c = e.choose(4)
    if c & 1:
        opt["R_tool"] = rotmat("tq")[0]
    if c & 2:
        opt["p_tool"] = vec("tp")
    if e.choose(2):
        opt.update(joint_names=S.VList(N, memo("names", lambda nm: Name(nm)), "names"), root_link_name="root", tip_link_name="tip", T_flange="F", T_base="B")
    r = g.Robot(H, P, jt, **opt)
    same_seq(e, "H is stored", r.H, H, N)
    same_seq(e, "P is stored", r.P, P, N + 1)
    same_seq(e, "joint types are stored", r.joint_type, jt, N)
    both = "joint_lower_limit" in opt and "joint_upper_limit" in opt
    for k in ("joint_lower_limit", "joint_upper_limit"):
        if both:
            same_seq(e, k + " is stored", getattr(r, k), opt[k], N)
        else:
            e.check("position limits are exposed only when both are given", getattr(r, k) is None)
    for k in ("joint_vel_limit", "joint_acc_limit", "M", "joint_names"):
        if k in opt:
            e.check(k + " is stored", getattr(r, k) is opt[k])
        else:
            e.check(k + " defaults to none", getattr(r, k) is None)
    for k in ("R_tool", "p_tool"):
        if "R_tool" in opt and "p_tool" in opt:
            e.ensure_all(k + " is stored", eqs(getattr(r, k), opt[k]))
        else:
            e.check("a tool is exposed only when both parts are given", getattr(r, k) is None)
    for k in ("root_link_name", "tip_link_name", "T_flange", "T_base"):
        e.check(k + " is stored", getattr(r, k) == opt.get(k))


class OpaqueMat:
    """matrix with r rows (r symbolic) and n columns"""

    def __init__(self, r, n, f):
        self.shape = (r, n)
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return OpaqueCol(self.f(Re.of(k[1])))
        raise T.Unsupported("opaque matrix")


class OpaqueCol:
    def __init__(self, n):
        self.norm_sym = n


def reject(e):
    g = G(e)
    N = size()
    gi = intvar("g")
    case = CASES[e.choose(len(CASES))]
    opt = {}
    kw = {}
    L = size("L")
    if case in ("norm", "type", "M shape"):
        e.assume(gi >= 0)
        e.assume(gi < (N + 1 if case == "M shape" else N))
        e.witnesses.append(gi)
    if case == "norm":
        n = var("nH[g]")
        kw["H"] = columns("H", bad=gi)
        col = kw["H"](gi)
        n = var("nH[g]")
        e.assume(T.absv(n - 1) > F(1, 10**4))
    if case == "type":
        kw["jt"] = types("jt", bad=gi)
        t = kw["jt"](gi)
        for v in range(4):
            e.assume(t != v)
    if case == "P columns":
        kw["nP"] = L
        e.assume(L != N + 1)
    if case == "type length":
        kw["nT"] = L
        e.assume(L != N)
    H, P, jt = args(e, N, **kw)
    if case in ("H rows", "P rows"):
        r = size("r")
        e.assume(r != 3)
        one = memo("norm", lambda nm: Re.const(1))
        if case == "H rows":
            H = OpaqueMat(r, N, one)
        else:
            P = OpaqueMat(r, N + 1, one)
    if case in ("lower", "upper"):
        e.assume(L != N)
        opt = dict(joint_lower_limit=numbers("lo", L if case == "lower" else N), joint_upper_limit=numbers("up", L if case == "upper" else N))
    if case in ("vel", "acc"):
        e.assume(L != N)
        opt["joint_%s_limit" % case] = numbers(case, L)
    if case == "M length":
        e.assume(L != N + 1)
        opt["M"] = S.VList(L, lambda j: mk((6, 6)), "M")
    if case == "M shape":
        bad = [(6,), (5, 6), (6, 5), (6, 7), (36,), (6, 6, 1), (3, 3)][e.choose(7)]
        opt["M"] = S.VList(N + 1, lambda j: mk(bad if S.same(j, gi) else (6, 6)), "M")
    if case == "names":
        e.assume(L != N)
        opt["joint_names"] = S.VList(L, memo("names", lambda nm: Name(nm)), "names")
    raises(e, "ill-formed robot is rejected: " + case, lambda: g.Robot(H, P, jt, **opt))


CASES = ["norm", "type", "H rows", "P rows", "P columns", "type length", "lower", "upper", "vel", "acc", "M length", "M shape", "names"]

CONTRACTS = [("Robot.__init__ accepts (%s, position limits given: %s)" % (["lists", "arrays"][a], ["none", "lower", "upper", "both"][c]), (lambda e, a=a, c=c: accept(e, a, c)))
             for a in range(2) for c in (3, 2, 1, 0)] + [("Robot.__init__ rejects", reject)]
