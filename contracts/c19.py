"""C19: joint limits and ordering of the closed-form inverse kinematics"""
from .ik import *
from . import c20, c21

FUNCTIONS = ["normalize_joints.__init__", "normalize_joints.normalize", "normalize_joints.__call__", "robot6_sphericalwrist_invkin", "ur_invkin"]
ASSUMPTIONS = ["callee contracts: subproblem1-4 (C15-C18), unapply_robot_aux_transforms (C14)",
               "numpy.argsort returns a permutation that orders its argument; numpy.argwhere and nonzero give ascending indices"]


# ---------------------------------------------------------------- the solvers
def within(f, x):
    e = f.e
    q = angles6(x)
    e.check("a solution is a vector of six angles", q is not None)
    for j in range(6):
        e.check("every angle of a solution was normalised for its joint, so it is within the limits", j in f.norm.get(q[j].key(), ()), "joint %d" % j)


def distance(x, last):
    return NP.linalg.norm(x - last)


def solver(name, geometry):
    def contract(e):
        H, P = geometry(e)
        k = e.choose(4)
        last = None if k == 0 else vec("last", 6)
        arg = last if k < 2 else last.tolist() if k == 2 else tuple(last.tolist())
        res, _ = run(e, name, H, P, within, arg)
        x = members(e, res, "every returned configuration is one of the solutions")
        if x is None or last is None:
            return
        i, j = intvar("ri"), intvar("rj")
        e.assume(j > i)
        e.assume(j < res.length)
        y = res.get(j)
        e.ensure("the solutions are ordered by their distance to last_joints", distance(x, last) <= distance(y, last))
    return contract


# ---------------------------------------------------------------- normalize_joints
class Limits:
    """robot with N joints, as far as normalize_joints looks at it; angles are given in turns"""

    def __init__(self, e, types, limits):
        self.N = size()
        e.assume(self.N >= 1)
        turn = 2 * T.PI()
        mkv = lambda n: memo(n, lambda nm: var(nm) * turn)
        self.lo, self.up, self.last = mkv("lo"), mkv("up"), mkv("last")

        def mkt(nm):
            t = var("t" + nm, isint=True)
            e.assume(bor([t == x for x in types]))
            return t
        self.jt = memo("jt", mkt)
        self.joint_type = S.VList(self.N, self.jt, "joint_type") if e.choose(2) else S.SymVec(self.N, self.jt, None, "joint_type")
        self.joint_lower_limit = self.joint_upper_limit = None
        if limits & 1:
            self.joint_lower_limit = S.SymVec(self.N, self.lo)
        if limits & 2:
            self.joint_upper_limit = S.SymVec(self.N, self.up)
        self.last_joints = S.VList(self.N, self.last) if e.choose(2) else S.SymVec(self.N, self.last)
        self.j = intvar("joint")
        e.assume(self.j >= 0)
        e.assume(self.j < self.N)
        for a in (self.joint_type, self.joint_lower_limit, self.joint_upper_limit, self.last_joints):
            if a is not None:
                a.frozen = True


def turns(d):
    """d is an integer number of turns: that number"""
    t = Re.of(d) / (2 * T.PI())
    return t if t.isint else None


def normalize(types, limits, ignore):
    def contract(e):
        i = I(e)
        r = Limits(e, types, limits)
        use = e.choose(2)
        n = i.normalize_joints(r, r.last_joints if use else None, ignore) if ignore or e.choose(2) else i.normalize_joints(r, r.last_joints if use else None)
        theta = var("theta") * 2 * T.PI()
        checked = limits == 3 and not ignore
        lo, up, last = r.lo(r.j), r.up(r.j), r.last(r.j)
        if checked:
            e.assume(lo <= up)
        x = n.normalize(r.j, theta)
        if x is None:
            e.ensure("an angle is dropped only when it and its neighbouring turns are outside the limits",
                     bnot(band([lo < theta, theta < up])) if checked else T.FALSE)
            if checked:
                for s in (-1, 1):
                    e.ensure("an angle is dropped only when it and its neighbouring turns are outside the limits",
                             bnot(band([lo < theta + s * 2 * T.PI(), theta + s * 2 * T.PI() < up])))
            return
        x = Re.of(x)
        m = turns(x - theta)
        e.check("the angle is shifted by full turns", m is not None, repr(x - theta))
        if m is None:
            return
        if checked:
            e.ensure("the angle is within the limits", band([lo <= x, x <= up]))
        rotary = types == (0, 2)
        if not rotary:
            e.ensure("a prismatic joint is not shifted", T.lit(x - theta, "="))
            return
        if not use:
            if checked:
                e.ensure("an angle within the limits is kept", implies(band([lo < theta, theta < up]), T.lit(x - theta, "=")))
            else:
                e.ensure("the angle is kept", T.lit(x - theta, "="))
            return
        # no other turn within the limits is closer to last_joints
        k = intvar("other")
        y = theta + 2 * T.PI() * k
        hyp = [lo < y, y < up] if checked else []
        for c in hyp:
            e.assume(c)
        for f in T.CTX.tables.get("firsts", []):
            # the positions looked through are turns in ascending or descending order, position k0 is the one chosen
            for s in (1, -1):
                e.assume(f.before(f.k0 + s * (k - m)))
            e.assume(f.before(Re.const(0)))
        e.ensure("no turn within the limits is closer to last_joints", band([bor([x - last <= y - last, x - last <= last - y]), bor([last - x <= y - last, last - x <= last - y])]))
    return contract


class Norm1:
    """contract of normalize (above): None or a normalised angle"""

    def __init__(self, e):
        self.e, self.tags, self.n, self.none = e, {}, 0, {}

    def __call__(self, me, joint, theta):
        self.n += 1
        if self.e.choose(2):
            return None
        v = var("normalised#%d" % self.n)
        self.tags[v.key()] = (Re.of(joint).key(), Re.of(theta).key())
        return v


def call(e):
    e.externals = {}
    i = I(e)
    asort = argsort(e)
    stub = Norm1(e)
    i.normalize_joints.normalize = lambda me, joint, theta: stub(me, joint, theta)
    last = vec("last", 6)
    use = e.choose(2)
    kind = e.choose(3)
    joint = [intvar("joint"), (3, 4), e.choose(6) if kind == 2 else 0][kind] if kind != 0 else e.choose(6)
    rowed = isinstance(joint, tuple)
    lst = last if e.choose(2) else last.tolist()
    n = i.normalize_joints(RobotG(None, None), lst if use else None)
    one = None
    given = []                                  # the elements of theta that were read

    def element(nm):
        v = (var("a" + nm), var("b" + nm)) if rowed else var(nm)
        given.append(v if rowed else (v,))
        return v
    if kind == 2:
        one = var("theta0")
        theta = [one]
    else:
        theta = listof("theta", element)

    def ok(x):
        if any(x is v for v in members_):       # an element of a list that has the invariant
            e.check("every returned angle is normalised", True)
            return
        js = joint if rowed else (joint,)
        xs = x if rowed else (x,)
        good = isinstance(xs, tuple) and len(xs) == len(js) and all(isinstance(v, Re) and v.key() in stub.tags for v in xs)
        e.check("every returned angle is normalised", good)
        if good:
            src = tuple(stub.tags[v.key()] for v in xs)
            e.check("every returned angle is a given one, normalised for its joint",
                    any(src == tuple((Re.const(jj).key(), Re.of(t).key()) for jj, t in zip(js, g)) for g in given))

    def make(nm):
        if rowed:
            v = (var("n0" + nm), var("n1" + nm))
        else:
            v = var("n" + nm)
        members_.append(v)
        return v
    members_ = []
    cnt = [0]

    def mkbag():
        cnt[0] += 1
        return S.Bag("normed#%d" % cnt[0], ok, make, 2 if rowed else None)

    e.for_rule = lambda lid, it, names, loc: SolutionLoop(e, lid, it, names, loc, mkbag)

    def keep(s, g, c):
        m = var("kept#%d" % e.skolems, isint=True, nonneg=True)
        e.skolems += 1
        e.assume(m >= 0)
        e.assume(m <= s.length)
        idx = memo("kept index#%d" % e.skolems, intvar)

        def at(j):
            k = idx(j)
            e.assume(k >= 0)
            e.assume(k < s.length)
            x = s.get(k)
            e.assume(T.bo(c(x)))
            return g(x)
        r = S.VList(m, at)
        r.row = s.row
        return r
    e.filter_rule = keep
    res = n(joint, theta)
    if one is not None:
        good = isinstance(res, list) and len(res) <= 1 and all(isinstance(v, Re) and stub.tags.get(v.key()) == (Re.const(joint).key(), one.key()) for v in res)
        e.check("a single angle gives its normalised angle or nothing", good and len(res) == len(stub.tags))
        return
    if isinstance(res, list) and not res:
        e.check("every returned angle is normalised", True)
        return
    e.check("a list is returned", isinstance(res, S.VList))
    j = intvar("ri")
    e.assume(j >= 0)
    e.assume(j < res.length)
    ok(res.get(j))


CONTRACTS = [("normalize, limits", normalize((0, 2), 3, False)), ("normalize, no limits", normalize((0, 2), 0, False)), ("normalize, one limit", normalize((0, 2), 1, False)),
             ("normalize, limits ignored", normalize((0, 2), 3, True)), ("normalize, prismatic", normalize((1, 3), 0, False)), ("normalize, prismatic, limits ignored", normalize((1, 3), 3, True)),
             ("normalize_joints", call),
             ("robot6_sphericalwrist_invkin", solver("robot6_sphericalwrist_invkin", c20.geometry)), ("ur_invkin", solver("ur_invkin", c21.geometry))]
