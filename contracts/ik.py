"""Closed-form inverse kinematics in the rotation algebra (pyvc/geo.py): callee contracts and loop rule.

Every solution list of a subproblem is a list of unknown length whose elements satisfy the subproblem's contract (C15-C18);
normalize_joints is represented by its contract (C19: every element is one of the given angles plus full turns, within the limits).
The list of solutions carries the invariant of the property under proof: append is obliged to establish it."""
from .common import *
from pyvc import geo
from pyvc.geo import GV, GM, GCols
from pyvc.engine import PathEnd
from pyvc.rules import seq_at


def listof(name, mk):
    """list of unknown length"""
    n = var("len(%s)" % name, isint=True, nonneg=True)
    T.CTX.eng.assume(n >= 0)
    return S.VList(n, memo(name, mk), name)


def same_key(a, b):
    return not T.pclear((Re.of(a) - Re.of(b)).p)


class Facts:
    """stubs of the callees"""

    def __init__(self, e, i):
        self.e, self.i, self.n = e, i, 0
        rox = i.rox
        rox.rot = geo.rot
        rox.subproblem0 = self.no("subproblem0")
        rox.subproblem1, rox.subproblem2, rox.subproblem3, rox.subproblem4 = self.sp1, self.sp2, self.sp3, self.sp4
        rox.fwdkin = self.no("fwdkin")
        self.norm = {}

    def no(self, name):
        def f(*a, **k):
            raise T.Unsupported("call of " + name)
        return f

    def name(self, s):
        self.n += 1
        return "%s#%d" % (s, self.n)

    def equal(self, label, p, q):
        for n, (a, b) in enumerate(zip(p, q)):
            geo.ensure(self.e, label, geo.prove_scalar(a - b))

    def axis(self, k):
        k = geo.vec_of(k)
        geo.ensure(self.e, "the axis of a subproblem is a unit vector", geo.prove_scalar(k.inner(k) - 1))
        return k

    def sp1(self, p, q, k):
        p, q, k = geo.vec_of(p), geo.vec_of(q), self.axis(k)
        self.equal("subproblem1 is called with vectors of equal length at equal angles to the axis", [p.inner(p), p.inner(k)], [q.inner(q), q.inner(k)])
        t = var(self.name("sp1"))
        geo.fact(geo.rot(k, t).dot(p) - q)
        return t

    def sp2(self, p, q, k1, k2):
        p, q, k1, k2 = geo.vec_of(p), geo.vec_of(q), self.axis(k1), self.axis(k2)
        self.equal("subproblem2 is called with vectors of equal length", [p.inner(p)], [q.inner(q)])

        def mk(nm):
            a, b = var("t1 " + nm), var("t2 " + nm)
            geo.fact(geo.rot(k1, a).dot(geo.rot(k2, b).dot(p)) - q)
            return (a, b)
        return listof(self.name("sp2"), mk)

    def sp3(self, p, q, k, d):
        p, q, k = geo.vec_of(p), geo.vec_of(q), self.axis(k)
        e = self.e
        d = Re.of(d)
        for v, l in ((p, "p"), (q, "q")):
            e.ensure("subproblem3 is called with %s not parallel to the axis" % l, v.inner(v) - v.inner(k) * v.inner(k) > 0)
        e.ensure("subproblem3 is called with a distance", d >= 0)

        def mk(nm):
            t = var("t " + nm)
            v = q + geo.rot(k, t).dot(p)
            e.assume(T.lit(v.inner(v) - d * d, "="))
            return t
        return listof(self.name("sp3"), mk)

    def sp4(self, p, q, k, d):
        p, q, k = geo.vec_of(p), geo.vec_of(q), self.axis(k)

        def mk(nm):
            t = var("t " + nm)
            self.e.assume(T.lit(p.inner(geo.rot(k, t).dot(q)) - Re.of(d), "="))
            return t
        return listof(self.name("sp4"), mk)


class Aux:
    """contract of unapply_robot_aux_transforms (C14)"""

    def __init__(self, e, robot, pose):
        self.e, self.robot, self.pose = e, robot, pose

    def __call__(self, robot, T):
        self.e.check("the aux transforms of the robot are taken off the desired pose", robot is self.robot and T is self.pose)
        return Pose()


class Pose:
    def __init__(self):
        self.R = GM.named("R06")
        self.p = GV.base("p0T")


class Normalize:
    """contract of normalize_joints (C19)"""

    def __init__(self, e, facts, robot, last):
        self.e, self.f, self.robot, self.last = e, facts, robot, last

    def __call__(self, robot, last_joints, _ignore_limits=False):
        ok = robot is self.robot and last_joints is self.last and not _ignore_limits
        self.e.check("normalize_joints is made for the robot and last_joints", ok)
        return self.apply

    def one(self, j, t, nm):
        m = var("turns " + nm, isint=True)
        v = Re.of(t) + 2 * T.PI() * m
        self.f.norm.setdefault(v.key(), set()).add(j)
        return v

    def apply(self, joint, theta):
        nm = self.f.name("norm")
        joint = joint.tolist() if isinstance(joint, rnp.ndarray) else joint
        if isinstance(theta, (list, tuple)):
            src = list(theta)

            def elem(k):
                return src[self.e.choose(len(src))]
            if not src:
                return []
        else:
            def elem(k):
                self.n = getattr(self, "n", 0)
                k = intvar("source " + nm + "%d" % self.f.n)
                self.e.assume(k >= 0)
                self.e.assume(k < theta.length)
                return theta.get(k)

        def mk(n2):
            x = elem(n2)
            if isinstance(joint, (list, tuple)):
                return tuple(self.one(j, t, n2 + str(j)) for j, t in zip(joint, x))
            return self.one(joint, x, n2)
        return listof(nm, mk)


class SolutionLoop:
    """loop that appends to the list of solutions: an arbitrary iteration, or completed"""
    symbolic = True

    def __init__(self, e, lid, it, names, loc, mkbag):
        self.e, self.it, self.names, self.loc, self.mkbag = e, it, names, loc, mkbag
        self.ran = False

    def enter(self):
        e = self.e
        e.assume(self.it.length >= 0)
        self.case = e.choose(2)
        d = {}
        for n in self.names:
            v = self.loc.get(n)
            if isinstance(v, S.Bag) or (isinstance(v, list) and not v):
                d[n] = self.mkbag()
        if self.case == 0:
            e.skolems += 1
            self.k = intvar("#k%d" % e.skolems)
            e.assume(self.k >= 0)
            e.assume(self.k < self.it.length)
        return d

    def step(self, loc):
        if self.case == 1:
            raise StopIteration
        if self.ran:
            raise PathEnd()
        self.ran = True
        return seq_at(self.it, self.k)


def argsort(e):
    """contract of numpy.argsort: a permutation that orders the values"""
    def f(a):
        n = a.length
        snap = a.copy()
        perm0 = memo("perm#%d" % e.skolems, lambda nm: intvar(nm))
        e.skolems += 1
        seen = []

        def perm(j):
            v = perm0(j)
            if not any(same_key(j, i) for i, _ in seen):
                e.assume(v >= 0)
                e.assume(v < n)
                x = snap.get(v)
                for i, y in seen:
                    if bool(Re.of(i) < Re.of(j)):
                        e.assume(y <= x)
                    elif bool(Re.of(j) < Re.of(i)):
                        e.assume(x <= y)
                seen.append((j, x))
            return v
        f.calls.append((a, perm))
        return S.SymVec(n, perm, None, "argsort")
    f.calls = []
    e.externals = dict(getattr(e, "externals", {}) or {}, argsort=f)
    return f


class RobotG:
    """robot of the rotation algebra (only the attributes of a Robot)"""

    def __init__(self, H, P, limits=True):
        self.H, self.P = H, P
        self.joint_type = [0] * 6
        self.joint_lower_limit = self.joint_upper_limit = None
        self.R_tool = self.p_tool = self.T_flange = self.T_base = None


def chain_end(H, P, x):
    """rotation and position of the product of the joint motions"""
    R = GM(())
    p = P[0]
    H = [H[:, j] for j in range(6)] if isinstance(H, rnp.ndarray) else H
    for j in range(6):
        R = R.dot(geo.rot(H[j], x[j]))
        p = p + R.dot(P[j + 1])
    return R, p


def angles6(x):
    if isinstance(x, rnp.ndarray) and x.shape == (6,):
        return [Re.of(v) for v in x.tolist()]
    return None


def run(e, name, H, P, inv, last):
    """calls the solver; inv(x) is obliged for every solution"""
    e.externals = {}
    i = I(e)
    f = Facts(e, i)
    r = RobotG(H if isinstance(H, rnp.ndarray) else GCols(H, frozen=True), GCols(P, frozen=True))
    pose = object()
    i.rox.unapply_robot_aux_transforms = Aux(e, r, pose)
    i.normalize_joints = Normalize(e, f, r, last)
    asort = argsort(e)
    cnt = [0]

    def mkbag():
        cnt[0] += 1
        return S.Bag("solutions#%d" % cnt[0], lambda x: inv(f, x), lambda nm: vec(nm, 6), 6)
    e.for_rule = lambda lid, it, names, loc: SolutionLoop(e, lid, it, names, loc, mkbag)
    res = getattr(i, name)(r, pose) if last is None and e.choose(2) else getattr(i, name)(r, pose, last)
    return res, asort


def reaches(e, H, P, moved):
    """invariant of the list of solutions: the joint motions take the robot to the desired pose"""
    def inv(f, x):
        q = angles6(x)
        e.check("a solution is a vector of six angles", q is not None)
        R, p = chain_end(H, P, q)
        if geo.ensure(e, "the rotation of the solution is the desired rotation", geo.prove_rotation(R, GM.named("R06"))):
            for b in moved:
                geo.fact(R.dot(GV.base(b)) - GM.named("R06").dot(GV.base(b)))
        geo.ensure(e, "the position of the solution is the desired position", geo.prove_vector(p - GV.base("p0T")))
    return inv


def members(e, res, label):
    """every element of the result is an element of the list of solutions"""
    if isinstance(res, list) and not res:
        e.check(label, True)
        return None
    if not isinstance(res, S.VList):
        e.check(label, False, "the result is %r" % (type(res),))
        return None
    j = intvar("ri")
    e.assume(j >= 0)
    e.assume(j < res.length)
    if not e.feasible(j < res.length):
        e.check(label, True)
        return None
    x = res.get(j)
    e.check(label, isinstance(x, rnp.ndarray) and x.shape == (6,))
    return x


LEMMAS = []


def lemma_agree(e):
    """two rotations that agree on two vectors that are not parallel are equal: E = A - B has E u = 0, E v = 0,
    E (u x v) = Au x Av - Bu x Bv = 0, and [u, v, u x v] is invertible"""
    A, qa = rotmat("a")
    u, v = vec("u"), vec("v")
    e.ensure_all("lemma: a rotation preserves the cross product", eqs(mm(A, cross(u, v)), cross(mm(A, u), mm(A, v))))
    E = mat("e", 3, 3)
    w = cross(u, v)
    M = arr([[u[k], v[k], w[k]] for k in range(3)])
    e.ensure("lemma: the determinant of [u, v, u x v] is |u x v|^2", T.lit(NP.linalg.det(M) - dot(w, w), "="))
    # adjugate: M adj(M) = det(M) I
    adj = arr([cross(v, w).tolist(), cross(w, u).tolist(), cross(u, v).tolist()])
    d = dot(w, w)
    e.ensure_all("lemma: E vanishes when it vanishes on u, v and u x v", eqs(mm(mm(E, M), adj), d * E))


def lemma_axis(e):
    """rules of the rotation algebra for rotations about an axis"""
    k = unit("k")
    s, t = var("s"), var("t")
    A, B = rot(k, s), rot(k, t)
    e.ensure_all("rule: rot(k, s) rot(k, t) = rot(k, s + t)", eqs(mm(A, B), rot(k, s + t)))
    e.ensure_all("rule: rot(k, t) k = k", eqs(mm(B, k), k))
    e.ensure_all("rule: rot(k, t)^T = rot(k, -t)", eqs(B.T, rot(k, -t)))
    e.ensure_all("rule: rot(-k, t) = rot(k, -t)", eqs(rot(-k, t), rot(k, -t)))
    e.ensure_all("rule: rot(k, 0) = 1", eqs(rot(k, Re.const(0)), eye()))
    e.ensure_all("rule: rot(k, t)^T rot(k, t) = 1", eqs(mm(B.T, B), eye()))


def lemma_named(e):
    W, q = rotmat("w")
    k = unit("k")
    t = var("t")
    e.ensure_all("rule: R^T R = 1", eqs(mm(W.T, W), eye()))
    e.ensure_all("rule: rot(R k, t) = R rot(k, t) R^T", eqs(rot(mm(W, k), t), mm(W, rot(k, t), W.T)))


def stub_rot(e):
    """the rot that runs is the rotation about the axis (C02), for list, array and column axes"""
    g = G(e)
    k = unit("k")
    t = var("t")
    e.ensure_all("rot(k, theta) is the rotation by theta about k", eqs(g.rot(forms(e, k), t), rot(k, t)))


LEMMAS = [("lemma: agreeing rotations", lemma_agree), ("rules of rotations about an axis", lemma_axis), ("rules of named rotations", lemma_named), ("callee: rot", stub_rot)]
