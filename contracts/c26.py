"""C26: robots from URDF

The root-to-tip chain has any number m of URDF joints, in any order of kinds.  Ghost functions of the chain position k:
    C(k)     number of movable joints among the first k
    R(k)     orientation of the frame reached after k joint origins:      R(0) = I,  R(k+1) = R(k) Q_k
    A(k)     offset since the last movable joint:  A(0) = 0,  A(k) + R(k) xyz_k, back to 0 behind a movable joint
The loop of the loader keeps R(k), C(k), P[:, C(k)] = A(k), zero columns behind C(k), and writes H, types, limits and names
of movable joint k at index C(k) only.  The lemma contracts "chain step" and "end of the chain" turn this into equality of the
product of exponentials of H, P (which fwdkin computes, C12) with the composition of origins and joint motions."""
import inspect, types
from .common import *
from pyvc.engine import PathEnd
from pyvc.load import b_len, seq_at

FUNCTIONS = ["robot_from_xml_string", "_robot_from_urdf_robot", "_rpy_to_rot"]
ASSUMPTIONS = ["Robot.__init__ by its contract (C11), fwdkin by its contract (C12)",
               "urdf_parser_py: from_xml_string, get_root, get_chain, link_map, joint_map, child_map describe the tree (contract class Urdf)",
               "joint axes are unit vectors (Robot rejects others)", "choice of the tip when none is given: for loops, comprehensions and filters over the links are verified for any number of links; written in another way it is executed for up to four leaf links only",
               "inertial properties are not constrained (_convert_inertial, _append_inertia return anything)"]
KINDS = ("fixed", "revolute", "prismatic")


class Kind:
    """joint type of a joint of the chain"""
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return T.bo(self.t == KINDS.index(o)) if o in KINDS else False

    def __ne__(self, o):
        return bnot(T.bo(self.t == KINDS.index(o))) if o in KINDS else True


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class Name:
    """name of a joint or link of the chain"""

    def __init__(self, what, k):
        self.what, self.k = what, k

    def __eq__(self, o):
        return isinstance(o, Name) and o.what == self.what and S.same(self.k, o.k)
    __hash__ = None

    def __repr__(self):
        return "<%s %r>" % (self.what, self.k)


class Urdf:
    def __init__(self, e, w, mixed):
        self.e, self.w, self.mixed, self.varies = e, w, mixed, "none"
        self.m, self.n = size("m"), size("n")
        e.assume(self.m >= 1)
        e.assume(self.n >= (1 if w is not None else 0))
        self.kind = memo("kind", self._kind)
        self.joint = memo("joint", self._joint)
        # R(k), Q(k) are rotations ("product" below); their rows are unit vectors is all that the loader needs to know
        self.R = memo("R", self._rotation)
        self.Q = memo("Q", self._rotation)
        self.A = memo("A", vec)
        self.cm = var("cm", isint=True)
        self.names = S.VList(self.m, lambda k: Name("joint", k), "chain")
        self.names.frozen = True

    def _rotation(self, nm):
        R = mat(nm, 3, 3)
        self.e.assume(T.lit(dot(R[0], R[0]) - 1, "="))
        return R

    def _kind(self, nm):
        t = var(nm, isint=True)
        self.e.assume(t >= 0)
        self.e.assume(t <= 2)
        if self.w is None:
            self.e.assume(t == 0)
        return t

    def vary(self, nm):
        """which joints come with every combination of optional entries; the others have all entries"""
        return self.varies in nm

    def fixed(self, k):
        return T.bo(self.kind(k) == 0)

    def _joint(self, nm):
        e = self.e
        j = Obj(name="name of " + nm, joint_type=None, parent=None, child=None, dynamics=None, safety=None, calibration=None, mimic=None)
        full = not self.vary(nm)
        o = 3 if full else e.choose(4)
        j.xyz, j.rpy = vec("xyz" + nm), vec("rpy" + nm)
        j.origin = None if o == 0 else Obj(xyz=None if o == 1 else j.xyz.tolist(), rpy=None if o == 2 else j.rpy.tolist())
        if o in (0, 1):
            j.xyz = arr([0, 0, 0])
        j.has_rpy = o in (1, 3)
        a = 0 if full else e.choose(2)
        j.axis = None if a else unit("axis" + nm).tolist()
        j.ax = arr([1, 0, 0] if a else j.axis)
        # mixed: joint w has no limits, the others all have them or all lack them
        if self.mixed == 1 and "[w]" not in nm:
            self.mixed = 2 + e.choose(2)
        lim = not self.mixed or self.mixed == 2 and "[w]" not in nm
        j.limit = Obj(lower=var("lo" + nm), upper=var("up" + nm), velocity=var("vel" + nm), effort=var("eff" + nm)) if lim else None
        return j

    def get(self, k):
        j = self.joint(k)
        j.joint_type = Kind(self.kind(k))
        j.parent, j.child = Name("link", k), Name("link", k + 1)
        return j


def build(e, w, mixed=False, leaves=("tip",), inertial=False):
    u = Urdf(e, w, 1 if mixed else 0)

    class JointMap(dict):
        def __getitem__(self, c):
            return Obj(joint_type=c.kind) if isinstance(c, Obj) else u.get(c.k)

    class LinkMap(dict):
        def __getitem__(self, l):
            return Obj(inertial=Obj() if inertial else None, name=l)
    lm = LinkMap()
    for l in ("root",) + tuple(leaves):
        dict.__setitem__(lm, l, None)

    class Robot:
        link_map = lm
        joint_map = JointMap()
        child_map = {"root": []}
        parent_map = {}
        name = "urdf"

        def get_root(self):
            return "root"

        def get_chain(self, root, tip, joints=True, links=True, fixed=True):
            if root != "root" or not joints or links or not fixed:
                raise T.Unsupported("get_chain%r" % ((root, tip, joints, links, fixed),))
            if tip == "tip":
                return u.names
            if tip == "rigid":
                return [Obj(kind="fixed"), Obj(kind="fixed")]
            if tip == "free":
                return [Obj(kind="revolute"), Obj(kind="floating")]
            raise KeyError(tip)

    class URDF:
        @staticmethod
        def from_xml_string(s):
            e.check("the given text is parsed", s == "the text")
            return Robot()

        @staticmethod
        def from_parameter_server(key="robot_description"):
            e.check("the given parameter is read", key == "the key")
            return Robot()
    pkg = types.ModuleType("urdf_parser_py")
    sub = types.ModuleType("urdf_parser_py.urdf")
    sub.URDF = pkg.URDF = URDF
    pkg.urdf = sub
    ld = load(e, {"urdf_parser_py": pkg, "urdf_parser_py.urdf": sub})
    m = ld.module("urdf")
    real = inspect.signature(m.rox.Robot.__init__)

    class Made:
        joint_effort_limit = None

        def __init__(self, *a, **k):
            b = real.bind(self, *a, **k)
            b.apply_defaults()
            for x, v in b.arguments.items():
                if x != "self":
                    setattr(self, x, v)
            e.check("Robot: shape of H", len(self.H.shape) == 2 and self.H.shape[0] == 3 and same_len(self.H.shape[1], u.n))
            e.check("Robot: shape of P", len(self.P.shape) == 2 and self.P.shape[0] == 3 and same_len(self.P.shape[1], u.n + 1))
            for x in ("joint_type", "joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_names"):
                v = getattr(self, x)
                e.check("length of " + x, (v is None and x.endswith("limit")) or same_len(b_len(v), u.n))
    m.rox.Robot = Made

    def rpy(r):
        k = u.now
        e.ensure_all("_rpy_to_rot is given the angles of the joint", eqs(arr(list(r)), u.joint(k).rpy))
        return u.Q(k).copy()
    if hasattr(m, "_rpy_to_rot"):
        m._rpy_to_rot = rpy

    def inertia(*a):
        return [None, mk((6, 6))][u.heavy] if inertial else None
    for f in ("_convert_inertial", "_append_inertia"):
        if hasattr(m, f):
            setattr(m, f, inertia)
    u.heavy = e.choose(2) if inertial else 0
    e.concrete_rule = leaves_rule(e)
    e.for_rule = lambda lid, it, names, loc: looped(e, u, lid, it, names, loc)
    e.sum_rule = lambda it: count(e, u, it)
    e.filter_rule = lambda it, g, c: filtered(e, u, it, g, c)
    return m, u, Made


def same_len(a, b):
    d = Re.of(a) - b
    return (d.isconst and d.cval() == 0) or bool(Re.of(a) == b)


def some_joint(e, u):
    e.skolems += 1
    k = var("#f%d" % e.skolems, isint=True)
    e.assume(k >= 0)
    e.assume(k < u.m)
    return k


def of_chain(u, it):
    return hasattr(it, "length") and Re.of(it.length).key() == u.m.key()


def filtered(e, u, it, g, c):
    if of_chain(u, it):
        k = some_joint(e, u)
        x = seq_at(it, k)
        e.check("the movable joints are counted", bool(T.bo(c(x))) == (not bool(u.fixed(k))))
        r = S.VList(u.n, lambda j: g(x), "movable joints")
        r.some = u.fixed(k), x
        return r
    # filter over a list of the loader itself (inertias): any number of elements
    return [g(None)] if e.choose(2) else []


def count(e, u, it):
    """sum over the joints, or over the movable joints"""
    if of_chain(u, it):
        k = some_joint(e, u)
        e.ensure("the movable joints are counted", T.lit(Re.of(seq_at(it, k)) - (0 if bool(u.fixed(k)) else 1), "="))
        return u.n
    if isinstance(it, S.VList) and hasattr(it, "some"):
        if bool(it.some[0]):
            return u.n              # the element is one that the filter drops
        e.ensure("the movable joints are counted", T.lit(Re.of(it.get(0)) - 1, "="))
        return u.n
    raise T.Unsupported("sum over a sequence")


class Leaves:
    """links of the tree, any number of them: one usable leaf "tip", and others that are given by one representative for each kind"""

    def __init__(self, names):
        self.names = names


def state(v):
    if isinstance(v, (list, tuple)):
        return type(v), tuple(state(x) for x in v)
    if isinstance(v, dict) and type(v) is dict:
        return dict, tuple((state(k), state(x)) for k, x in v.items())
    if isinstance(v, set):
        return set, frozenset(v)
    return v if isinstance(v, (str, int, float, bool, type(None))) else id(v)


class LeafLoop:
    """A loop over the links.  An iteration for a link that is not usable leaves the state as it was (before and after the
    iteration for the usable leaf), so that any number of them, in any order, does; what an iteration sets is unknown to the next one."""
    symbolic = rebind = True

    def __init__(self, e, it, names, loc):
        self.e, self.names, self.entry = e, names, [n for n in loc if n != "self"]
        self.vals = {n: loc[n] for n in names if n in loc}
        others = [x for x in it.names if x != "tip"]
        todo = [(["tip"], False)] + [([x], True) for x in others] + [(["tip", x], True) for x in others]
        self.todo, self.check = todo[e.choose(len(todo), "loop over the links")]
        self.pos = 0

    def enter(self):
        return self.vals

    def step(self, loc):
        now = {n: state(loc[n]) for n in self.entry if n in loc}
        if self.pos == len(self.todo):
            if self.check:
                self.e.check("a link that is not usable as tip is passed over", now == self.before, repr((self.todo, now, self.before))[:200])
            if "tip" not in self.todo:
                raise PathEnd()
            self.vals = {n: loc[n] for n in self.names if n in loc}
            raise StopIteration
        self.before = now
        self.vals = {n: loc[n] for n in self.names if n in self.entry and n in loc}
        self.pos += 1
        return self.todo[self.pos - 1]


def leaves_rule(e):
    def f(it):
        if not isinstance(it, (list, tuple, dict, set, filter, type({}.keys()), type(iter({})), type(iter([])))):
            return it, None
        if isinstance(it, (filter, type(iter({})), type(iter([])))):
            it = list(it)
        x = list(it)
        if "tip" in x and all(isinstance(n, str) for n in x) and set(x) <= {"root", "tip", "rigid", "free", "elsewhere"} and len(set(x)) == len(x):
            return it, Leaves(x)
        return it, None
    return f


def looped(e, u, lid, it, names, loc):
    if isinstance(it, Leaves):
        return LeafLoop(e, it, names, loc)
    if not of_chain(u, it) or not names:
        return None
    carried = [n for n in names if n in loc]
    if len(carried) == 1 and loc[carried[0]].__class__ is int and loc[carried[0]] == 0:
        return Count(e, lid, it, names, loc, carried[0], u)
    return Loop(e, u, it, names, loc)


class Count:
    """a loop that counts the movable joints"""
    symbolic = rebind = True

    def __init__(self, e, lid, it, names, loc, n, u):
        self.e, self.it, self.n, self.u, self.k = e, it, n, u, None
        self.case = e.choose(2, "counting loop")

    def enter(self):
        e, u = self.e, self.u
        if self.case == 0:
            self.k = some_joint(e, u)
            self.c = var("#c%d" % e.skolems, isint=True)
        self.vals = {self.n: self.c if self.case == 0 else u.n}
        self.done = False
        return self.vals

    def step(self, loc):
        if self.case:
            raise StopIteration
        if not self.done:
            self.done = True
            return seq_at(self.it, self.k)
        self.e.ensure("the movable joints are counted", T.lit(Re.of(loc[self.n]) - self.c - (0 if bool(self.u.fixed(self.k)) else 1), "="))
        raise PathEnd()


class Entry:
    def _no(self, *a):
        raise T.Unsupported("entry of another joint")
    __eq__ = __ne__ = __add__ = __mul__ = __sub__ = __lt__ = __gt__ = __le__ = __ge__ = __float__ = __bool__ = _no
    __hash__ = None


class Loop:
    symbolic = True
    rebind = True

    def __init__(self, e, u, it, names, loc):
        self.e, self.u, self.it, self.names, self.loc = e, u, it, names, loc
        self.pos = 0
        self.obj = {}

    def role(self, v):
        n = self.u.n
        if isinstance(v, rnp.ndarray) and v.shape == (3, 3) and all(x.op == "const" and x.a for x in eqs(v, eye())):
            return "R"
        if isinstance(v, int) and not isinstance(v, bool) and v == 0:
            return "i"
        if isinstance(v, S.SymVec) and v.rows == 3:
            d = v.length - n
            if d.isconst and d.cval() in (0, 1):
                e = self.e
                e.skolems += 1
                z = v.get(var("#z%d" % e.skolems, isint=True))
                if all(x.op == "const" and x.a for x in eqs(z, arr([0, 0, 0]))):
                    return "P" if d.cval() == 1 else "H"
        if isinstance(v, (S.SymVec, S.VList)):
            d = v.length - n
            if d.isconst and d.cval() == 0:
                return "item"
            if d.isconst and d.cval() == 1 and isinstance(v, S.VList):
                return "free"
        return None

    def enter(self):
        e, u = self.e, self.u
        self.case = e.choose(2, "loop over the chain")
        self.roles = {n: self.role(self.loc[n]) for n in self.names if n in self.loc}
        e.check("loop entry: orientation I, count 0, no offset", {"R", "i", "P", "H"} <= set(self.roles.values()), repr(self.roles))
        w = u.w
        if self.case == 0:
            e.skolems += 1
            k = var("#k%d" % e.skolems, isint=True)
            e.assume(k >= 0)
            e.assume(k < u.m)
            self.todo = [(k, var("#c%d" % e.skolems, isint=True))]
        else:
            last = u.m - 1
            if w is not None and bool(w == last):
                last = w
            mv = 0 if bool(u.fixed(last)) else 1
            u.lastfixed = not mv
            self.todo = [(last, u.n - mv)]
            if w is not None and last is not w:
                u.cw = var("cw", isint=True)
                e.assume(u.cw + 1 <= u.n - mv)
                self.todo.insert(0, (w, u.cw))
            elif w is not None:
                u.cw = u.n - mv
        for k, c in self.todo:
            e.assume(c >= 0)
            e.assume(c + (0 if bool(u.fixed(k)) else 1) <= u.n)
        for n, r in self.roles.items():
            if r in ("P", "H", "item", "free"):
                v = self.loc[n]
                o = v.copy()
                v2 = v.copy()
                v2.log = []
                v2.base = self.base(r, o, n)
                v2.none_rule = self.none
                if r == "item" and isinstance(v2, S.VList):
                    v2.reps = lambda v2=v2: self.reps(v2)
                self.obj[n] = v2
        self.set(0)
        return self.vals

    def none(self, v):
        """None in v, after the loop: every element belongs to a movable joint, w is an arbitrary one"""
        u = self.u
        if u.w is None:
            return False
        if v.get(u.cw) is None:
            return True
        return bool(u.mixed)

    over = False

    def reps(self, v):
        """after the loop: the entry of w, and those of other joints, which are not looked at but for being there"""
        if not self.over:
            raise T.Unsupported("list inside the loop")
        if self.u.w is None:
            return [Entry()]
        x = v.get(self.u.cw)
        return [x, None if self.u.mixed == 3 and not isinstance(x, str) else Entry()]

    def base(self, r, old, n):
        u = self.u

        def get(j):
            if r == "free":
                return None
            for k, c in self.todo:
                if S.same(j, c):
                    return u.A(k).copy() if r == "P" else old.get(j)
            if T.CTX.eng.quick_known(T.bo(self.todo[self.at][1] < j)):
                return old.get(j)
            raise T.Unsupported("element %r, of which nothing is known" % (j,))
        return get

    def set(self, pos):
        self.at = pos
        k, c = self.todo[pos]
        self.vals = dict(self.obj)
        for n, r in self.roles.items():
            if r == "R":
                self.vals[n] = self.u.R(k).copy()
            elif r == "i":
                self.vals[n] = c
        self.logs = {n: len(v.log) for n, v in self.obj.items()}

    def preserved(self, pos, loc):
        e, u = self.e, self.u
        k, c = self.todo[pos]
        j = u.joint(k)
        fx = bool(u.fixed(k))
        Q = u.Q(k) if j.has_rpy else eye()
        R1 = mm(u.R(k), Q)
        A1 = u.A(k) + mm(u.R(k), j.xyz)
        if u.w is not None and self.case == 1 and pos == 0:
            u.endw = (R1, A1)
        u.end = (R1, A1)
        for n, r in sorted(self.roles.items()):
            v = loc.get(n)
            if r == "R":
                e.ensure_all("the orientation is R(k) times the origin", eqs(v, R1))
            elif r == "i":
                e.ensure("movable joints are counted", T.lit(Re.of(v) - c - (0 if fx else 1), "="))
            elif r in ("P", "H", "item", "free"):
                e.check("the arrays are filled in place", v is self.obj[n])
                new = v.log[self.logs[n]:]
                for x, _ in new:
                    if not S.same(x, c) and r != "free":
                        e.ensure("only element C(k) is written", T.lit(Re.of(x) - c, "="))
                if r in ("H", "item"):
                    e.check("a fixed joint leaves no entry", not (fx and new))
                if r == "P":
                    e.ensure_all("the offset in front of the next movable joint", eqs(v.get(c), A1))

    def step(self, loc):
        if self.pos:
            self.preserved(self.pos - 1, loc)
        if self.pos < len(self.todo):
            self.set(self.pos)
            k = self.todo[self.pos][0]
            self.u.now = k
            self.pos += 1
            return seq_at(self.it, k)
        if self.case == 0:
            raise PathEnd()
        u = self.u
        self.over = True
        # behind the loop: k = m, count n; other variables are those of the last iteration
        self.vals = {n: loc[n] for n in self.names if n in loc}
        for n, r in self.roles.items():
            if r == "R":
                self.vals[n] = u.R(u.m).copy()
            elif r == "i":
                self.vals[n] = u.n
        raise StopIteration


def witness(e):
    w = intvar("w")
    e.assume(w >= 0)
    return w


def run(e, mixed=False, movable=True, how=None, leaves=("tip",), tip=True, root=None, inertial=False, vary="none"):
    w = witness(e) if movable else None
    m, u, Made = build(e, w, mixed, leaves, inertial)
    u.varies = vary
    if w is not None:
        e.assume(w < u.m)
        e.assume(bnot(u.fixed(w)))
        e.witnesses = [w]
    a = [x for x in (root, "tip" if tip else None)]
    how = e.choose(3) if how is None else how
    if how == 0:
        r = m.robot_from_xml_string("the text", *a)
    elif how == 1:
        r = m.robot_from_xml_string("the text", root_link=a[0], tip_link=a[1])
    else:
        r = m.robot_from_parameter_server("the key", *a)
    e.check("a Robot is returned", isinstance(r, Made))
    return r, u, w


def movable(e):
    """H, type, limits and name of an arbitrary movable joint of the chain"""
    r, u, w = run(e, how=0, vary="[w]")
    j = u.joint(w)
    R1, A1 = u.endw
    e.ensure_all("H is the joint axis in the base frame", eqs(r.H[:, u.cw], mm(R1, j.ax)))
    e.ensure("joint type", T.lit(Re.of(r.joint_type[u.cw]) - (u.kind(w) - 1), "="))
    e.check("joint name", r.joint_names[u.cw] == j.name, repr(r.joint_names[u.cw]))
    for a, b in (("joint_lower_limit", "lower"), ("joint_upper_limit", "upper"), ("joint_vel_limit", "velocity")):
        v = getattr(r, a)
        e.check(a + " is set", v is not None)
        e.ensure(a, T.lit(Re.of(v[u.cw]) - getattr(j.limit, b), "="))


def ends(e):
    """orientation and offset at the end of the chain, and the column of P before an arbitrary movable joint"""
    r, u, w = run(e, movable=bool(e.choose(2)), how=0, vary="m")
    R1, A1 = u.R(u.m), u.end[1]
    if u.lastfixed:
        want = A1
    else:
        want = arr([0, 0, 0])
    e.ensure_all("the last column of P is the offset behind the last movable joint", eqs(r.P[:, u.n], want))
    if w is not None:
        e.ensure_all("the column of P before a movable joint", eqs(r.P[:, u.cw], u.endw[1]))
    e.check("the orientation of the tip is the tool", r.R_tool is not None and r.p_tool is not None)
    e.ensure_all("R_tool is the orientation at the end of the chain", eqs(r.R_tool, R1))
    e.check("p_tool: shape", shape_is(r.p_tool, (3,)) or shape_is(r.p_tool, (3, 1)))
    e.ensure_all("p_tool is zero", eqs(r.p_tool.reshape(3), arr([0, 0, 0])))
    e.check("no flange, no base", r.T_flange is None and r.T_base is None)


def limits_missing(e):
    """when a movable joint has no limits, the limits are left unset"""
    r, u, w = run(e, mixed=True, how=0)
    if u.joint(w).limit is None:
        e.check("limits are unset", r.joint_lower_limit is None and r.joint_upper_limit is None and r.joint_vel_limit is None)


def names(e):
    how, root, inertial = [(0, None, True), (0, "root", False), (1, None, False), (1, "root", False), (2, "root", False)][e.choose(5)]
    r, u, w = run(e, root=root, inertial=inertial, how=how)
    e.check("root link name", r.root_link_name == "root", repr(r.root_link_name))
    e.check("tip link name", r.tip_link_name == "tip", repr(r.tip_link_name))


LEAVES = [("free", "rigid", "elsewhere", "tip")]


def tip(e):
    """without a tip link, the only usable leaf of the tree is the tip"""
    r, u, w = run(e, tip=False, leaves=LEAVES[e.choose(len(LEAVES))], root=[None, "root"][e.choose(2)], how=0)
    e.check("tip link name", r.tip_link_name == "tip", repr(r.tip_link_name))
    e.check("root link name", r.root_link_name == "root", repr(r.root_link_name))
    j = u.joint(w)
    e.check("joint name", r.joint_names[u.cw] == j.name, repr(r.joint_names[u.cw]))


def rpy(e):
    m, u, Made = build(e, None)
    m2 = load(e, {"urdf_parser_py": types.ModuleType("x"), "urdf_parser_py.urdf": Obj(URDF=None)}).module("urdf")
    a = vec("a")
    x, y, z = arr([1, 0, 0]), arr([0, 1, 0]), arr([0, 0, 1])
    v = a.tolist() if e.choose(2) else a
    e.ensure_all("_rpy_to_rot: roll about x, then pitch about y, then yaw about z (fixed axes)", eqs(m2._rpy_to_rot(v), mm(rot(z, a[2]), rot(y, a[1]), rot(x, a[0]))))


# ---------------------------------------------------------------- lemmas
def conjugation(e):
    """R rot(a, t) = rot(R a, t) R for rotations R: moving the joint in its own frame is moving it about H = R a"""
    R, _ = rotmat("r")
    a = unit("a")
    t = var("t")
    e.ensure_all("R rot(a, t) = rot(R a, t) R", eqs(mm(R, rot(a, t)), mm(rot(mm(R, a), t), R)))
    h = mm(R, a)
    e.ensure("R a is a unit vector", T.lit(dot(h, h) - 1, "="))


def product(e):
    """I and products of rotations are rotations; rot(a, t) is one"""
    A, p = rotmat("a")
    B, q = rotmat("b")
    e.ensure_all("the product of the rotations of two unit quaternions is that of their product", eqs(mm(A, B), qrot(qmul(p, q))))
    r = qmul(p, q)
    e.ensure("which is a unit quaternion", T.lit(dot(r, r) - 1, "="))
    e.ensure_all("rotations are orthonormal with determinant 1", is_rotation(A))
    u = unit("u")
    e.ensure_all("rot(u, t) is orthonormal with determinant 1", is_rotation(rot(u, var("t"))))


def chain_step(e):
    """X(k) = (E R, q + E A) and E' = E rot(H, t), q' = q + E P (+ E H t) imply the same for k + 1.
    J stands for rot(a, t), J' for rot(R1 a, t); R1 J = J' R1 is the lemma above"""
    E, R, Q = mat("E", 3, 3), mat("R", 3, 3), mat("Q", 3, 3)
    q, A, xyz, a = vec("q"), vec("A"), vec("xyz"), vec("a")
    t = var("t")
    R1, A1 = mm(R, Q), A + mm(R, xyz)
    X = (mm(E, R), q + mm(E, A))
    k = e.choose(3)
    O = (mm(X[0], Q), X[1] + mm(X[0], xyz))
    if k == 0:                  # fixed: X(k+1) = X(k) origin
        Y, N = O, (mm(E, R1), q + mm(E, A1))
    elif k == 1:                # revolute: X(k+1) = X(k) origin (J, 0);  E' R1 = E J' R1 = E R1 J by the lemma
        J = mat("J", 3, 3)
        Y = (mm(O[0], J), O[1])
        N = (mm(E, mm(R1, J)), q + mm(E, A1))
    else:                       # prismatic: X(k+1) = X(k) origin (I, t a)
        Y = (O[0], O[1] + mm(O[0], t * a))
        N = (mm(E, R1), q + mm(E, A1) + t * mm(E, mm(R1, a)))
    e.ensure_all("orientation", eqs(Y[0], N[0]))
    e.ensure_all("position", eqs(Y[1], N[1]))


CONTRACTS = [("movable joints", movable), ("ends of the chain", ends), ("missing limits", limits_missing), ("link names", names), ("tip without a name", tip), ("_rpy_to_rot", rpy),
             ("lemma: conjugation", conjugation), ("lemma: products of rotations", product), ("lemma: chain step", chain_step)]
