"""C30: the Tesseract scene graph of a robot

The robot has any number n >= 1 of joints.  The loop of robot_to_scene_graph adds one link and joint per iteration; for two
consecutive arbitrary iterations the contract fixes what is added and that the parent of the second joint is the link of the
first; the lemma contract "chain" turns this into equality with fwdkin (whose recursion is C12)."""
from .common import *
from . import tess, chain as ch
from pyvc.engine import PathEnd
from pyvc.load import b_len

FUNCTIONS = ["robot_to_scene_graph", "get_link_and_joint", "get_fixed_link_and_joint", "get_robot_world_to_base_joint", "world_scene_graph", "robot_to_tesseract_env_commands", "_prefix_names", "transform_to_isometry3d"]
ASSUMPTIONS = ["tesseract_robotics classes have their documented meaning (contracts/tess.py): a joint's frame is its parent's frame times its origin, its child's frame that times the motion about or along its axis; "
               "a graph added under a prefix has every link and joint name prefixed", "AngleAxisd of a rotation matrix represents that rotation", "names given by the caller are opaque strings"]
NAME = "Robot-7 b"


class Rob:
    """a robot as Robot.__init__ leaves it (C11)"""


class Graph(tess.SceneGraph):
    """inside the loop over the joints only what the current iterations add is known"""
    made = []

    def __init__(self, *a):
        tess.SceneGraph.__init__(self, *a)
        Graph.made.append(self)


class Loop:
    symbolic = True
    rebind = True

    def __init__(self, e, r, it, names, loc):
        self.e, self.r, self.it, self.names, self.loc = e, r, it, names, loc
        self.pos = 0
        e.check("the loop over the joints visits every joint", it.length is r.N or e.prove(T.lit(it.length - r.N, "="))[0])

    def enter(self):
        e, r = self.e, self.r
        self.case = e.choose(3, "joints")
        n = r.N
        if self.case == 0:                      # two consecutive joints
            e.skolems += 1
            k = var("#k%d" % e.skolems, isint=True)
            e.assume(k >= 0)
            e.assume(k + 1 < n)
            self.todo = [k, k + 1]
        elif self.case == 1:                    # the first joint
            self.todo = [Re.const(0)]
        else:                                   # the last joint, and what follows
            self.todo = [n - 1]
        self.sg = Graph.made[-1]
        self.head = len(self.sg.added)
        self.vals = {}
        self.lists = {}
        for nm in self.names:
            v = self.loc.get(nm)
            if v.__class__ is list:
                self.lists[nm] = list(v)
        # names carried over: arbitrary before an arbitrary iteration
        self.strs = {nm: self.loc[nm] for nm in self.names if isinstance(self.loc.get(nm), str)}
        if self.strs and not S.same(self.todo[0], 0):
            self.strs = {nm: "any %s %d" % (nm, e.skolems) for nm in self.strs}
        self.set()
        return self.vals

    def set(self):
        k = self.todo[min(self.pos, len(self.todo) - 1)]
        self.vals = dict(self.strs)
        for nm, v in self.lists.items():
            self.vals[nm] = S.VList(k + len(v), lambda j, v=v: self.elem(v, j), nm)

    def elem(self, v, j):
        if j.isconst and 0 <= j.cval() < len(v):
            return v[j.cval()]
        raise T.Unsupported("element of a list filled by other iterations")

    def step(self, loc):
        e = self.e
        if self.pos:
            k = self.todo[self.pos - 1]
            new = self.sg.added[self.head:]
            e.check("one link with a joint is added per iteration", len(new) == self.pos and all(j is not None for l, j in new), len(new))
            check_joint(e, self.r, k, *new[-1])
            l, j = new[-1]
            if S.same(k, 0):
                e.check("the parent of the first joint is the base link", j.parent_link_name == self.sg.added[0][0].name, j.parent_link_name)
            elif self.pos == 2:
                e.check("the parent of a joint is the link of the joint before", j.parent_link_name == new[-2][0].name, (j.parent_link_name, new[-2][0].name))
                e.check("link names differ", l.name != new[-2][0].name)
            self.last = l.name
            self.strs = {nm: loc[nm] for nm in self.strs}
            self.r.names[Re.of(k).key()] = l.name
            for nm, v in self.lists.items():
                x = loc.get(nm)
                e.check("one name is recorded per iteration", isinstance(x, S.VList) and S.same(x.length, k + 1 + len(v)) and x.get(k + len(v)) == l.name)
        if self.pos < len(self.todo):
            self.set()
            self.pos += 1
            return S_at(self.it, self.todo[self.pos - 1])
        if self.case < 2:
            raise PathEnd()
        n = self.r.N
        self.vals = {nm: S.VList(n + len(v), lambda j, v=v: v[j.cval()] if j.isconst and j.cval() < len(v) else ("link", j - len(v)) if not S.same(j - len(v), n - 1) else self.last, nm)
                     for nm, v in self.lists.items()}
        self.vals.update(self.strs)
        raise StopIteration


def S_at(it, k):
    from pyvc.load import seq_at
    return seq_at(it, k)


def check_joint(e, r, k, l, j):
    e.check("the joint leads to the link", j.child_link_name == l.name, (j.child_link_name, l.name))
    t = {tess.JointType_REVOLUTE: 0, tess.JointType_PRISMATIC: 1}.get(j.type)
    e.check("joint type is revolute or prismatic", t is not None, j.type)
    e.ensure("joint type", T.lit(r.c.jt(k) - t, "="))
    o = j.parent_to_joint_origin_transform
    e.ensure_all("the origin is not turned", eqs(o.R, eye()))
    e.ensure_all("the origin is the link offset", eqs(o.p, r.c.P(k)))
    e.ensure_all("joint axis", eqs(j.axis, r.c.H(k)))
    for a, m in (("lower", r.lo), ("upper", r.up), ("velocity", r.vel), ("acceleration", r.acc)):
        e.ensure("limit: " + a, T.lit(getattr(j.limits, a) - m(k), "="))
    e.check("joint name", j.name == (r.jn(k) if r.named else "joint_%s" % (k + 1)), j.name)


def make(e, g, n=None, vary=True):
    """robot with flange, tool and base as the bits of n say"""
    r = Rob()
    r.names = {}
    c = r.c = ch.Chain(e, (0, 1))
    e.assume(c.N >= 1)
    r.N = c.N
    if vary:
        H, P, jt = c.arrays()
    else:
        H, P, jt = S.SymVec(c.N, c.H, 3, "H"), S.SymVec(c.N + 1, c.P, 3, "P"), S.SymVec(c.N, c.jt, None, "joint_type")
        for a in (H, P, jt):
            a.frozen = True
    r.H, r.P, r.joint_type = H, P, jt
    for a, b in (("lo", "joint_lower_limit"), ("up", "joint_upper_limit"), ("vel", "joint_vel_limit"), ("acc", "joint_acc_limit")):
        setattr(r, a, memo(a, var))
        v = S.SymVec(c.N, getattr(r, a), None, b)
        v.frozen = True
        setattr(r, b, v)
    r.jn = memo("jn", lambda nm: "name of " + nm)
    r.named = e.choose(2)
    r.joint_names = None
    if r.named:
        r.joint_names = S.VList(c.N, r.jn, "joint_names")
        r.joint_names.frozen = True
    n = e.choose(8) if n is None else n
    r.sp = {}
    r.T_flange = r.T_base = r.R_tool = r.p_tool = None
    r.link_names = r.root_link_name = r.tip_link_name = None
    if n & 1:
        r.sp["F"] = (rotmat("fq")[0], vec("fp"))
        r.T_flange = g.Transform(*[x.copy() for x in r.sp["F"]])
    if n & 2:
        r.sp["tool"] = (rotmat("tq")[0], vec("tp"))
        r.R_tool, r.p_tool = r.sp["tool"][0].copy(), r.sp["tool"][1].reshape((3, 1)).copy() if vary and e.choose(2) else r.sp["tool"][1].copy()
    if n & 4:
        r.sp["B"] = (rotmat("bq")[0], vec("bp"))
        r.T_base = g.Transform(*[x.copy() for x in r.sp["B"]])
    e.for_rule = lambda lid, it, names, loc: Loop(e, r, it, names, loc)
    return r


def M(e):
    Graph.made = []
    st = tess.modules()
    st["tesseract_robotics.tesseract_scene_graph"].SceneGraph = Graph
    L = load(e, st)
    return L.module("tesseract"), L.module("general_robotics_toolbox")


def tail(e, r, sg, last):
    """the fixed joints behind the last joint; the name of the tip"""
    fx = sg.added[2:]
    want = [(eye(), r.c.P(r.N))] + [r.sp[k] for k in ("F", "tool") if k in r.sp]
    e.check("base link, joints, offset of the tip, flange, tool", len(fx) == len(want), [l.name for l, j in fx])
    parent = last
    for (l, j), (R, p) in zip(fx, want):
        e.check("fixed joint", j is not None and j.type == tess.JointType_FIXED)
        e.check("chain of fixed joints", j.parent_link_name == parent and j.child_link_name == l.name, (j.parent_link_name, parent))
        o = j.parent_to_joint_origin_transform
        e.ensure_all("fixed joint: orientation", eqs(o.R, R))
        e.ensure_all("fixed joint: offset", eqs(o.p, p))
        parent = l.name
    names = [l.name for l, j in sg.added] + [j.name for l, j in sg.added if j is not None]
    e.check("names differ", len(set(names)) == len(names), names)
    return parent


def link_list(e, label, v, sg, n, prefix=""):
    """base link, the links of the n joints, the links of the fixed joints"""
    fx = sg.added[2:]
    e.check(label + ": length", S.same(b_len(v), n + 1 + len(fx)))
    e.check(label + ": base", v[0] == prefix + sg.added[0][0].name)
    e.check(label + ": last joint", v[n] == prefix + sg.added[1][0].name, v[n])
    for i, (l, j) in enumerate(fx):
        e.check(label + ": links behind the last joint", v[n + 1 + i] == prefix + l.name, (v[n + 1 + i], l.name))
    e.check(label + ": tip", v[-1] == prefix + fx[-1][0].name)


def joint_list(e, r, label, v, prefix=""):
    w = intvar("w")
    e.assume(w >= 0)
    e.assume(w < r.N)
    e.check(label + ": length", S.same(b_len(v), r.N))
    e.check(label, v[w] == prefix + (r.jn(w) if r.named else "joint_%s" % (w + 1)), v[w])


def graph(e):
    m, g = M(e)
    n = e.choose(4)
    r = make(e, g, n)
    names = e.choose(2)
    x = m.robot_to_scene_graph(r, True) if names else m.robot_to_scene_graph(r)
    sg = x[0] if names else x
    e.check("a scene graph is returned", sg is Graph.made[-1])
    e.check("base link", sg.added[0][1] is None)
    tail(e, r, sg, sg.added[1][0].name)
    if names:
        e.check("scene graph and three lists of names", len(x) == 4)
        link_list(e, "link names", x[1], sg, r.N)
        joint_list(e, r, "joint names", x[2])
        c = x[3]
        e.check("chain link names: length", S.same(b_len(c), r.N + 1))
        e.check("chain link names: base and last", c[0] == sg.added[0][0].name and c[r.N] == sg.added[1][0].name)


def commands(e):
    m, g = M(e)
    r = make(e, g, [0, 4, 7, 1, 2][e.choose(5)], False)
    w, n = bool(e.choose(2)), bool(e.choose(2))
    seen = []
    import inspect
    real = m.tesseract_kinematics_information

    def info(*a, **k):
        b = inspect.signature(real).bind(*a, **k)
        b.apply_defaults()
        seen.append(b.arguments)
        return tess.KinematicsInformation()
    m.tesseract_kinematics_information = info
    mine = ({}, [])
    x = m.robot_to_tesseract_env_commands(r, NAME, w, n, "OPWInvKin", mine)
    e.check("commands, or commands and names", isinstance(x, tuple) == n)
    cs = list(x[0] if n else x)
    if w:
        a = cs.pop(0)
        e.check("the world link is added first", isinstance(a, tess.AddSceneGraphCommand) and a.prefix == "" and a.joint is None and [(l.name, j) for l, j in a.sg.added] == [("world", None)])
    e.check("the graph of the robot, then the kinematics", len(cs) == 2 and isinstance(cs[0], tess.AddSceneGraphCommand) and isinstance(cs[1], tess.AddKinematicsInformationCommand), cs)
    a = cs[0]
    px = NAME + "_"
    e.check("names are prefixed with the robot name", a.prefix == px, a.prefix)
    j = a.joint
    e.check("a fixed joint leads from the world to the base link", j.type == tess.JointType_FIXED and j.parent_link_name == "world" and j.child_link_name == px + a.sg.added[0][0].name, (j.parent_link_name, j.child_link_name))
    R, p = r.sp.get("B", (eye(), arr([0, 0, 0])))
    o = j.parent_to_joint_origin_transform
    e.ensure_all("the base joint is T_base: orientation", eqs(o.R, R))
    e.ensure_all("the base joint is T_base: offset", eqs(o.p, p))
    tip = tail(e, r, a.sg, a.sg.added[1][0].name)
    s = seen[0]
    e.check("kinematics from the world to the tip", len(seen) == 1 and (s["robot"], s["robot_name"], s["invkin_solver"], s["invkin_plugin_info"], s["base_link"], s["tip_link"]) == (r, NAME, "OPWInvKin", mine, "world", px + tip),
            (s["base_link"], s["tip_link"]))
    link_list(e, "link names for the kinematics", s["link_names"], a.sg, r.N, px)
    joint_list(e, r, "joint names for the kinematics", s["joint_names"], px)
    e.check("chain link names for the kinematics", s["chain_link_names"][0] == px + a.sg.added[0][0].name and S.same(b_len(s["chain_link_names"]), r.N + 1))
    if n:
        e.check("link and joint names", len(x) == 3)
        l = x[1]
        if w:
            e.check("the first link is the world", l[0] == "world")
            e.check("length", S.same(b_len(l), r.N + 2 + len(a.sg.added) - 2))
            l = l[1:]
        link_list(e, "reported link names", l, a.sg, r.N, px)
        joint_list(e, r, "reported joint names", x[2], px)


def other_types(e):
    """joints of other types are rejected"""
    m, g = M(e)
    t = var("t", isint=True)
    e.assume(bor([t == 2, t == 3]))
    h, p = unit("h"), vec("p")
    raises(e, "joint types 2 and 3 are rejected", lambda: m.get_link_and_joint(h, p, t, *[var("l%d" % i) for i in range(5)], "link", "joint", "parent"))


def single(e):
    """get_link_and_joint, get_fixed_link_and_joint, world_scene_graph"""
    m, g = M(e)
    h, p = unit("h"), vec("p")
    t = e.choose(2)
    lim = [var("l%d" % i) for i in range(5)]
    l, j = m.get_link_and_joint(h.copy(), p.copy(), t, *lim, "the link", "the joint", "the parent")
    e.check("names", (l.name, j.name, j.parent_link_name, j.child_link_name) == ("the link", "the joint", "the parent", "the link"))
    e.check("type", j.type == (tess.JointType_REVOLUTE, tess.JointType_PRISMATIC)[t])
    e.ensure_all("axis", eqs(j.axis, h))
    o = j.parent_to_joint_origin_transform
    e.ensure_all("origin", eqs(o.R, eye()) + eqs(o.p, p))
    for a, v in zip(("lower", "upper", "velocity", "acceleration", "effort"), lim):
        e.ensure("limit: " + a, T.lit(getattr(j.limits, a) - v, "="))
    R, q = rotmat("q")
    l, j = m.get_fixed_link_and_joint(g.Transform(R.copy(), p.copy()), "the link", "the joint", "the parent")
    e.check("fixed: names", (l.name, j.name, j.parent_link_name, j.child_link_name) == ("the link", "the joint", "the parent", "the link"))
    e.check("fixed: type", j.type == tess.JointType_FIXED)
    o = j.parent_to_joint_origin_transform
    e.ensure_all("fixed: origin", eqs(o.R, R) + eqs(o.p, p))
    sg = m.world_scene_graph("the world")
    e.check("world", [(l.name, j) for l, j in sg.added] == [("the world", None)])


def lemma(e):
    """X(k): frame of the link of joint k - 1 (X(0) the base link).  X(k+1) = X(k) origin motion.  With C12's recursion
    (R_k, p_k) and p_k = x(k) + R_k P_k this is R(X(k)) = R_k, and the offset of the tip gives p_n"""
    R, x, P, P1, h = mat("R", 3, 3), vec("x"), vec("P"), vec("Q"), vec("h")
    th = var("th")
    p = x + mm(R, P)
    if e.choose(2):
        J = rot(h, th)
        X1 = (mm(R, J), x + mm(R, P))
        R1 = mm(R, J)
        p1 = p + mm(R1, P1)
    else:
        X1 = (R, x + mm(R, P + th * h))
        R1 = R
        p1 = p + th * mm(R, h) + mm(R, P1)
    e.ensure_all("orientation", eqs(X1[0], R1))
    e.ensure_all("position", eqs(p1, X1[1] + mm(R1, P1)))
    e.ensure_all("start: identity and P_0", eqs(mm(eye(), P), P))


CONTRACTS = [("robot_to_scene_graph", graph), ("robot_to_tesseract_env_commands", commands), ("joint construction", single), ("joint construction rejects", other_types), ("lemma: chain", lemma)]
