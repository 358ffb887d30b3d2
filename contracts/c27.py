"""C27: robots from Robot Raconteur info

The info holds any number of chains, a chain any number of joints, joint_info any number of entries; the properties of the
joints are stated at an arbitrary index w of the chain.  Robot is used by its contract (C11): it wants unit columns of H and
known joint types and stores what it is given under the names of its parameters."""
import inspect, types
from .common import *
from pyvc.rules import map_rule

FUNCTIONS = ["load_robot_info_yaml_to_robot", "load_robot_and_tool_info_yaml_to_robot", "_check_list", "_identifier_name", "_to_vec3", "_to_qvec", "_to_transform", "q2R", "Transform.__init__"]
ASSUMPTIONS = ["Robot.__init__ by its contract (proved as C11)", "yaml.safe_load returns the dictionary described by the file",
               "fields of the info that the loader has no use for are not constrained"]


class D(dict):
    """argument dictionary: must not be modified"""

    def _bad(self, *a, **k):
        T.CTX.eng.fail("argument not modified", "the info dictionary is modified")
    __setitem__ = __delitem__ = pop = popitem = clear = update = setdefault = __ior__ = _bad


class File:
    def __init__(self, d):
        self.d = d


def modules(e, src):
    ld = load(e, {"yaml": types.SimpleNamespace(safe_load=lambda f: f.d)})
    rr = ld.module("robotraconteur")
    g = ld.module("general_robotics_toolbox")
    real = inspect.signature(g.Robot.__init__)

    class Robot:
        def __init__(self, *a, **k):
            b = real.bind(self, *a, **k)
            b.apply_defaults()
            for n, v in b.arguments.items():
                if n != "self":
                    setattr(self, n, v)
            N = src.N
            H, P, jt = self.H, self.P, self.joint_type
            e.check("Robot: shape of H", len(H.shape) == 2 and same_len(e, H.shape[1], N) and H.shape[0] == 3)
            e.check("Robot: shape of P", len(P.shape) == 2 and same_len(e, P.shape[1], N + 1) and P.shape[0] == 3)
            for n in ("joint_type", "joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit", "joint_names"):
                from pyvc.load import b_len
                e.check("length of " + n, same_len(e, b_len(getattr(self, n)), N))
    rr.rox.Robot = Robot
    return rr, g, Robot


def same_len(e, a, b):
    d = Re.of(a) - b
    return (d.isconst and d.cval() == 0) or bool(Re.of(a) == b)


def xyzd(v):
    return D(x=v[0], y=v[1], z=v[2])


def pose(e, name, form=None):
    """pose dictionary; (dictionary, R, p)"""
    R, q = rotmat(name + "q")
    p = vec(name + "p")
    f = e.choose(2) if form is None else form
    qd = D(w=q[0], x=q[1], y=q[2], z=q[3])
    return (D(orientation=qd, position=xyzd(p)) if f else D(rotation=qd, translation=xyzd(p))), R, p


def ident(e, name, kinds=2):
    """identifier: string or {"name": string} (or null)"""
    k = e.choose(kinds)
    return (name, name) if k == 0 else (D(name=name), name) if k == 1 else (None, None)


class Source:
    """robot info with M chains; the chain at index c is the one described here"""

    def __init__(self, e, c, valid=True, extras=None, joints=True):
        """extras: the optional entries that vary (root, tool, base); joints: the joint entries vary"""
        self.e = e
        self.vary = joints
        self.M, self.N, self.J = size("M"), size("N"), size("J")
        for x in (self.M, self.N, self.J):
            e.assume(x >= 0)
        self.H = memo("H", lambda nm: unit("u" + nm))
        self.P = memo("P", vec)
        raw = memo("num", lambda nm: var(nm, isint=True))
        self.raw = raw
        seen = set()

        def num(j):
            v = raw(j)
            k = Re.of(j).key()
            if valid and k not in seen:
                seen.add(k)
                e.assume(v >= 0)
                e.assume(v < self.J)
                for k0 in list(seen):
                    if k0 != k:
                        j0 = self.at[k0]
                        d = Re.of(j) - j0
                        if d.isconst and d.cval() == 1:
                            e.assume(raw(j0) < v)
                        elif d.isconst and d.cval() == -1:
                            e.assume(v < raw(j0))
            self.at[k] = Re.of(j)
            return v
        self.at = {}
        self.num = num
        self.kinds = {}
        self.info = memo("info", lambda nm: self.joint(nm))
        self.chain = None
        self.c = c
        self.nH, self.nP = self.N, self.N + 1
        self.badtype = None
        self.flange = pose(e, "F", None if extras == "base" else 0)
        self.root, self.rootname = (None, None)
        self.extras = extras

    def joint(self, nm):
        e = self.e
        k = e.choose(2) if self.vary else 0
        n, name = ident(e, "joint " + nm, 3) if self.vary else ("joint " + nm,) * 2
        lim = D(lower=var("lo" + nm), upper=var("up" + nm), velocity=var("v" + nm), acceleration=var("a" + nm), effort=var("e" + nm), reduced_velocity=var("rv" + nm), reduced_acceleration=var("ra" + nm))
        d = D(joint_type=("revolute", "prismatic")[k], joint_limits=lim, joint_identifier=n)
        d.want = (k, lim, "" if name is None else name)
        return d

    def build(self):
        e = self.e
        self.tip, self.tipname = ident(e, "flange", 3) if self.extras == "tool" else ("flange", "flange")
        chain = D(joint_numbers=S.VList(self.N, self.num, "joint_numbers"), H=S.VList(self.nH, lambda j: xyzd(self.H(j)), "H"), P=S.VList(self.nP, lambda j: xyzd(self.P(j)), "P"),
                  flange_identifier=self.tip, flange_pose=self.flange[0])
        self.tool = None
        self.base = None
        if self.extras == "root":
            k = e.choose(4)
            if k == 1:
                dict.__setitem__(chain, "link_identifiers", [])
            elif k >= 2:
                n, self.rootname = ident(e, "root", 3)
                dict.__setitem__(chain, "link_identifiers", [n] if k == 2 else [n, D(name="other"), "x"])
        if self.extras == "tool":
            self.rootname = "the root"
            dict.__setitem__(chain, "link_identifiers", ["the root"])
            k = e.choose(5)
            if k == 1:
                dict.__setitem__(chain, "current_tool", None)
            elif k >= 2:
                t = pose(e, "T", form=1)
                td = D(tcp=t[0])
                self.tool = t
                if k == 3:
                    dict.__setitem__(td, "device_info", None)
                elif k == 4:
                    n, self.tipname = ident(e, "tool device")
                    dict.__setitem__(td, "device_info", D(device=n))
                dict.__setitem__(chain, "current_tool", td)
        for k in ("joint_numbers", "H", "P"):
            chain[k].frozen = True

        def other(nm):
            raise T.Unsupported("another chain is used")
        chains = S.VList(self.M, lambda j: chain if S.same(j, self.c) else other(j), "chains")
        chains.frozen = True
        ji = S.VList(self.J, self.info, "joint_info")
        ji.frozen = True
        d = D(chains=chains, joint_info=ji)
        if self.extras == "base":
            k = e.choose(4)
            if k == 1:
                dict.__setitem__(d, "device_info", None)
            elif k == 2:
                dict.__setitem__(d, "device_info", D(device_origin_pose=None))
            elif k == 3:
                self.base = pose(e, "B", form=0)
                dict.__setitem__(d, "device_info", D(device_origin_pose=D(pose=self.base[0])))
        self.chain = chain
        return d


def start(e, valid=True, extras=None, joints=True):
    c = intvar("c")
    s = Source(e, c, valid, extras, joints)
    rr, g, Robot = modules(e, s)
    e.for_rule = map_rule(e)
    return s, c, rr, g, Robot


def call(e, rr, d, c, s):
    f = rr.load_robot_info_yaml_to_robot
    x = d if e.choose(2) else File(d)
    return f(x, c)


def same_val(e, label, got, want):
    if want is None or isinstance(want, str):
        e.check(label, got == want and type(got) == type(want), "%r, not %r" % (got, want))
    else:
        e.ensure(label, T.lit(Re.of(got) - want, "="))


def pose_is(e, label, t, want):
    if want is None:
        e.check(label + ": none", t is None or (isinstance(t, tuple) and t[0] is None and t[1] is None))
        return
    R, p = (t if isinstance(t, tuple) else (t.R, t.p)) if t is not None else (None, None)
    ok = R is not None and p is not None
    e.check(label + ": present", ok)
    e.ensure_all(label + ": rotation", eqs(R, want[1]))
    e.check(label + ": shape of the position", shape_is(p, (3,)))
    e.ensure_all(label + ": position", eqs(p, want[2]))


def load_info(e):
    s, c, rr, g, Robot = start(e, extras=None)
    e.assume(c >= 0)
    e.assume(c < s.M)
    w = intvar("w")
    e.assume(w >= 0)
    e.assume(w < s.N)
    e.witnesses = [w]
    d = s.build()
    r = call(e, rr, d, c, s)
    e.check("a Robot is returned", isinstance(r, Robot))
    e.ensure_all("H: the columns are those of the chain, in order", eqs(r.H[:, w], s.H(w)))
    e.ensure_all("P: the columns are those of the chain, in order", eqs(r.P[:, w], s.P(w)))
    k, lim, name = s.info(s.num(w)).want
    e.ensure("joint type", T.lit(Re.of(r.joint_type[w]) - k, "="))
    same_val(e, "lower limit", r.joint_lower_limit[w], lim["lower"])
    same_val(e, "upper limit", r.joint_upper_limit[w], lim["upper"])
    same_val(e, "velocity limit", r.joint_vel_limit[w], lim["velocity"])
    same_val(e, "acceleration limit", r.joint_acc_limit[w], lim["acceleration"])
    same_val(e, "joint name", r.joint_names[w], name)


def last_column(e):
    """the column of P after the last joint"""
    s, c, rr, g, Robot = start(e, extras=None, joints=False)
    e.assume(c >= 0)
    e.assume(c < s.M)
    e.witnesses = [s.N]
    r = call(e, rr, s.build(), c, s)
    e.ensure_all("P: the last column is that of the chain", eqs(r.P[:, s.N], s.P(s.N)))


def frames(e):
    s, c, rr, g, Robot = start(e, joints=False, extras=("root", "tool", "base")[e.choose(3)])
    e.assume(c >= 0)
    e.assume(c < s.M)
    d = s.build()
    r = call(e, rr, d, c, s)
    same_val(e, "root link name", r.root_link_name, s.rootname)
    same_val(e, "tip link name", r.tip_link_name, s.tipname)
    pose_is(e, "flange", r.T_flange, s.flange)
    pose_is(e, "base", r.T_base, s.base)
    pose_is(e, "tool", (r.R_tool, r.p_tool), s.tool)
    e.check("no inertia matrices", r.M is None)


def tool(e):
    s, c, rr, g, Robot = start(e, extras=None, joints=False)
    t = pose(e, "U")
    n, name = ident(e, "new tool")
    td = D(tcp=t[0], device_info=D(device=n))
    e.assume(c >= 0)
    e.assume(c < s.M)
    w = intvar("w")
    e.assume(w >= 0)
    e.assume(w < s.N)
    e.witnesses = [w]
    d = s.build()
    if e.choose(2):
        old = pose(e, "T", form=1)
        dict.__setitem__(s.chain, "current_tool", D(tcp=old[0], device_info=D(device="old tool")))
    td = td if e.choose(2) else File(td)
    r = rr.load_robot_and_tool_info_yaml_to_robot(d if e.choose(2) else File(d), td, c)
    e.check("a Robot is returned", isinstance(r, Robot))
    pose_is(e, "the tool frame is that of the tool info", (r.R_tool, r.p_tool), t)
    same_val(e, "the tip name is that of the tool", r.tip_link_name, name)
    pose_is(e, "flange", r.T_flange, s.flange)
    e.ensure_all("H is that of the chosen chain", eqs(r.H[:, w], s.H(w)))
    e.ensure_all("P is that of the chosen chain", eqs(r.P[:, w], s.P(w)))
    e.ensure("joint types", T.lit(Re.of(r.joint_type[w]) - s.info(s.num(w)).want[0], "="))


def default_chain(e):
    """without a chain number the first chain is loaded"""
    c = Re.const(0)
    s = Source(e, c, True, None, False)
    rr, g, Robot = modules(e, s)
    e.for_rule = map_rule(e)
    e.assume(s.M >= 1)
    d = s.build()
    if e.choose(2):
        r = rr.load_robot_info_yaml_to_robot(d)
    else:
        r = rr.load_robot_and_tool_info_yaml_to_robot(d, D(tcp=pose(e, "U", form=1)[0], device_info=D(device="t")))
    pose_is(e, "flange of chain 0", r.T_flange, s.flange)


def reject(e, label, setup, witness, valid=False):
    s, c, rr, g, Robot = start(e, valid=valid, extras=None, joints=False)
    setup(e, s, c)
    e.witnesses = witness(s)
    d = s.build()
    f = (lambda: rr.load_robot_info_yaml_to_robot(d, c))
    raises(e, label, f, ValueError)


def bad_order(e):
    w = intvar("w")

    def setup(e, s, c):
        inrange(e, s, c)
        e.assume(w >= 1)
        e.assume(w < s.N)
        e.assume(s.raw(w - 1) >= s.raw(w))
        for x in (s.raw(w), s.raw(w - 1)):
            e.assume(x >= 0)
            e.assume(x < s.J)
    reject(e, "joint numbers out of order", setup, lambda s: [w])


def inrange(e, s, c):
    e.assume(c >= 0)
    e.assume(c < s.M)


def bad_number(e):
    w = intvar("w")
    k = e.choose(2)

    def setup(e, s, c):
        inrange(e, s, c)
        e.assume(w >= 0)
        e.assume(w < s.N)
        e.assume(s.raw(w) < 0 if k else s.raw(w) >= s.J)
    reject(e, "joint number out of range", setup, lambda s: [w])


def bad_shape(e):
    k = e.choose(2)

    def setup(e, s, c):
        inrange(e, s, c)
        n = size("n")
        if k:
            e.assume(bnot(T.bo(n == s.N)))
            s.nH = n
        else:
            e.assume(bnot(T.bo(n == s.N + 1)))
            s.nP = n
    reject(e, "wrong length of " + ("H" if k else "P"), setup, lambda s: [])


def bad_type(e):
    w = intvar("w")
    kinds = ["", "none", "continuous", "revolute3", "Revolute", 0, None, "spherical", "prismatic_multi"]
    t = kinds[e.choose(len(kinds))]

    def setup(e, s, c):
        inrange(e, s, c)
        e.assume(w >= 0)
        e.assume(w < s.N)
        dict.__setitem__(s.info(s.num(w)), "joint_type", t)
    reject(e, "unknown joint type", setup, lambda s: [w], valid=True)


def bad_chain(e):
    k = e.choose(2)
    with_tool = e.choose(2)

    def setup(e, s, c):
        e.assume(c < 0 if k else c >= s.M)
    s, c, rr, g, Robot = start(e, valid=False, extras=None, joints=False)
    setup(e, s, c)
    d = s.build()
    td = D(tcp=pose(e, "U", form=1)[0], device_info=D(device="t"))
    raises(e, "chain number out of range", (lambda: rr.load_robot_and_tool_info_yaml_to_robot(d, td, c)) if with_tool else (lambda: rr.load_robot_info_yaml_to_robot(d, c)), ValueError)


CONTRACTS = [("joints of the chain", load_info), ("last link offset", last_column), ("names, flange, base, tool", frames), ("tool info", tool), ("chain 0 by default", default_chain),
             ("rejects unordered joints", bad_order), ("rejects joint numbers out of range", bad_number), ("rejects H or P of wrong length", bad_shape), ("rejects unknown joint types", bad_type),
             ("rejects chain numbers out of range", bad_chain)]
