"""C33: TesseractRobot, conversions and plugin configuration"""
from .common import *
from . import tess
from pyvc.rules import map_rule

FUNCTIONS = ["transform_to_isometry3d", "isometry3d_to_transform", "TesseractRobot.__init__", "TesseractRobot.fwdkin", "TesseractRobot.jacobian", "TesseractRobot.invkin", "TesseractRobot.redundant_solutions",
             "redundant_solutions", "kinematics_plugin_info_dict", "kinematics_plugin_info_string", "kinematics_plugin_fwdkin_kdl_plugin_info_dict", "kinematics_plugin_invkin_kdl_plugin_info_dict",
             "kinematics_plugin_invkin_opw_plugin_info_dict", "kinematics_plugin_invkin_ur_plugin_info_dict", "tesseract_kinematics_information", "robot_to_tesseract_env"]
ASSUMPTIONS = ["tesseract_robotics classes have their documented meaning (contracts/tess.py)", "AngleAxisd of a rotation matrix represents that rotation",
               "names are arbitrary: the code treats them as opaque strings (one name of each kind is used)"]
NAME = "Robot-7 b"


def M(e, env=None, redundant=None):
    L = load(e, tess.modules(env, redundant))
    return L.module("tesseract"), L.module("general_robotics_toolbox")


def conversions(e):
    m, g = M(e)
    R, q = rotmat("q")
    p = vec("p")
    t = g.Transform(R.copy(), p.copy(), *[(None, None), ("a", "b")][e.choose(2)])
    i = m.transform_to_isometry3d(t)
    e.check("an Isometry3d is returned", isinstance(i, tess.Isometry3d))
    e.ensure_all("rotation of the isometry", eqs(i.R, R))
    e.ensure_all("translation of the isometry", eqs(i.p, p))
    e.ensure_all("frame: the transform is not modified", eqs(t.R, R) + eqs(t.p, p))
    b = m.isometry3d_to_transform(i)
    e.check("a Transform is returned", isinstance(b, g.Transform) and shape_is(b.p, (3,)) and shape_is(b.R, (3, 3)))
    e.ensure_all("round trip: rotation", eqs(b.R, R))
    e.ensure_all("round trip: position", eqs(b.p, p))


class Group:
    """a kinematic group: the solver's answers are arbitrary"""

    def __init__(self, e, theta):
        self.e, self.theta = e, theta
        self.frames = {n: tess.Isometry3d.of(rotmat(n)[0], vec("p" + n)) for n in ("tip0", "tip1", "base1")}
        self.N = size("N")
        self.asked = []

    def seen(self, th):
        self.e.check("the joint vector is passed on", th is self.theta or isinstance(th, S.SymVec) and not th.log and th.name == "theta")

    def calcFwdKin(self, th):
        self.seen(th)
        return self.frames

    def calcJacobian(self, th, base, link, *a):
        self.seen(th)
        self.asked.append((base, link))
        self.J = memo("J", lambda nm: vec(nm, 6))
        return S.SymVec(self.N, self.J, 6, "J")

    def calcInvKin(self, iks, seed):
        self.seen(seed)
        self.asked.append(list(iks))
        self.K = size("K")
        self.sol = memo("sol", lambda nm: S.SymVec(self.N, memo(nm, var), None, nm, "n1" if self.column else None))
        return S.VList(self.K, self.sol, "solutions")

    def getBaseLinkName(self):
        return "base0"

    def getAllPossibleTipLinkNames(self):
        return ["tip0", "another"]

    def getLimits(self):
        return tess.types.SimpleNamespace(joint_limits="the limits", velocity_limits="v", acceleration_limits="a")

    def getRedundancyCapableJointIndices(self):
        return (0, 3, 5)


class Env:
    def __init__(self, g):
        self.g = g

    def getKinematicGroup(self, n, *a):
        self.g.e.check("the group of the robot is used", n == NAME, repr(n))
        return self.g


def rob(e, redundant=None):
    th = S.SymVec(size("N"), memo("th", var), None, "theta")
    th.frozen = True
    grp = Group(e, th)
    m, g = M(e, None, redundant)
    t = m.TesseractRobot(None, NAME, tesseract_env=Env(grp))
    e.check("names are those of the environment", (t.base_link_name, t.tip_link_name) == ("base0", "tip0"), repr((t.base_link_name, t.tip_link_name)))
    return m, g, t, grp, th


def names(e, f, *a):
    """base and tip: omitted, positional or by keyword"""
    b = [None, "base1"][e.choose(2)]
    t = [None, "tip1"][e.choose(2)]
    return b, t, (lambda kb, kt: f(*a, b, t) if e.choose(2) else f(*a, **{k: v for k, v in ((kb, b), (kt, t)) if v is not None}))


def fwdkin(e):
    m, g, t, grp, th = rob(e)
    b, tip, go = names(e, t.fwdkin, th)
    r = go("base_link_name", "tip_link_name")
    x = grp.frames[tip or "tip0"]
    R, p = x.R, x.p
    if b:
        y = grp.frames[b]
        R, p = mm(y.R.T, x.R), mm(y.R.T, x.p - y.p)
    e.check("a Transform is returned", isinstance(r, g.Transform))
    e.ensure_all("orientation of the tip in the base frame", eqs(r.R, R))
    e.ensure_all("position of the tip in the base frame", eqs(r.p, p))


def jacobian(e):
    m, g, t, grp, th = rob(e)
    b, tip, go = names(e, t.jacobian, th)
    J = go("base_link_name", "link_name")
    e.check("base and link are passed on", grp.asked == [(b or "base0", tip or "tip0")], repr(grp.asked))
    w = intvar("w")
    e.assume(w >= 0)
    e.assume(w < grp.N)
    e.check("shape", isinstance(J, S.SymVec) and J.rows == 6)
    e.ensure("a column per joint", T.lit(J.length - grp.N, "="))
    j = grp.J(w)
    e.ensure_all("angular rows above linear rows", eqs(J.get(w), arr([j[3], j[4], j[5], j[0], j[1], j[2]])))


def invkin(e):
    m, g, t, grp, th = rob(e)
    grp.column = e.choose(2)
    w = intvar("w")
    e.assume(w >= 0)
    e.assume(w < size("K"))
    e.witnesses = [w]
    e.for_rule = map_rule(e)
    R, q = rotmat("q")
    p = vec("p")
    T0 = g.Transform(R.copy(), p.copy())
    b, tip, go = names(e, t.invkin, T0, th)
    r = go("base_link_name", "tip_link_name")
    e.check("one problem is posed", len(grp.asked) == 1 and len(grp.asked[0]) == 1)
    ik = grp.asked[0][0]
    e.check("tip link", ik.tip_link_name == (tip or "tip0"), repr(ik.tip_link_name))
    e.check("working frame", ik.working_frame == (b or "base0"), repr(ik.working_frame))
    e.ensure_all("pose: orientation", eqs(ik.pose.R, R))
    e.ensure_all("pose: position", eqs(ik.pose.p, p))
    e.check("a list is returned", isinstance(r, S.VList))
    e.ensure("all solutions are returned", T.lit(r.length - grp.K, "="))
    v = r.get(w)
    e.check("solutions are joint vectors", isinstance(v, S.SymVec) and v.rows is None and v.layout is None)
    same_seq(e, "solutions are those of the solver", v, grp.sol(w), grp.N)


def redundant(e):
    K = size("K")
    sol = memo("sol", lambda nm: S.SymVec(size("N"), memo(nm, var), None, nm, "n1"))
    asked = []

    def solver(th, lim, idx, *a):
        asked.append((th, lim, list(idx)))
        return S.VList(K, sol, "solutions")
    m, g, t, grp, th = rob(e, solver)
    r = t.redundant_solutions(th) if e.choose(2) else m.redundant_solutions(grp, th)
    e.check("theta, limits and the redundant joints are passed on", len(asked) == 1 and asked[0][0] is th and asked[0][1:] == ("the limits", [0, 3, 5]), repr(asked))
    w = intvar("w")
    e.assume(w >= 0)
    e.assume(w < K)
    e.check("a list is returned", isinstance(r, S.VList))
    e.ensure("all solutions are returned", T.lit(r.length - K, "="))
    v = r.get(w)
    e.check("solutions are joint vectors", isinstance(v, S.SymVec) and v.rows is None and v.layout is None)
    same_seq(e, "solutions are those of the solver", v, sol(w), size("N"))


def construct(e):
    """from a robot: the environment, base and tip are those of robot_to_tesseract_env"""
    m, g = M(e)
    robot, seen = object(), []

    def env(*a, **k):
        import inspect
        seen.append(inspect.signature(real).bind(*a, **k))
        seen[-1].apply_defaults()
        return ("the env", ["link0", "link1", "link2"], ["j0", "j1"]) if seen[-1].arguments["return_names"] else "the env"
    real = m.robot_to_tesseract_env
    m.robot_to_tesseract_env = env
    k = e.choose(3)
    if k == 0:
        t = m.TesseractRobot(robot, NAME, "OPWInvKin")
        want = (robot, NAME, True, "OPWInvKin", None)
    elif k == 1:
        t = m.TesseractRobot(robot)
        want = (robot, "robot", True, "KDLInvKinChainLMA", None)
    else:
        t = m.TesseractRobot(robot=robot, robot_name=NAME, invkin_solver="URInvKin")
        want = (robot, NAME, True, "URInvKin", None)
    e.check("one environment is made", len(seen) == 1)
    a = seen[0].arguments
    e.check("robot, name and solver are passed on", tuple(a[x] for x in ("robot", "robot_name", "include_world", "invkin_solver", "invkin_plugin_info")) == want, repr(a))
    e.check("environment, base link and tip link", (t.tesseract_env, t.base_link_name, t.tip_link_name, t.robot_name) == ("the env", "link0", "link2", want[1]))
    raises(e, "neither robot nor environment", lambda: m.TesseractRobot())
    raises(e, "both robot and environment", lambda: m.TesseractRobot(robot, NAME, tesseract_env=Env(None)))


class Environment:
    ok = True

    def __init__(self):
        self.commands = None

    def init(self, c):
        assert self.commands is None
        self.commands = c
        return Environment.ok


def environment(e):
    """robot_to_tesseract_env: initialised with the commands for the robot"""
    m, g = M(e, Environment)
    import inspect
    real, seen = m.robot_to_tesseract_env_commands, []

    def com(*a, **k):
        seen.append(inspect.signature(real).bind(*a, **k))
        seen[-1].apply_defaults()
        return ("commands", ["l"], ["j"]) if seen[-1].arguments["return_names"] else "commands"
    m.robot_to_tesseract_env_commands = com
    w, n = bool(e.choose(2)), bool(e.choose(2))
    info = ({}, []) if e.choose(2) else None
    Environment.ok = bool(e.choose(2))
    robot = object()
    if not Environment.ok:
        raises(e, "an environment that cannot be initialised is an error", lambda: m.robot_to_tesseract_env(robot))
        Environment.ok = True
        return
    r = m.robot_to_tesseract_env(robot, NAME, w, n, "URInvKin", info)
    env = r[0] if n else r
    a = seen[0].arguments
    e.check("arguments are passed on", len(seen) == 1 and (a["robot"], a["robot_name"], a["include_world"], a["invkin_solver"], a["invkin_plugin_info"]) == (robot, NAME, w, "URInvKin", info), repr(a))
    e.check("an initialised environment is returned", isinstance(env, Environment) and env.commands == "commands")
    if n:
        e.check("names are returned", tuple(r[1:]) == (["l"], ["j"]))


SOLVERS = [None, "KDLInvKinChainLMA", "KDLInvKinChainNR", "OPWInvKin", "URInvKin"]
LIBS = {"OPWInvKin": "tesseract_kinematics_opw_factories", "URInvKin": "tesseract_kinematics_ur_factories"}


def plugins(e):
    m, g = M(e)
    robot = object()
    UR = m.URInvKinParameters(*[var("u%d" % i) for i in range(6)])
    offs, sg = vec("o", 6), [1, -1][e.choose(2)]
    signs = arr([1, -1, 1, sg, -1, 1])
    OPW = m.OPWInvKinParameters(*[var("w%d" % i) for i in range(7)], offs.copy(), signs.copy())

    def ask(v):
        def f(r):
            e.check("parameters of the robot", r is robot)
            return v
        return f
    m.robot_to_ur_inv_kin_parameters, m.robot_to_opw_inv_kin_parameters = ask(UR), ask(OPW)
    links, joints, chain = [NAME + "_l0", NAME + "_l1", NAME + "_l2", NAME + "_flange", NAME + "_tool"], ["j1", "j2"], [NAME + "_l0", NAME + "_l1", NAME + "_l2"]
    base, tip = [(None, None), ("world", None), (None, "T"), ("world", "T")][e.choose(4)]
    wb, wt = base or links[0], tip or links[-1]
    k = e.choose(7)
    if k == 5:
        raises(e, "an unknown solver is an error", lambda: m.kinematics_plugin_info_dict(robot, NAME, links, joints, chain, "NoSuchSolver", None, base, tip))
        return
    if k == 6:
        mine = {"inv_kin_plugins": {NAME: "mine"}}
        d = m.kinematics_plugin_info_dict(robot, NAME, links, joints, chain, "OPWInvKin", (mine, ["lib"]), base, tip)
        e.check("given plugin info is used", d["kinematic_plugins"]["inv_kin_plugins"] == {NAME: "mine"} and d["kinematic_plugins"]["search_libraries"] == ["lib"])
        return
    s = SOLVERS[k]
    how = e.choose(3)
    args = (robot, NAME, links, joints, chain, s, None, base, tip)
    if how == 0:
        d = m.kinematics_plugin_info_dict(*args)
    elif how == 1:
        t = m.kinematics_plugin_info_string(*args)
        d = tess_text(m, t)
    else:
        ki = m.tesseract_kinematics_information(*args)
        e.check("one chain group from base to tip", ki.groups == [(NAME, [(wb, wt)])], repr(ki.groups))
        d = ki.kinematics_plugin_info.d
    s = s or "KDLInvKinChainLMA"
    e.check("top level", list(d) == ["kinematic_plugins"])
    d = d["kinematic_plugins"]
    fk = d["fwd_kin_plugins"]
    e.check("forward kinematics plugin", fk == {NAME: {"default": "KDLFwdKinChain", "plugins": {"KDLFwdKinChain": {"class": "KDLFwdKinChainFactory", "config": {"base_link": wb, "tip_link": wt}}}}}, repr(fk))
    ik = d["inv_kin_plugins"]
    e.check("robot", list(ik) == [NAME])
    ik = ik[NAME]
    e.check("the default solver is the chosen one", ik["default"] == s, repr(ik["default"]))
    e.check("the library of the solver", d["search_libraries"] == [LIBS.get(s, "tesseract_kinematics_kdl_factories")], repr(d["search_libraries"]))
    pl = ik["plugins"]
    e.check("the solver is described", s in pl)
    for n, x in pl.items():
        e.check("factory of " + n, x["class"] == n + "Factory")
        c = x["config"]
        e.check("base and tip of " + n, (c["base_link"], c["tip_link"]) == ((chain[0], NAME + "_flange") if n == "OPWInvKin" else (wb, wt)), repr(c))
    if s in LIBS:
        P = pl[s]["config"]["params"]
        if s == "URInvKin":
            want = dict(zip(("d1", "a2", "a3", "d4", "d5", "d6"), UR))
        else:
            want = dict(zip(("a1", "a2", "b", "c1", "c2", "c3", "c4"), OPW[:7]))
            e.check("offsets and signs are lists", isinstance(P.get("offsets"), list) and isinstance(P.get("sign_corrections"), list))
            e.ensure_all("offsets", eqs(arr(P["offsets"]), offs))
            e.ensure_all("sign corrections", eqs(arr(P["sign_corrections"]), signs))
            e.check("parameter names", set(P) == set(want) | {"offsets", "sign_corrections"})
        for n, v in want.items():
            e.ensure("parameter " + n, T.lit(Re.of(P[n]) - v, "="))


def tess_text(m, t):
    return m.yaml.texts[t]


CONTRACTS = [("transform_to_isometry3d, isometry3d_to_transform", conversions), ("TesseractRobot.fwdkin", fwdkin), ("TesseractRobot.jacobian", jacobian), ("TesseractRobot.invkin", invkin),
             ("redundant_solutions", redundant), ("TesseractRobot", construct), ("robot_to_tesseract_env", environment), ("plugin configuration", plugins)]
