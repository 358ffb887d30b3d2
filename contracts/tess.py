"""Contracts of the tesseract_robotics packages (external): the classes the toolbox uses, with their documented meaning."""
import types
from .common import *
from pyvc.load import b_len


def vec3(v):
    v = asarr(v)
    if v.size != 3:
        raise TypeError("Eigen::Vector3d expected")
    return arr(v.reshape(3).tolist())


def mat33(m):
    m = asarr(m)
    if m.shape != (3, 3):
        raise TypeError("Eigen::Matrix3d expected")
    return arr(m)


class Rot:
    """AngleAxisd, Quaterniond: a rotation"""

    def __init__(self, *a):
        if not a:
            self.R = eye()
        elif len(a) == 1:
            self.R = a[0].R.copy() if isinstance(a[0], Rot) else mat33(a[0])
        elif len(a) == 2:
            self.R = rot(vec3(a[1]), a[0])
        else:
            self.R = qrot(arr(list(a)))

    def toRotationMatrix(self):
        return self.R.copy()

    def inverse(self):
        return Rot(self.R.T.copy())

    def __mul__(self, o):
        if isinstance(o, Rot):
            return Rot(mm(self.R, o.R))
        if isinstance(o, Translation3d):
            return Isometry3d.of(self.R, mm(self.R, o.v))
        if isinstance(o, Isometry3d):
            return Isometry3d.of(mm(self.R, o.R), mm(self.R, o.p))
        raise TypeError("unsupported operand")


class AngleAxisd(Rot):
    pass


class Quaterniond(Rot):
    pass


class Translation3d:
    def __init__(self, *a):
        self.v = arr([0, 0, 0]) if not a else a[0].v.copy() if isinstance(a[0], Translation3d) else vec3(a[0]) if len(a) == 1 else vec3(list(a))

    def __mul__(self, o):
        if isinstance(o, Rot):
            return Isometry3d.of(o.R, self.v)
        if isinstance(o, Translation3d):
            return Translation3d(self.v + o.v)
        if isinstance(o, Isometry3d):
            return Isometry3d.of(o.R, self.v + o.p)
        raise TypeError("unsupported operand")


class Isometry3d:
    def __init__(self, m=None):
        self.R, self.p = eye(), arr([0, 0, 0])
        if isinstance(m, Isometry3d):
            self.R, self.p = m.R.copy(), m.p.copy()
        elif m is not None:
            self.setMatrix(m)

    @classmethod
    def of(cls, R, p):
        r = cls()
        r.R, r.p = R.copy(), p.copy()
        return r

    @staticmethod
    def Identity():
        return Isometry3d()

    def setIdentity(self):
        self.R, self.p = eye(), arr([0, 0, 0])

    def setMatrix(self, m):
        m = asarr(m)
        if m.shape != (4, 4):
            raise TypeError("Eigen::Matrix4d expected")
        self.R, self.p = m[:3, :3].copy(), m[:3, 3].copy()

    def setLinear(self, m):
        self.R = mat33(m)

    def setTranslation(self, v):
        self.p = vec3(v)

    def matrix(self):
        m = eye(4)
        m[:3, :3] = self.R
        m[:3, 3] = self.p
        return m

    def linear(self):
        return self.R.copy()
    rotation = linear

    def translation(self):
        return self.p.copy()

    def inverse(self):
        return Isometry3d.of(self.R.T, -mm(self.R.T, self.p))

    def __mul__(self, o):
        if isinstance(o, Rot):
            return Isometry3d.of(mm(self.R, o.R), self.p)
        if isinstance(o, Translation3d):
            return Isometry3d.of(self.R, self.p + mm(self.R, o.v))
        if isinstance(o, Isometry3d):
            return Isometry3d.of(mm(self.R, o.R), self.p + mm(self.R, o.p))
        raise TypeError("unsupported operand")
    __matmul__ = __mul__


class Vector(list):
    """std::vector"""
    push_back = list.append
    size = list.__len__

    def empty(self):
        return not self


class Link:
    def __init__(self, name):
        self.name = name

    def getName(self):
        return self.name


class Joint:
    FIELDS = ("type", "parent_to_joint_origin_transform", "axis", "parent_link_name", "child_link_name", "limits", "name", "dynamics", "safety", "calibration", "mimic")

    def __init__(self, name):
        self.name = name
        self.type = 0
        self.parent_to_joint_origin_transform = Isometry3d()
        self.axis = arr([1, 0, 0])
        self.parent_link_name = self.child_link_name = ""
        self.limits = None

    def __setattr__(self, k, v):
        if k not in self.FIELDS:
            raise AttributeError(k)
        if k == "parent_to_joint_origin_transform" and not isinstance(v, Isometry3d):
            raise TypeError("Isometry3d expected")
        if k == "axis":
            v = vec3(v)
        object.__setattr__(self, k, v)

    def getName(self):
        return self.name


class JointLimits:
    def __init__(self, *a):
        if len(a) not in (0, 5):
            raise TypeError("JointLimits(lower, upper, effort, velocity, acceleration)")
        self.lower, self.upper, self.effort, self.velocity, self.acceleration = [Re.of(x) for x in a] if a else [Re.const(0)] * 5


JointType_UNKNOWN, JointType_REVOLUTE, JointType_CONTINUOUS, JointType_PRISMATIC, JointType_FIXED = 0, 1, 2, 3, 6


class SceneGraph:
    """the additions, in order: (link, joint or None).  Additions are refused when the link exists; names that depend on a
    symbolic index are compared as the terms they are"""

    def __init__(self, name=""):
        self.name = name
        self.added = []

    def addLink(self, link, joint=None, *a):
        assert isinstance(link, Link) and (joint is None or isinstance(joint, Joint))
        if any(l.name == link.name for l, j in self.added):
            return False
        self.added.append((link, joint))
        return True


class AddSceneGraphCommand:
    def __init__(self, sg, *a):
        assert isinstance(sg, SceneGraph)
        self.sg, self.joint, self.prefix = sg, None, ""
        a = list(a)
        if a and isinstance(a[0], Joint):
            self.joint = a.pop(0)
        if a:
            self.prefix = a.pop(0)
        if a or not isinstance(self.prefix, str):
            raise TypeError("Wrong number or type of arguments")


class AddKinematicsInformationCommand:
    def __init__(self, info):
        assert isinstance(info, KinematicsInformation)
        self.info = info


class AddLinkCommand:
    def __init__(self, *a):
        self.a = a


class KinematicsInformation:
    def __init__(self):
        self.groups = []
        self.kinematics_plugin_info = None

    def addChainGroup(self, name, chains):
        self.groups.append((name, list(chains)))


class KinGroupIKInput:
    def __init__(self, *a):
        self.pose = self.tip_link_name = self.working_frame = None
        if a:
            self.pose, self.working_frame, self.tip_link_name = a


class Yaml:
    """yaml.safe_dump / dump: a text that stands for the object"""

    def __init__(self):
        self.texts = {}

    def safe_dump(self, d, f=None, **k):
        t = "yaml text %d\n" % len(self.texts)
        self.texts[t] = d
        if f is None:
            return t
        f.write(t)
    dump = safe_dump


class Plugins:
    def __init__(self, d):
        self.d = d


def modules(env=None, redundant=None):
    y = Yaml()

    def parse(text):
        return Plugins(y.texts[text])
    g = globals()

    def mod(n, *names, **kw):
        m = types.ModuleType("tesseract_robotics." + n)
        for x in names:
            setattr(m, x, g[x])
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    ms = [mod("tesseract_common", "Translation3d", "AngleAxisd", "Quaterniond", "Isometry3d", VectorPairString=Vector, FilesystemPath=str, ManipulatorInfo=object, KinematicsPluginInfo=object, PluginInfoContainer=object),
          mod("tesseract_environment", "AddLinkCommand", "AddSceneGraphCommand", "AddKinematicsInformationCommand", Commands=Vector, Environment=env),
          mod("tesseract_scene_graph", "Link", "Joint", "JointLimits", "JointType_FIXED", "JointType_REVOLUTE", "JointType_PRISMATIC", "JointType_CONTINUOUS", "SceneGraph"),
          mod("tesseract_kinematics", "KinGroupIKInput", KinGroupIKInputs=Vector, getRedundantSolutions=redundant),
          mod("tesseract_srdf", "KinematicsInformation", parseKinematicsPluginConfigString=parse)]
    pkg = types.ModuleType("tesseract_robotics")
    d = {"tesseract_robotics": pkg, "yaml": y}
    for m in ms:
        setattr(pkg, m.__name__.split(".")[1], m)
        d[m.__name__] = m
    return d
