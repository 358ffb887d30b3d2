"""C10: the group of rigid transforms"""
from .common import *

FUNCTIONS = ["Transform.__init__", "Transform.__mul__", "Transform.inv"]


def fnames(name, frames):
    """frame names: the bits of `frames` say which are given"""
    return (name + "_parent" if frames & 1 else None, name + "_child" if frames & 2 else None)


def transform(e, g, name, frames=3, form="flat"):
    R, q = rotmat(name + "q")
    p = vec(name + "p")
    pp = p.reshape((3, 1)).copy() if form == "column" else [x for x in p.tolist()] if form == "list" else p.copy()
    A = g.Transform(R.copy(), pp, *fnames(name, frames))
    return A, R, p


def init(e):
    g = G(e)
    form = ["flat", "column", "list"][e.choose(3)]
    M, p = mat("m", 3, 3), vec("p")
    Ma = [r.tolist() for r in M] if e.choose(2) else M
    pa = p.reshape((3, 1)).copy() if form == "column" else p.tolist() if form == "list" else p.copy()
    fr = Snapshot(Ma, pa)
    A = g.Transform(Ma, pa, "a", "b")
    e.check("R is a 3x3 array", shape_is(A.R, (3, 3)))
    e.check("p is a flat 3-vector", shape_is(A.p, (3,)))
    e.ensure_all("R and p are stored", eqs(A.R, M) + eqs(A.p, p))
    e.check("frames are stored", A.parent_frame_id == "a" and A.child_frame_id == "b")
    fr.ensure(e)
    B = g.Transform(M, p)
    e.check("frames default to none", B.parent_frame_id is None and B.child_frame_id is None)


SHAPES = [(), (0,), (1,), (2,), (3,), (4,), (6,), (9,), (0, 0), (1, 1), (1, 3), (3, 1), (2, 1), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3),
          (4, 4), (1, 9), (9, 1), (3, 1, 1), (1, 3, 1), (3, 3, 1), (1, 3, 3), (3, 3, 3)]


def init_rejects(e):
    g = G(e)
    s = SHAPES[e.choose(len(SHAPES))]
    if e.choose(2):
        if s == (3, 3):
            e.check("3x3 is accepted", True)
            return
        raises(e, "rotation of another shape than 3x3 is rejected", lambda: g.Transform(mk(s), vec("p")))
    else:
        if s in ((3,), (3, 1)):
            e.check("3-vectors are accepted", True)
            return
        raises(e, "position of another shape than (3,) or (3,1) is rejected", lambda: g.Transform(eye(), mk(s)))


def mul(e):
    g = G(e)
    fa, fb = e.choose(4), e.choose(4)
    A, RA, pA = transform(e, g, "a", fa)
    B, RB, pB = transform(e, g, "b", fb)
    fr = Snapshot(A.R, A.p, B.R, B.p)
    C = A * B
    e.check("the product is a Transform with 3x3 rotation and flat position", shape_is(C.R, (3, 3)) and shape_is(C.p, (3,)))
    e.ensure_all("rotation of A*B", eqs(C.R, mm(RA, RB)))
    e.ensure_all("position of A*B", eqs(C.p, pA + mm(RA, pB)))
    e.check("A*B keeps A's parent and B's child frame", C.parent_frame_id == fnames("a", fa)[0] and C.child_frame_id == fnames("b", fb)[1])
    fr.ensure(e)


def assoc(e):
    g = G(e)
    ms = [mat(x + "R", 3, 3) for x in "abc"]
    A, B, C = [g.Transform(M, vec(x + "p")) for x, M in zip("abc", ms)]
    X, Y = (A * B) * C, A * (B * C)
    e.ensure_all("composition is associative", eqs(X.R, Y.R) + eqs(X.p, Y.p))


def inv(e):
    g = G(e)
    fa, fb = e.choose(4), e.choose(4)
    A, RA, pA = transform(e, g, "a", fa)
    B, RB, pB = transform(e, g, "b", fb)
    fr = Snapshot(A.R, A.p)
    V = A.inv()
    fr.ensure(e)
    e.check("inv is a Transform with 3x3 rotation and flat position", shape_is(V.R, (3, 3)) and shape_is(V.p, (3,)))
    for X in (A * V, V * A):
        e.ensure_all("A*A.inv() and A.inv()*A are the identity", eqs(X.R, eye()) + eqs(X.p, [0, 0, 0]))
    e.check("inv swaps parent and child", (V.parent_frame_id, V.child_frame_id) == fnames("a", fa)[::-1])
    X, Y = (A * B).inv(), B.inv() * V
    e.ensure_all("inverse of a product is the reversed product of inverses", eqs(X.R, Y.R) + eqs(X.p, Y.p))
    e.check("frames of the inverse product", X.parent_frame_id == fnames("b", fb)[1] and X.child_frame_id == fnames("a", fa)[0])


CONTRACTS = [("Transform.__init__", init), ("Transform.__init__ rejects", init_rejects), ("Transform.__mul__", mul), ("associativity", assoc), ("Transform.inv", inv)]
