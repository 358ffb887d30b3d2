"""C01: hat, invhat, screw_matrix"""
from .common import *

FUNCTIONS = ["hat", "invhat", "screw_matrix"]


def hat_contract(e):
    g = G(e)
    k, v = vec("k"), vec("v")
    a = forms(e, k)
    fr = Snapshot(a)
    K = g.hat(a)
    e.check("hat returns a 3x3 matrix", shape_is(K, (3, 3)))
    e.ensure_all("hat(k) v = k x v for all v", eqs(mm(K, v), cross(k, v)))
    e.ensure_all("hat(k) is skew-symmetric", eqs(K.T.copy(), -K))
    K2 = K.copy()
    fr.ensure(e)
    r = g.invhat(K)
    e.ensure_all("invhat(hat(k)) = k", eqs(r, k))
    e.ensure_all("invhat does not modify its argument", eqs(K, K2))


def invhat_contract(e):
    g = G(e)
    M, v = mat("m", 3, 3), vec("v")
    w = g.invhat(M)
    e.check("invhat returns a 3-vector", shape_is(w, (3,)))
    # (M - M^T) v = w x v: w is the axis of the skew part
    e.ensure_all("invhat(M) x v = (M - M^T)/2 v", eqs(cross(w, v), mm((M - M.T), v) / 2))


def screw_contract(e):
    g = G(e)
    r, f, t = vec("r"), vec("f"), vec("t")
    a = forms(e, r)
    Gm = g.screw_matrix(a)
    e.check("screw_matrix returns a 6x6 matrix", shape_is(Gm, (6, 6)))
    want = mk((6, 6))
    for i in range(6):
        want[i, i] = 1
    for i in range(3):
        for j in range(3):
            want[i, 3 + j] = hat(r)[i, j]
    e.ensure_all("screw_matrix(r) = [[I, hat(r)], [0, I]]", eqs(Gm, want))
    w = mm(Gm, asarr(t.tolist() + f.tolist()))
    e.ensure_all("screw_matrix shifts a wrench by r x f", eqs(w, asarr((t + cross(r, f)).tolist() + f.tolist())))
    s = vec("s")
    e.ensure_all("screw_matrix(r) screw_matrix(s) = screw_matrix(r+s)", eqs(mm(Gm, g.screw_matrix(s)), g.screw_matrix(r + s)))


CONTRACTS = [("hat", hat_contract), ("invhat", invhat_contract), ("screw_matrix", screw_contract)]
