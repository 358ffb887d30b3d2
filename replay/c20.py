from ikrobots import *


def search(S):
    g = import_g()
    for k in S.loop(900):
        r = opw(S, g, S.flip(0.3))
        T, q = pose(S, g, r)
        reach(S, g, "robot6_sphericalwrist_invkin", r, T, last(S, q), q)
