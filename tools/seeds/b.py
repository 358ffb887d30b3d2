G = "general_robotics_toolbox.py"
SEEDS = [
 dict(id="sp1_loose_equal", property="C15", edits=[(G, "    if norm (np.subtract(p, q)) < np.sqrt(eps):", "    if norm (np.subtract(p, q)) < 1e-6*norm(p):")],
  needs="a rotation by less than 1e-6", breaks="small rotations are returned as zero",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([0, 0.6, 0.8]); p = np.array([1., 0.3, -0.2])
t = 8e-7
q = g.rot(k, t) @ p
assert abs(g.subproblem1(p, q, k) - t) < 1e-8
"""),
 dict(id="sp1_axis_scale", property="C15", edits=[(G, "    k = np.divide(k,norm(k))\n    \n    pp", "    k = np.array(k)\n    pp")],
  needs="an axis that is not normalised", breaks="the components perpendicular to the axis are computed wrongly for an axis that is not a unit vector",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([0, 0.6, 0.8]); p = np.array([1., 0.3, -0.2])
q = g.rot(k, 0.7) @ p
assert abs(g.subproblem1(p, q, 2 * k) - 0.7) < 1e-7
"""),
 dict(id="sp2_oblique_axes", property="C16", edits=[(G, "    gamma = np.sqrt(bb) / norm(np.cross(k1,k2))", "    gamma = np.sqrt(bb)")],
  needs="axes that are not at a right angle", breaks="the intersection of the cones is scaled wrongly for oblique axes",
  demo="""
import numpy as np, general_robotics_toolbox as g
k1 = np.array([0, 0, 1.]); k2 = np.array([0.6, 0, 0.8]); p = np.array([1., 0.3, -0.2])
q = g.rot(k1, 0.5) @ g.rot(k2, -0.9) @ p
for a, b in g.subproblem2(p, q, k1, k2):
    assert np.allclose(g.rot(k1, a) @ g.rot(k2, b) @ p, q)
"""),
 dict(id="sp3_axial_difference", property="C17", edits=[(G, "dpsq = d**2 - ((np.dot(k, np.add(p,q)))**2)", "dpsq = d**2 - ((np.dot(k, np.subtract(p,q)))**2)")],
  needs="p and q with components along the axis", breaks="the distance along the axis is computed with the wrong sign",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([0, 0, 1.]); p = np.array([1., 0.3, -0.2]); q = np.array([0.5, -0.4, 0.6])
d = np.linalg.norm(q + g.rot(k, 1.1) @ p)
r = g.subproblem3(p, q, k, d)
assert len(r) == 2
for t in r:
    assert abs(np.linalg.norm(q + g.rot(k, t) @ p) - d) < 1e-9
"""),
 dict(id="sp4_axial_product", property="C18", edits=[(G, "    c = np.subtract(d, (np.dot(p,q) -b))", "    c = np.subtract(d, np.abs(np.dot(p,q) -b))")],
  needs="p and q with components of opposite sign along the axis", breaks="the displacement along the axis has the wrong sign",
  demo="""
import numpy as np, general_robotics_toolbox as g
k = np.array([0, 0, 1.]); p = np.array([1., 0.3, -0.2]); q = np.array([0.5, -0.4, 0.6])
d = p @ g.rot(k, 1.1) @ q
r = g.subproblem4(p, q, k, d)
assert len(r) == 2
for t in r:
    assert abs(p @ g.rot(k, t) @ q - d) < 1e-9
"""),
]
