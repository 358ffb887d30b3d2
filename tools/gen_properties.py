#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the entries stay uniform)."""
import json, os
G = "src/general_robotics_toolbox/general_robotics_toolbox.py"
I = "src/general_robotics_toolbox/general_robotics_toolbox_invkin.py"
U = "src/general_robotics_toolbox/urdf.py"
RR = "src/general_robotics_toolbox/robotraconteur.py"
RM = "src/general_robotics_toolbox/ros_msg.py"
RT = "src/general_robotics_toolbox/ros_tf.py"
TS = "src/general_robotics_toolbox/tesseract.py"
out = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    out.append(d)

P("C01", "hat, invhat and screw_matrix are the cross-product and screw operators",
  "For every 3-vector k, given as list, array or column, hat(k) is the skew-symmetric matrix with hat(k)v = k x v for all v, and invhat(hat(k)) = k; invhat of any 3x3 matrix is the axis of its skew part. "
  "screw_matrix(r) is the 6x6 block matrix [[I, hat(r)],[0, I]], so that screw_matrix(a) screw_matrix(b) = screw_matrix(a+b) and screw_matrix(r) maps a wrench at the end point to the base point.",
  ["inputs"], "all real 3-vectors and 3x3 matrices", "test_hat and test_screwmatrix sample the single vector [1,2,3]; invhat is not tested at all.",
  [G], [("hat", G+":hat"), ("invhat", G+":invhat"), ("screw_matrix", G+":screw_matrix")], ["rox.hat", "rox.invhat", "rox.screw_matrix"])

P("C02", "rot(k, theta) is the right-handed rotation by theta about k",
  "For every unit vector k (list, array or column) and every real angle theta, rot(k, theta) is a proper rotation matrix (orthonormal, determinant +1) that leaves k fixed and turns every vector v perpendicular to k into cos(theta) v + sin(theta) (k x v). "
  "Consequently rot(k,a) rot(k,b) = rot(k,a+b), rot(k,-theta) is the inverse, and rot(k,theta) = rot(k, theta+2 pi).",
  ["inputs"], "all unit axes and all real angles", "test_rot checks four fixed axis/angle pairs.",
  [G], [("Euler-Rodrigues formula", G+":rot")], ["rox.rot"])

P("C03", "R2rot recovers a valid axis and angle from every rotation matrix",
  "For every 3x3 rotation matrix R, including the identity, rotations by exactly pi and rotations arbitrarily close to either, R2rot(R) returns a unit axis k and an angle theta in [0, pi] with rot(k, theta) equal to R to within 1e-5. "
  "It never returns NaN, also when R carries rounding error.",
  ["inputs"], "all rotation matrices, with rounding error", "test_R2rot samples ten axis/angle pairs; the sign logic near pi depends on which axis components are small, a measure-zero region no sample hits.",
  [G], [("general branch and the sin(theta)<1e-6 branches", G+":R2rot")], ["rox.R2rot"])

P("C04", "q2R maps unit quaternions to rotations and agrees with rot2q",
  "For every unit quaternion q = [w,x,y,z] (list or array), q2R(q) is a proper rotation matrix, q2R(q) = q2R(-q), and q2R of a Hamilton product is the product of the q2R. "
  "For every unit axis k (array or column) and angle theta, rot2q(k, theta) is the unit quaternion [cos(theta/2), sin(theta/2) k] and q2R(rot2q(k, theta)) = rot(k, theta).",
  ["inputs"], "all unit quaternions, axes and angles", "test_q2R and test_rot2q check one fixed rotation each.",
  [G], [("q2R", G+":q2R"), ("rot2q", G+":rot2q")], ["rox.q2R", "rox.rot2q"])

P("C05", "R2q inverts q2R on every rotation matrix",
  "For every 3x3 rotation matrix R, R2q(R) is a finite unit quaternion q with q2R(q) = R, whichever of its four numerical branches is taken; hence R2q(q2R(q)) is q or -q for every unit quaternion q. "
  "No branch divides by a vanishing number or takes the root of a negative one.",
  ["inputs"], "all rotation matrices", "test_R2q checks one matrix, reaching only one of the four branches directly; branch boundaries are never sampled.",
  [G], [("four-branch trace method", G+":R2q")], ["rox.R2q"])

P("C06", "q2rot returns an axis and angle equivalent to every unit quaternion",
  "For every unit quaternion q, q2rot(q) returns a unit axis k and an angle theta with rot(k, theta) equal to q2R(q) to within 1e-5, including q near [1,0,0,0] and near [-1,0,0,0]. "
  "It returns finite numbers also when the norm of q differs from one by rounding error.",
  ["inputs"], "all unit quaternions, with rounding error", "test_q2rot checks one quaternion; the singular ends w = +1 and w = -1 are not sampled.",
  [G], [("q2rot", G+":q2rot")], ["rox.q2rot"])

P("C07", "Quaternion complement, product and Jacobian obey quaternion algebra",
  "For all quaternions p and q, quatproduct(q) p is the Hamilton product q*p, quatcomplement(q) is the conjugate (q times its complement is |q|^2), and the product is associative and norm-multiplicative. "
  "For every unit q and angular velocity w in the base frame, quatjacobian(q) w is the quaternion rate whose rotation matrix rate is hat(w) q2R(q), and it is orthogonal to q.",
  ["inputs"], "all quaternions and angular velocities", "The tests compare each function with one stored literal; the test itself says the Jacobian needs a better control case.",
  [G], [("quatcomplement", G+":quatcomplement"), ("quatproduct", G+":quatproduct"), ("quatjacobian", G+":quatjacobian")],
  ["rox.quatcomplement", "rox.quatproduct", "rox.quatjacobian"])

P("C08", "rpy2R and R2rpy are inverse away from the pitch singularity",
  "For all roll, pitch and yaw, rpy2R([r,p,y]) equals Rz(y) Ry(p) Rx(r), and for every rotation matrix that is not at the pitch singularity R2rpy(R) returns (r,p,y) with p in [-pi/2, pi/2] and rpy2R(r,p,y) = R. "
  "R2rpy raises an error exactly when the first column of R has vanishing x and y components.",
  ["inputs"], "all angle triples and all rotation matrices", "test_rpy2R checks one triple and one singular triple.",
  [G], [("rpy2R", G+":rpy2R"), ("R2rpy", G+":R2rpy")], ["rox.rpy2R", "rox.R2rpy"])

P("C09", "slerp follows the shortest great arc at constant speed",
  "For all non-zero quaternions q0, q1 and t in [0,1], slerp returns a finite unit quaternion on the shorter great arc between the rotations of q0 and q1, at angle t*theta from the first and (1-t)*theta from the second, where theta is the angle between them; t=0 and t=1 give q0 and q1 up to sign and normalisation. "
  "This also holds for equal, opposite and nearly equal quaternions (to within 1e-5), and t outside [0,1] is rejected with an error.",
  ["inputs"], "all pairs of non-zero quaternions and all t", "test_slerp checks three pairs; rounding puts the dot product above one for roughly a third of equal pairs, none of which is sampled.",
  [G], [("slerp", G+":slerp")], ["rox.slerp"])

P("C10", "Transform composition and inversion form the rigid-motion group",
  "For all rigid transforms A, B, C: A*B has rotation A.R B.R and position A.p + A.R B.p, composition is associative, A*A.inv() and A.inv()*A are the identity, and inv of a product is the reversed product of inverses. "
  "A*B keeps A's parent frame and B's child frame, inv swaps parent and child, and the constructor rejects anything but a 3x3 rotation and a 3-vector (flat or column).",
  ["inputs"], "all rotations, positions and frame ids", "No test exercises the algebra directly; transforms appear only through robot examples.",
  [G], [("__mul__", G+":Transform.__mul__"), ("inv", G+":Transform.inv"), ("__init__", G+":Transform.__init__"), ("identity_transform", G+":identity_transform")],
  ["rox.Transform", "rox.identity_transform"])

P("C11", "The Robot constructor accepts exactly the well-formed robots",
  "Robot(...) succeeds when every column of H is a unit vector, H is 3xN, P is 3x(N+1), every joint type is 0, 1, 2 or 3, and every given limit, name and inertia list has the matching length and shape; it raises an error whenever one of these is violated. "
  "An accepted robot stores the geometry, names and frames as given, exposes position limits only when both are given and a tool only when both rotation and position are given.",
  ["inputs", "configurations"], "all argument combinations, any number of joints", "Tests construct a handful of valid robots and never an invalid one.",
  [G], [("constructor assertions", G+":Robot.__init__")], ["rox.Robot"])

P("C12", "fwdkin is the product of the joint motions for every chain and joint vector",
  "For every robot with any number of joints, and every joint vector within the limits, fwdkin returns T_base * Trans(P0) * J1(theta1) * Trans(P1) * ... * JN(thetaN) * Trans(PN) * T_flange * Tool, where a joint of type 0 or 2 rotates about its axis, one of type 1 or 3 translates along it, and absent aux transforms are the identity. "
  "When both position limits are set and the vector is out of range in any joint, fwdkin raises an error instead.",
  ["inputs", "configurations"], "every robot geometry, chain length, mix of joint types, aux transforms and joint vector", "test_fwdkin checks six-revolute robots in four configurations (its TODO says other joint types are missing).",
  [G], [("recursion over joints", G+":fwdkin"), ("aux transforms", G+":apply_robot_aux_transforms")], ["rox.fwdkin"])

P("C13", "robotjacobian is the derivative of fwdkin",
  "For every robot of revolute (0) and prismatic (1) joints with any number of joints, and every joint vector within limits, column i of robotjacobian is the base-frame angular velocity (rows 0-2) and linear velocity (rows 3-5) of the pose returned by fwdkin per unit rate of joint i, with flange, tool and base transforms included. "
  "Out-of-range joint vectors are rejected with an error exactly as in fwdkin; for a mobile base of two type-3 and one type-2 joints the first two columns are the forward and turning motions of the robot.",
  ["inputs", "configurations"], "every robot geometry, chain length, joint mix, aux transforms and joint vector", "test_robotjacobian checks three configurations of one tool-less Puma arm against literals; Tesseract tests cover four joint vectors.",
  [G], [("forward recursion and column assembly", G+":robotjacobian")], ["rox.robotjacobian"])

P("C14", "Applying and unapplying robot aux transforms are exact inverses",
  "For every robot, every combination of present or absent tool, flange and base transforms, and every pose T, apply_robot_aux_transforms returns T_base * T * T_flange * Tool and unapply_robot_aux_transforms undoes it exactly, in either order.",
  ["inputs", "configurations"], "all eight presence combinations, all transforms", "test_robot_aux_transforms checks a robot with all three present; partial combinations are never checked.",
  [G], [("apply", G+":apply_robot_aux_transforms"), ("unapply", G+":unapply_robot_aux_transforms")],
  ["rox.apply_robot_aux_transforms", "rox.unapply_robot_aux_transforms"])

P("C15", "Subproblems 0 and 1 return the angle that rotates p onto q",
  "For every axis k and vectors p, q with q = rot(k, t) p for some t and p not parallel to k, subproblem1(p, q, k) returns (without error, also for badly conditioned inputs) an angle theta in [-pi, pi] with rot(k/|k|, theta) p = q to numerical precision; subproblem0 does the same when p and q are perpendicular to the unit axis k. "
  "subproblem0 rejects vectors that are clearly not perpendicular to k.",
  ["inputs"], "all axes and vector pairs", "test_subproblems checks one quarter turn for each.",
  [G], [("subproblem0", G+":subproblem0"), ("subproblem1", G+":subproblem1")], ["rox.subproblem0", "rox.subproblem1"])

P("C16", "Subproblem 2 returns exactly the solutions of the two-axis problem",
  "For all unit axes k1, k2 that are not parallel and vectors p, q of equal length, every pair (t1, t2) returned by subproblem2(p, q, k1, k2) satisfies q = rot(k1, t1) rot(k2, t2) p, including the single solution returned when the cones touch. "
  "The list is empty exactly when the cones do not intersect or the axes are parallel; when p is not along k2 and q not along k1 it contains every solution modulo 2 pi.",
  ["inputs"], "all axis pairs and vector pairs", "test_subproblems checks two inputs, both with right-angle axes; the touching case is only tested where p is perpendicular to k2.",
  [G], [("cone intersection", G+":subproblem2")], ["rox.subproblem2"])

P("C17", "Subproblem 3 returns exactly the angles that give the requested distance",
  "For every unit axis k, vectors p, q not parallel to k and distance d >= 0, every angle returned by subproblem3(p, q, k, d) satisfies |q + rot(k, theta) p| = d. "
  "The list is empty exactly when no rotation gives that distance, and otherwise it contains every solution modulo 2 pi.",
  ["inputs"], "all axes, vectors and distances", "test_subproblems checks two inputs with perpendicular vectors in a plane.",
  [G], [("law of cosines", G+":subproblem3")], ["rox.subproblem3"])

P("C18", "Subproblem 4 returns exactly the angles that give the requested displacement",
  "For every unit axis k, vectors p, q and displacement d, every angle returned by subproblem4(p, q, k, d) satisfies p . rot(k, theta) q = d and is a finite number. "
  "The list is empty exactly when no rotation gives that displacement, on the high side or on the low side, and otherwise, unless p or q is along k, it contains every solution modulo 2 pi.",
  ["inputs"], "all axes, vectors and displacements", "test_subproblems checks one feasible input; infeasible displacements are not tested.",
  [G], [("sinusoid solution", G+":subproblem4")], ["rox.subproblem4"])

P("C19", "Closed-form inverse kinematics respects joint limits and the ordering",
  "For every robot with position limits, every configuration returned by robot6_sphericalwrist_invkin and ur_invkin lies within the limits of every joint, so that fwdkin accepts it. "
  "When last_joints is given the returned list is ordered by increasing distance to it, each angle being shifted by full turns towards it as far as limits allow, and a pose without solution gives an empty list rather than an error.",
  ["inputs", "configurations"], "all robots, limits, poses and previous joint vectors", "The tests use robots whose limits are symmetric or wide, only reachable poses, and last_joints within 4 degrees of a solution.",
  [I], [("normalize_joints", I+":normalize_joints"), ("final ordering", I+":robot6_sphericalwrist_invkin"), ("final ordering", I+":ur_invkin")],
  ["rox.robot6_sphericalwrist_invkin", "rox.ur_invkin"])

P("C20", "Every solution of robot6_sphericalwrist_invkin reaches the desired pose",
  "For every six-joint robot with a vertical first axis, two parallel shoulder and elbow axes along +y or -y and a spherical wrist (wrist offsets only along the wrist axes, the last two wrist axes not parallel, upper arm and forearm not along the shoulder axis), every desired pose, and any tool, flange and base, each configuration returned by robot6_sphericalwrist_invkin reproduces the desired pose under fwdkin to numerical precision.",
  ["inputs", "configurations"], "all robot geometries of this class and all poses", "Random tests sample 100 poses for two robot geometries.",
  [I], [("position/orientation decoupling", I+":robot6_sphericalwrist_invkin")], ["rox.robot6_sphericalwrist_invkin"])

P("C21", "Every solution of ur_invkin reaches the desired pose",
  "For every Universal-Robots style robot in either supported alignment (+x or -x; upper arm and forearm not along the shoulder axis, P5 along the last axis), every desired pose and any tool, flange and base, each configuration returned by ur_invkin reproduces the desired pose under fwdkin to numerical precision. "
  "A robot whose axes are in neither alignment is rejected with an error.",
  ["inputs", "configurations"], "all link lengths, both alignments and all poses", "Random tests sample 100 poses of one UR5e in one alignment.",
  [I], [("decoupling with parallel joints 2-4", I+":ur_invkin")], ["rox.ur_invkin"])

P("C22", "Transform comparison is a sound tolerance test",
  "For all transforms A and B, A == A holds, A == B is false whenever some entry of R or p differs by more than 1e-8 + 1e-6 times the magnitude of B's entry and true when no entry does, and A != B is its negation. "
  "A.isclose(B, tol) is true when every entry of R and p differs by at most tol, and false when some entry differs by more than tol plus 1e-5 times the magnitude of B's entry.",
  ["inputs"], "all pairs of transforms and tolerances", "Tests use comparison only as an oracle on nearly equal poses; a comparison that ignores p or R in some case would make them pass.",
  [G], [("__eq__", G+":Transform.__eq__"), ("isclose", G+":Transform.isclose")], ["rox.Transform.__eq__", "rox.Transform.isclose"])

P("C23", "equivalent_configurations returns exactly the missing full-turn variants",
  "For every robot with limits and every list of configurations within them, each returned configuration differs from one of the given ones by non-zero multiples of 2 pi in revolute joints only and lies within the limits; prismatic joints are never shifted. "
  "Every in-limit variant of a given configuration is in the given list or in the returned list, nothing already given is returned, and with last_joints the list is ordered by distance to it (an empty result is an empty list, not an error).",
  ["inputs", "configurations"], "all robots, limits and configuration lists", "One test counts the variants for one Puma pose.",
  [I], [("equivalent_configurations", I+":equivalent_configurations")], ["rox.equivalent_configurations"])

P("C24", "iterative_invkin reports convergence only for configurations at the pose",
  "Whenever iterative_invkin reports convergence, the configuration it returns puts the robot at the desired pose: every component of the position error in the tool frame, and of sin(theta/2) k of the orientation error, is below the tolerance. "
  "This holds for robots with any number of revolute and prismatic joints and for list, tuple or array seeds; revolute joints are returned on the turn nearest the seed, prismatic joints unshifted, and at most max_steps iterations are made.",
  ["inputs", "configurations", "histories"], "all robots, poses, seeds and iteration histories", "Tests run six-revolute robots from seeds within 2 degrees and ignore up to five failures in 100.",
  [I], [("iteration and convergence test", I+":iterative_invkin"), ("normalisation", I+":normalize_joints.normalize")], ["rox.iterative_invkin"])

P("C25", "Kinematics functions never modify their arguments",
  "No forward, inverse or differential kinematics function, rotation conversion, subproblem or transform operation changes the robot, poses, joint vectors, matrices or vectors it is given: after any sequence of calls every argument compares bitwise equal to what was passed in.",
  ["inputs", "histories"], "all call sequences and arguments", "No test compares arguments before and after a call.",
  [G, I], [("in-place updates on local copies", G+":robotjacobian"), ("wrist offset correction", I+":robot6_sphericalwrist_invkin")],
  ["rox.Robot.H", "rox.Robot.P", "rox.Transform"])

P("C26", "A robot loaded from URDF has the kinematics of the URDF chain",
  "For every URDF whose root-to-tip chain consists of fixed, revolute and prismatic joints, in any number and order, the loaded robot's fwdkin for every joint vector equals the composition of the URDF joint origins and joint motions along the chain. "
  "Joint names, position and velocity limits, types and root and tip link names are those of the movable joints in chain order, and limits are left unset when any movable joint lacks them.",
  ["inputs", "configurations"], "all chains, origins, axes and joint vectors", "test_irb6640 checks two URDF files of one all-revolute arm without any fixed joint between movable ones or prismatic joints.",
  [U], [("chain traversal", U+":_robot_from_urdf_robot")], ["urdf.robot_from_xml_string", "rox.fwdkin"])

P("C27", "A robot loaded from Robot Raconteur info matches the selected chain",
  "For every Robot Raconteur robot info and chain number, the loaded robot has the H, P, joint types, limits, names, flange pose, base pose and current tool of exactly the joints listed in that chain's joint_numbers, in order. "
  "Loading with a tool info replaces tool frame and tip name by the tool's; unordered or out-of-range joint numbers, mismatched H or P lengths, unknown joint types and out-of-range chain numbers are rejected with ValueError.",
  ["inputs", "configurations"], "all info documents, chains and joint numberings", "The YAML tests use single-chain files whose joint_numbers are 0..N-1, the only numbering for which indexing by position is right.",
  [RR], [("loader", RR+":load_robot_info_yaml_to_robot"), ("tool loader", RR+":load_robot_and_tool_info_yaml_to_robot")],
  ["robotraconteur.load_robot_info_yaml_to_robot"])

P("C28", "ROS message conversions preserve geometry and round-trip",
  "For all quaternions, vectors, twists, wrenches, rotations and transforms, converting to the ROS message and back returns the same value (rotations exactly, quaternions of rotations up to sign), with each message field holding the component of that name. "
  "msg2transform accepts Transform, Pose, TransformStamped and PoseStamped, carries frame ids both ways where the message has them, and rejects anything else.",
  ["inputs"], "all values and message types", "The ROS tests are skipped without ROS, so nothing is executed; they sample one random value.",
  [RM], [("field mappings", RM)], ["ros_msg.*"])

P("C29", "The TF listener wrapper returns the transform the ROS listener reports",
  "For every translation and quaternion (x,y,z,w) reported by the underlying ROS listener, lookupTransform and lookupTransformFull return the Transform with that translation, the rotation of that quaternion, target frame as parent and source frame as child. "
  "Every argument is passed to the ROS listener in its place and every other method forwards arguments and result unchanged.",
  ["inputs"], "all listener answers and arguments", "The TF test needs ROS and is marked skip.",
  [RT], [("TransformListener", RT+":TransformListener")], ["ros_tf.TransformListener"])

P("C30", "The Tesseract scene graph built from a robot has the robot's kinematics",
  "For every robot of revolute and prismatic joints with any presence of flange, tool and base, the scene graph, environment commands and names created for Tesseract describe one chain from world to the tip whose composed joint transforms equal fwdkin for every joint vector. "
  "Each joint carries the robot's axis, type, limits and name, every link has exactly one parent joint, and the reported link and joint names are those in the graph with the robot name as prefix.",
  ["inputs", "configurations"], "all robots, names and joint vectors", "The tests check one seven-joint Sawyer graph literally and four joint vectors on four robots.",
  [TS], [("robot_to_scene_graph", TS+":robot_to_scene_graph"), ("joint construction", TS+":get_link_and_joint"), ("base joint", TS+":get_robot_world_to_base_joint")],
  ["tesseract.robot_to_scene_graph", "tesseract.robot_to_tesseract_env_commands"])

P("C31", "OPW parameters describe the same kinematics as the robot",
  "Whenever robot_to_opw_inv_kin_parameters accepts a robot, the OPW forward kinematics with the returned a1, a2, b, c1..c4, offsets and sign corrections equals the robot's fwdkin up to its base transform and tool, for every joint vector, to within the rounding of the parameters. "
  "A robot that is not of the ortho-parallel spherical-wrist form is rejected with an error.",
  ["inputs", "configurations"], "all accepted robots and joint vectors", "Three robots with one geometry pattern each are tested at a few joint vectors.",
  [TS], [("parameter heuristic", TS+":robot_to_opw_inv_kin_parameters")], ["tesseract.robot_to_opw_inv_kin_parameters"])

P("C32", "UR parameters describe the same kinematics as the robot",
  "Whenever robot_to_ur_inv_kin_parameters accepts a robot, the Universal Robots DH forward kinematics with the returned d1, a2, a3, d4, d5, d6 equals the robot's fwdkin (base and flange included, up to the fixed half turn of the base frame) for every joint vector, in both the +x and the -x alignment and wherever along a wrist axis the offset is placed. "
  "A robot not of this form is rejected with an error.",
  ["inputs", "configurations"], "all accepted robots and joint vectors", "One UR5e file in one alignment is tested.",
  [TS], [("parameter extraction", TS+":robot_to_ur_inv_kin_parameters")], ["tesseract.robot_to_ur_inv_kin_parameters"])

P("C33", "TesseractRobot methods relay the solver's answers in the right frames",
  "For every joint vector and link names, TesseractRobot.fwdkin returns the solver's pose of the tip link, relative to the base link when one is named; jacobian returns the solver's Jacobian with the angular rows above the linear rows; invkin passes the pose, tip link, working frame and seed to the solver and returns all its solutions. "
  "Conversion of a Transform to an Isometry3d and back is the identity, and the generated plugin configuration names the chosen solver, robot, base and tip with the robot's parameters.",
  ["inputs", "configurations"], "all joint vectors, link names, poses and solvers", "Tests only use default links and compare four joint vectors.",
  [TS], [("TesseractRobot", TS+":TesseractRobot"), ("conversions", TS+":transform_to_isometry3d"), ("plugin info", TS+":kinematics_plugin_info_dict")],
  ["tesseract.TesseractRobot"])

P("C34", "Random and identity transforms are valid rigid transforms",
  "For every outcome of the random source, random_R returns a proper rotation matrix, random_p a 3-vector in [0,1)^3 and random_transform a transform built from them; identity_transform is the neutral element of composition.",
  ["inputs"], "all outcomes of the random generator", "No test checks these; they are used as input generators in other tests.",
  [G], [("random_R", G+":random_R"), ("random_transform", G+":random_transform"), ("identity_transform", G+":identity_transform")],
  ["rox.random_R", "rox.random_transform", "rox.identity_transform"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
print(len(out))
