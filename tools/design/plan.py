PLAN = {
"C01": ("hat, invhat, screw_matrix over three or nine arbitrary reals; the postconditions are the definitions (hat(k) x = k x x, antisymmetry, invhat(hat(k)) = k, screw_matrix composition).", "normal forms, < 1 s"),
"C02": ("rot(k, theta) for every unit axis and real angle, axes as (3,), (3,1), list: equality with Rodrigues' formula, orthogonality, det 1, rot(k,a)rot(k,b) = rot(k,a+b), rot(k,-a) = transpose.", "normal forms, < 1 s"),
"C03": ("R2rot on every rotation: unit axis, angle in [0, pi], rot(k, theta) = R to 1e-5 in the two singular branches, exactly otherwise; axis branch by the largest diagonal element; with rounding error of the entries the result is never NaN.", "z3, intervals, 3 s"),
"C04": ("q2R of every unit quaternion is the rotation of the quaternion; q2R(rot2q(k, theta)) = rot(k, theta); unit norm.", "normal forms, < 1 s"),
"C05": ("R2q of the matrix of every unit quaternion is that quaternion or its negative, unit norm; the branch conditions bound every divisor.", "z3, 1 s"),
"C06": ("q2rot of every unit quaternion: unit axis, rot(k, theta) = q2R(q) within 1e-5 in the degenerate branch and exactly otherwise.", "z3, 1 s"),
"C07": ("quatcomplement, quatproduct (Hamilton product for arbitrary quaternions, conjugation, norms), quatjacobian as derivative of the exponential.", "normal forms, < 1 s"),
"C08": ("rpy2R is yaw-pitch-roll about fixed axes; R2rpy inverts it, and raises exactly when the first column has vanishing x and y components.", "z3, 1 s"),
"C09": ("slerp for all pairs of non-zero quaternions (normalised by the function), t outside [0,1] rejected: unit norm, end points, shorter arc (sign), constant angular speed, both formulas (nearly parallel branch within its tolerance).", "z3, intervals, 5 s"),
"C10": ("Transform product, inverse, identity, associativity, frames; result shapes for p given as (3,), (3,1).", "normal forms, 1 s"),
"C11": ("Robot.__init__ for any number of joints: accepts exactly unit axes, known types, matching lengths, ordered limits; stores what it is given. Quantified conditions with an arbitrary offending index.", "z3, integer arithmetic, 60 s"),
"C12": ("fwdkin: fold over N joints with invariant (R, p) = (R_k, p_k) of the recursion of chain.py, any joint types 0 to 3, all combinations of flange, tool, base, theta as list or array; limits rejected with an arbitrary offending index.", "normal forms, z3, 60 s"),
"C13": ("robotjacobian: the first loop keeps origins and axes of the recursion, the second the columns; lemma contracts prove by induction that these columns are the derivative of C12's recursion. Mobile base (two joints of type 3 and one of type 2) before an arm of any length.", "normal forms, 300 s of cpu"),
"C14": ("apply and unapply for all combinations of flange, tool, base: composition in the stated order; each undoes the other.", "normal forms, 1 s"),
"C15": ("subproblem0/1: rot(k, theta) p = q when a solution exists; least squares otherwise; p or q on the axis; preconditions rejected.", "z3, 5 s"),
"C16": ("subproblem2: soundness of every returned pair, completeness (0, 1 or 2 solutions by the discriminant), all branches.", "normal forms with certificates, z3, 20 s"),
"C17": ("subproblem3: |q - rot(k, theta) p| = d for every answer, all answers, none when unreachable.", "z3, 10 s"),
"C18": ("subproblem4: h . rot(k, theta) p = d for every answer, all answers, none when unreachable, degenerate cases.", "z3, 10 s"),
"C19": ("normalize_joints for scalar and tuple joints, any number of candidates: result within limits and equal modulo full turns for rotary joints, closest turn with last_joints, ordering by distance; both closed-form solvers obey limits and order for every result. Lists of candidates of unknown length are bags with an invariant over elements.", "z3, 40 s"),
"C20": ("robot6_sphericalwrist_invkin: every element of the returned list, put through fwdkin, gives the pose. Callee contracts give facts about angles; the rotation algebra closes the chain.", "rotation algebra, 60 s"),
"C21": ("ur_invkin, the same scheme, both alignments.", "rotation algebra, 60 s"),
"C22": ("Transform.__eq__ and isclose for every pair of transforms: true exactly when every element is within 1e-8 + 1e-6 |B| (==), within tol and never beyond tol + 1e-5 |B| (isclose); frames do not take part.", "z3, 3 s"),
"C23": ("equivalent_configurations for any number of joints, given configurations and turns: every result is a variant that was not given (invariant over elements), every missing variant is in the result (a ghost variant tau followed through the loops), order by last_joints.", "z3, integer arithmetic, 60 s"),
"C24": ("iterative_invkin, any number of joints (types 0, 1) and iterations: iteration invariant; convergence is reported only when the last pose error is within the tolerances, the returned joints are the ones checked, within limits, joints of the seed's length. Nothing is assumed of the steps taken.", "z3, 30 s"),
"C25": ("frame conditions: the contracts of C01 to C24 are run with all arguments frozen and every function monitored for writes, also through views and aliases.", "evaluation on every path, 150 s"),
"C26": ("the URDF loader for chains of any number of joints, kinds and optional entries; ghost functions C(k), R(k), A(k); the loop's invariant, then lemma contracts chain step and end of the chain give equality with the URDF composition. Choice of the tip: an iteration for an unusable link leaves the state as it was, before and after the usable one.", "z3, normal forms, 70 s"),
"C27": ("the Robot Raconteur loader for any number of chains, joints, joint_info entries: each property of the joint at an arbitrary index of the selected chain, names, tool, flange, rejections.", "integer arithmetic, 30 s"),
"C28": ("every msg2x and x2msg: fields, order, frame ids, round trips, for all rotations and vectors.", "z3, 5 s"),
"C29": ("each method of the listener wrapper: arguments relayed, result is the transform of the reported translation and quaternion, child and parent frames; nothing else called.", "evaluation, normal forms, 1 s"),
"C30": ("robot_to_scene_graph for any number of joints: two consecutive arbitrary iterations, first and last one; lemma contract gives equality with fwdkin; commands, names, prefix, base joint.", "integer arithmetic, normal forms, 35 s"),
"C31": ("robot_to_opw_inv_kin_parameters: what is accepted is within the tolerances of an ideal robot with exactly the returned parameters; ideal robots are accepted with theirs; fwdkin of an ideal robot is the OPW forward kinematics for all parameters and joints.", "z3, normal forms, 60 s"),
"C32": ("robot_to_ur_inv_kin_parameters, the same scheme with the DH product.", "z3, normal forms, 20 s"),
"C33": ("TesseractRobot methods and plugin configuration: what is passed to the solver and what is returned, in which frames, for all option combinations.", "normal forms, evaluation, 5 s"),
"C34": ("random_R, random_p, random_transform, identity_transform: proper rotations for every outcome of the generator.", "normal forms, z3, 1 s"),
}
