#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the texts stay readable)."""
import json, os
S = "orocos_kdl/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith(("orocos", "python")) else S + f for f in files],
                          "mechanism": [{"name": n, "where": w if w.startswith(("orocos", "python")) else S + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("C01", "Rotations stay rotations and obey matrix algebra",
  "Every rotation made from angles, an axis and an angle, a unit quaternion or three orthonormal axes is orthonormal with determinant +1 and equals its textbook matrix; a rotation about a vector of zero length is the identity. Composition, inversion and application to vectors, twists and wrenches agree with 3x3 matrix algebra over any sequence of operations. In-place and aliased forms give the same result as the pure ones.",
  ["inputs", "histories"], "all axes and angles, all sequences of composing, inverting and in-place operations",
  "The unit tests check a few angles and a single composition; closure and aliasing over arbitrary operation sequences is never explored.",
  ["frames.hpp", "frames.inl", "frames.cpp"], [("rotation constructors and products", "frames.cpp"), ("in-place rotations DoRotX/Y/Z", "frames.inl")])
p("C02", "Rotation read-outs reproduce the rotation",
  "Reading a rotation as roll-pitch-yaw, Euler ZYZ, Euler ZYX, quaternion or axis-and-angle and rebuilding it from the numbers read gives the same rotation, for every rotation including gimbal lock, half turns and turns near zero. The angles read lie in their documented ranges, at gimbal lock the documented free angle is zero, and the quaternion and the axis have unit length.",
  ["inputs"], "all rotations, in particular the singular ones and those near them",
  "framestest samples a handful of angle triples and mostly checks one convention at a time; the singular branches and their borders are hit by a few literal cases only.",
  ["frames.hpp", "frames.cpp"], [("GetRPY/GetEulerZYZ/GetQuaternion/GetRotAngle branch on singularities", "frames.cpp")])
p("C03", "Frames, vectors, twists and wrenches transform consistently",
  "Frames compose, invert and act on points as 4x4 homogeneous matrices (and export that matrix), and act on twists and wrenches as the adjoint and co-adjoint maps, so that transforming back restores the operand and the power of a wrench on a twist does not depend on the frame or reference point. Changing a reference point and the spatial cross products follow the standard definitions, Denavit-Hartenberg constructors equal their elementary products, and vectors, twists and wrenches form vector spaces with index access, norm, normalisation and placing 2D vectors into planes as documented. A diagonal stiffness answers a displacement twist by the product per component, and its inverse undoes it.",
  ["inputs", "histories"], "all frames, points, twists, wrenches and compositions of them",
  "Tests evaluate a few numeric examples; the algebraic laws hold only if they hold for every combination of operand and operator.",
  ["frames.hpp", "frames.inl", "frames.cpp"], [("Frame * Twist/Wrench, RefPoint, Inverse", "frames.inl"), ("DH, DH_Craig1989, Make4x4, Norm", "frames.cpp")])
p("C04", "Pose difference and increment are inverse to each other",
  "Adding to a vector, rotation, frame, twist or wrench the difference between it and another one yields the other one, for every pair and every time step, including opposite orientations and nearly equal ones. The rotational difference is the axis times the smallest angle of the relative rotation expressed in the common base, and differences are antisymmetric except at half turns. Integrating a constant twist over one period moves a frame by exactly the displacement and rotation the twist states in the frame.",
  ["inputs"], "all pairs of poses and all time steps",
  "The tests check diff/addDelta on one or two generic pairs with unit time step.",
  ["frames.hpp", "frames.inl"], [("diff / addDelta / Integrate", "frames.inl")])
p("C05", "Planar types agree with the corresponding spatial ones",
  "Two-dimensional vectors, rotations and frames behave as their spatial counterparts restricted to a plane: element access, application, composition, inversion, angle read-out, 3x3 matrix view and equality all give the numbers of the 2x2 or 3x3 matrix they represent. Projecting a spatial vector into the XY, YZ, ZX or an arbitrary frame's plane and lifting a planar vector back are the documented projections.",
  ["inputs"], "all planar vectors, angles and frames and all compositions",
  "The planar types are practically untested.",
  ["frames.hpp", "frames.inl"], [("Vector2 / Rotation2 / Frame2 members", "frames.inl")])
p("C06", "Velocity-annotated geometry is differentiated exactly",
  "Every operation on vectors, rotations, frames and twists that carry a velocity returns the value of the plain operation together with its exact first time derivative, whatever mixture of plain and velocity-carrying operands is used. Differences and increments of such objects are inverse to each other, twist read-outs are the twist of the motion, and comparisons look at both value and derivative.",
  ["inputs"], "all operations, operand mixtures and motions",
  "Only a few operations and one operand mixture are covered by framestest; several operations have no test.",
  ["framevel.hpp", "framevel.inl"], [("operators of VectorVel/RotationVel/FrameVel/TwistVel", "framevel.inl"), ("diff/addDelta overloads", "framevel.hpp")])
p("C07", "Acceleration-annotated geometry is differentiated exactly twice",
  "Every operation on vectors, rotations, frames and twists that carry velocity and acceleration returns the value of the plain operation with its exact first and second time derivatives, whatever mixture of plain and annotated operands is used. Angular acceleration is the derivative of angular velocity, and the twist and acceleration-twist read-outs are those of the motion.",
  ["inputs"], "all operations, operand mixtures and motions",
  "The acceleration layer has no stable test at all.",
  ["frameacc.hpp", "frameacc.inl"], [("operators of VectorAcc/RotationAcc/FrameAcc/TwistAcc", "frameacc.inl")])
p("C08", "Differentiating scalars follow the chain rule",
  "Arithmetic, compound assignment and elementary functions of first-order and second-order differentiating scalars give the value of the plain computation with exactly its first (and second) derivative, for any composition of operations and for nested differentiation. Compound assignments, including those whose operand is the target itself, agree with the corresponding binary operators.",
  ["inputs", "programs"], "all expressions over the operations, all arguments",
  "Derivative formulas are only meaningful for all arguments; the existing jacobian tests use a few functions and one-variable tests are not part of the stable suite.",
  ["utilities/rall1d.h", "utilities/rall2d.h"], [("Rall1d operators and functions", "utilities/rall1d.h"), ("Rall2d operators and functions", "utilities/rall2d.h")])
p("C09", "Equality, inequality and hashing are coherent",
  "Equality with a tolerance is reflexive and symmetric and holds exactly when every component differs by less than the tolerance, for each geometric and each velocity-annotated type; the equality operator is that comparison with the library's default tolerance and the inequality operator is its negation. Objects with identical component values hash identically, and a change of any single component makes objects unequal.",
  ["inputs"], "all types, all single-component differences around the tolerance",
  "Tests compare a few equal and unequal objects, not each component of each type.",
  ["frames.hpp", "frames.inl", "framevel.hpp", "framevel.inl", "utilities/hash_combine.h"], [("Equal / operator== / std::hash", "frames.inl")])
p("C10", "Geometric text I/O round-trips and survives bad input",
  "Every vector, rotation, frame, twist, wrench and planar object printed to a stream is read back as an equal object, in each documented input notation (including degree-valued ones), leaving the stream right behind it. For every truncated, over-long or otherwise malformed text the reader terminates and either succeeds or reports an error through its documented exception, and never touches memory outside its buffers. An expected wording is accepted exactly when the text starts with it, and each error tells the kind and the description it was made with.",
  ["inputs", "fault_sequences"], "all objects and all short token strings, truncation points and over-long words",
  "iotest is not part of the stable suite and feeds well-formed texts only.",
  ["frames_io.hpp", "frames_io.cpp", "utilities/utility_io.cxx", "utilities/error_stack.cxx"], [("EatWord / Eat / EatEnd", "utilities/utility_io.cxx"), ("operator>>", "frames_io.cpp"), ("IOTrace stack", "utilities/error_stack.cxx")])
p("C11", "Joints and segments move as their type prescribes",
  "For each joint type, axis, origin, scale and offset the pose of a joint is the stated rotation or translation by scale times the joint value plus offset, and its twist is the time derivative of that pose; a fixed joint never moves. A segment's pose at joint value zero is the tip frame it was given (also after the tip frame is replaced), its twist is the derivative of its pose at the tip, and copies and assignments behave like the original; a joint type that needs an axis, or must not have one, is rejected.",
  ["inputs"], "all joint types, axes, scales, offsets, values and tip frames",
  "kinfamtest covers each type once, mostly with unit scale and zero offset.",
  ["joint.hpp", "joint.cpp", "segment.hpp", "segment.cpp"], [("Joint::pose/twist", "joint.cpp"), ("tip stored relative to pose(0)", "segment.cpp")])
p("C12", "A chain is exactly the list of segments put into it",
  "After any sequence of appending segments and chains (a chain appended to itself included), copying, assigning (also to itself) and editing segments, a chain holds exactly the segments appended, in order, and its joint and segment counts equal the number of moving joints and of segments. Copies are independent of the original.",
  ["histories"], "all sequences of container operations up to a depth",
  "kinfamtest builds one chain and one copy.",
  ["chain.hpp", "chain.cpp"], [("addSegment/addChain/operator=", "chain.cpp")])
p("C13", "A tree keeps its structure under any construction history",
  "After any sequence of hooking segments, chains and trees (successful or refused), copying and assigning (also to itself), a tree holds exactly the segments hooked, each with the right parent, children and kinematics; every moving joint has its own number and the numbers are 0 to n-1 in order of addition. Hooking to an unknown segment or under a name already in use is refused and a refused single segment leaves the tree unchanged. A copy is independent of the original and numbers its joints exactly like the original.",
  ["histories", "fault_sequences"], "all sequences of tree operations over a small name set, including failing ones",
  "kinfamtest builds one tree in one order; copies are only compared by counts.",
  ["tree.hpp", "tree.cpp"], [("addSegment/addChain/addTree/operator=", "tree.cpp"), ("joint numbering", "tree.cpp")])
p("C14", "Extracted chains and subtrees have the tree's kinematics",
  "The chain extracted between any two segments of a tree, in either direction and across the common ancestor, has for every joint configuration the same end-to-end pose (and the same motion when a joint moves) as the tree itself between these segments; the subtree below a segment has the same poses relative to it, whatever tree receives it (one already filled, or the very tree it is taken from). Extraction with an unknown name fails, succeeds for every pair of existing ones, and never changes a tree that is not itself the result.",
  ["inputs", "configurations"], "all tree shapes up to a size, all joint types, all pairs of segments, all joint values",
  "kinfamtest checks names and counts of a few extracted chains, not their kinematics, and no scaled joint.",
  ["tree.hpp", "tree.cpp"], [("getChain reverses segments above the common ancestor", "tree.cpp"), ("getSubTree", "tree.cpp")])
p("C15", "Chain forward kinematics equals the product of its segments",
  "For every chain and joint vector the position solver returns the product of the segment poses up to the requested segment, for each segment number and for all segments at once, and the velocity solver returns the same pose with the exact time derivative of that pose. The result for a prefix does not depend on what follows it.",
  ["inputs", "configurations"], "all chain shapes up to a size over all joint types, all segment numbers and joint values",
  "solvertest samples four arms and a few random joint vectors, and compares position and velocity solvers with each other only.",
  ["chainfksolverpos_recursive.cpp", "chainfksolvervel_recursive.cpp"], [("JntToCart sweeps", "chainfksolverpos_recursive.cpp")])
p("C16", "The chain Jacobian is the derivative of the pose",
  "For every chain, segment number and joint vector the Jacobian maps joint velocities to the twist of that segment's tip in the base frame, with zero columns for joints beyond the segment; locked joints are left out and the other columns are unchanged. Changing base, reference point or reference frame of a Jacobian transforms each column as a twist, in place or not, and mismatched sizes are refused.",
  ["inputs", "configurations"], "all chain shapes up to a size, all lock patterns, segment numbers, joint values and frame changes",
  "The tests compare two solvers on random samples of few arms; lock patterns and segment numbers are hardly touched.",
  ["chainjnttojacsolver.cpp", "jacobian.cpp"], [("JntToJac and locked joints", "chainjnttojacsolver.cpp"), ("changeBase/RefPoint/RefFrame", "jacobian.cpp")])
p("C17", "The Jacobian derivative is the time derivative of the Jacobian",
  "In the hybrid, body-fixed and inertial representation, for every chain, segment number, joint position and velocity, the returned matrix is the time derivative of the Jacobian in that representation, and the returned twist is that matrix times the joint velocity. With locked joints it is the derivative of the Jacobian of the unlocked joints while the locked ones do not move.",
  ["inputs", "configurations"], "all chain shapes up to a size, three representations, lock patterns, joint positions and velocities",
  "jacobiandottest uses a finite-difference comparison with coarse tolerance on two arms.",
  ["chainjnttojacdotsolver.cpp"], [("getPartialDerivative* and JntToJacDot", "chainjnttojacdotsolver.cpp")])
p("C18", "Velocity inverse kinematics is the (weighted, damped) least-squares inverse",
  "On every chain and configuration where no singular value lies near the cut-off, the velocity inverse solvers return joint velocities that reproduce the wanted twist as well as possible and have minimal norm among those; the weighted damped solver does so in the metrics of its joint and task weights with the documented damping, and the null-space optimising one adds only motion that does not change the end-effector twist and moves toward the preferred posture. The success, degraded or error code returned reflects whether the configuration is singular, and singular-value read-outs are those of the Jacobian.",
  ["inputs", "configurations"], "all chain shapes with two to eight joints, configurations regular and singular, twists, weights",
  "solvertest checks a few random samples on full-rank six- and seven-joint arms; fewer joints, singular arms and weights are mostly absent.",
  ["chainiksolvervel_pinv.cpp", "chainiksolvervel_wdls.cpp", "chainiksolvervel_pinv_givens.cpp", "chainiksolvervel_pinv_nso.cpp"],
  [("SVD based inverse", "chainiksolvervel_pinv.cpp"), ("damping", "chainiksolvervel_wdls.cpp"), ("null-space term", "chainiksolvervel_pinv_nso.cpp")])
p("C19", "Position inverse kinematics never claims a wrong solution",
  "Whenever a position inverse solver reports success, the pose reached by its answer equals the requested pose within its tolerance, and the limit-aware solver's answer lies within the joint limits in every outcome. Requests that cannot be met are reported as failures within the iteration bound, a start at the solution succeeds at once, and the answer does not depend on earlier calls.",
  ["inputs", "configurations", "histories"], "all small chains, start configurations, reachable and unreachable targets, limits and iteration bounds",
  "solvertest only checks that random reachable targets are mostly solved.",
  ["chainiksolverpos_nr.cpp", "chainiksolverpos_nr_jl.cpp", "chainiksolverpos_lma.cpp"], [("termination test", "chainiksolverpos_nr.cpp"), ("clamping to limits", "chainiksolverpos_nr_jl.cpp"), ("Levenberg-Marquardt loop", "chainiksolverpos_lma.cpp")])
p("C20", "Tree kinematics agrees with the chains inside the tree",
  "For every tree, segment and joint vector the tree position solver returns the pose of the chain from root to that segment evaluated at the same joints, and the tree Jacobian has that chain's Jacobian in the columns of its joints and zeros elsewhere. This holds regardless of the order in which the tree was built or copied; unknown segments and wrong sizes are reported.",
  ["inputs", "configurations"], "all tree shapes up to a size, build orders, segments and joint values",
  "solvertest has no stable test of the tree kinematics solvers beyond one smoke test.",
  ["treefksolverpos_recursive.cpp", "treejnttojacsolver.cpp"], [("recursion to the root", "treefksolverpos_recursive.cpp"), ("column numbering", "treejnttojacsolver.cpp")])
p("C21", "Tree inverse kinematics reaches its targets within its limits",
  "The tree velocity solver returns the weighted damped least-squares joint velocity for the endpoint twists it is given, and the tree position solver reports success only when every given endpoint is at its target and joints are within limits. The online solver's step never lets a joint leave its position limits, exceed its speed limits, nor ask an endpoint for more than the Cartesian speed limits, the results may be written over the start, and unknown endpoints and wrong sizes are reported.",
  ["inputs", "configurations", "histories"], "small trees with one to three endpoints, targets, limits, weights and call sequences",
  "No stable test exercises the tree inverse solvers.",
  ["treeiksolvervel_wdls.cpp", "treeiksolverpos_nr_jl.cpp", "treeiksolverpos_online.cpp"], [("weighted SVD", "treeiksolvervel_wdls.cpp"), ("limit enforcement", "treeiksolverpos_online.cpp")])
p("C22", "Chain dynamics obeys the equations of motion",
  "For every chain the inverse dynamics torques equal those of Newton-Euler mechanics for the given motion, gravity, joint inertias and external wrenches (given in the segments' tip frames), and they decompose as inertia matrix times acceleration plus Coriolis term plus gravity term. The inertia matrix is symmetric, gives the kinetic energy of the moving bodies, and the Coriolis and gravity terms vanish at zero velocity and zero gravity respectively.",
  ["inputs", "configurations"], "all chain shapes up to a size over all joint types, motions, gravity vectors, mass distributions and external wrenches",
  "solvertest compares hard-coded numbers for one planar arm and one LWR posture.",
  ["chainidsolver_recursive_newton_euler.cpp", "chaindynparam.cpp"], [("recursive sweeps", "chainidsolver_recursive_newton_euler.cpp"), ("composite inertias", "chaindynparam.cpp")])
p("C23", "Forward and hybrid dynamics invert the inverse dynamics",
  "Forward dynamics returns the joint accelerations for which inverse dynamics returns the applied torques. Its integration routine takes the classical fourth-order Runge-Kutta step. The constrained hybrid solver (with or without fixed segments, away from singular sets of constraints) returns accelerations that satisfy the imposed acceleration constraints at the tip and equal the Newton-Euler motion under the applied torques plus constraint forces of the reported magnitudes at the tip; without active constraints it equals forward dynamics, and its read-outs (link accelerations, joint torques, constraint magnitudes) are consistent with the result. The hybrid solver's old class name stands for the same solver.",
  ["inputs", "configurations"], "all chain shapes up to a size, torques, external wrenches, constraint sets and accelerations",
  "solvertest integrates three fixed scenarios and compares recorded numbers.",
  ["chainfdsolver_recursive_newton_euler.cpp", "chainhdsolver_vereshchagin.cpp"], [("LDL solve of H qdd = tau - C", "chainfdsolver_recursive_newton_euler.cpp"), ("acceleration-energy sweeps", "chainhdsolver_vereshchagin.cpp")])
p("C24", "Tree inverse dynamics equals Newton-Euler mechanics of the whole tree",
  "For every tree, whatever its branching, build order and fixed segments, the joint torques returned equal those of Newton-Euler mechanics for all bodies of the tree with gravity, joint inertias and external wrenches on any subset of segments, each torque under its joint's number; on a tree that is a chain they equal the chain solver's.",
  ["inputs", "configurations"], "all tree shapes up to a size, build orders, motions, wrench maps",
  "treeinvdyntest covers one robot and one branch structure.",
  ["treeidsolver_recursive_newton_euler.cpp"], [("rne_step recursion", "treeidsolver_recursive_newton_euler.cpp")])
p("C25", "The external wrench estimator converges to the applied wrench",
  "For a chain held or moving with consistent joint torques the estimator's read-out stays at zero when nothing external acts and converges to the joint torques and the end-effector wrench of a constant external wrench at the configured rate, for every chain, posture, sampling rate and gain. Setting the initial momentum restarts the estimate, and nothing of an earlier run leaks into the new one.",
  ["inputs", "histories"], "chains with one to seven joints, postures, wrenches, rates, gains and call sequences",
  "solvertest runs one arm in three postures.",
  ["chainexternalwrenchestimator.cpp"], [("momentum observer", "chainexternalwrenchestimator.cpp")])
p("C26", "Inertias transform and add like rigid bodies",
  "Rotational, rigid-body and articulated inertias are linear: sums, multiples and transformations by rotation, frame or reference point equal the corresponding matrix congruences, so kinetic energy and momentum are the same in every frame. Mass, centre of mass and inertia about it are read back as given (and after transforming, as transformed), and mixed sums of rigid-body and articulated inertias are the matrix sums.",
  ["inputs"], "all masses, centres, inertia tensors, frames and compositions",
  "inertiatest checks two or three random instances of a few operations.",
  ["rotationalinertia.cpp", "rigidbodyinertia.cpp", "articulatedbodyinertia.cpp", "rigidbodyinertia.hpp", "articulatedbodyinertia.hpp"], [("frame transformations", "rigidbodyinertia.cpp"), ("articulated inertia transformations", "articulatedbodyinertia.cpp")])
p("C27", "Matrix decompositions reconstruct their input",
  "Each singular value decomposition routine, for every matrix of every shape it accepts (rank-deficient, zero, repeated singular values, badly scaled), returns factors whose product is the input with orthonormal columns (of U: those of non-zero singular values) and non-negative singular values, and reports when it did not converge. The LDL solver returns the factors and the solution of the symmetric positive definite system and refuses mismatched sizes.",
  ["inputs"], "all matrices over a small entry alphabet in all shapes up to a size, plus structured larger ones",
  "One random matrix shape is tested.",
  ["utilities/svd_HH.cpp", "utilities/svd_eigen_HH.cpp", "utilities/svd_eigen_Macie.cpp", "utilities/ldl_solver_eigen.cpp"], [("Golub-Reinsch iterations", "utilities/svd_eigen_HH.cpp"), ("Givens update", "utilities/svd_eigen_Macie.cpp")])
p("C28", "Solvers report errors consistently and refuse mis-sized arguments",
  "Every solver call returns a code that its error read-out repeats, with a text for every code; zero means success and nothing else does. A call with any wrongly sized input or output, or a segment number out of range, is refused with the documented code and without touching memory outside the arguments, and the next correct call works normally; an overload that a solver does not offer says so.",
  ["fault_sequences", "histories"], "all solvers, all sequences of correct and wrong calls up to a depth, sizes one below and above each expected size",
  "solvertest checks codes for a few solvers and sizes in one fixed order.",
  ["solveri.hpp", "chainfksolver.hpp", "chainiksolver.hpp"], [("error member and E_* codes", "solveri.hpp")])
p("C29", "Solvers follow their model and forget earlier calls",
  "When the number of joints of the chain or tree a solver refers to has changed, a solver whose storage depends on it refuses each call as not up to date until it is updated; solvers without such storage (forward kinematics) answer for the changed model at once. After the update every result equals that of a solver newly made for the changed model with the same settings (those of new joints at their defaults), whatever was called before, including failed calls, growth and shrinking. On an unchanged model results depend only on the arguments and the solver's settings, never on earlier calls.",
  ["histories"], "all sequences of model edits, updates and calls up to a depth, for every solver",
  "solvertest updates each solver once after one growth and checks only the return codes.",
  ["solveri.hpp", "chainiksolvervel_wdls.cpp", "chainjnttojacdotsolver.cpp", "chainhdsolver_vereshchagin.cpp"], [("updateInternalDataStructures", "solveri.hpp")])
p("C30", "Velocity profiles keep their motion laws",
  "Every velocity profile set with admissible arguments starts and ends at the requested positions, holds before and after (polynomial splines meet the requested speeds and accelerations at both ends instead), has a non-negative finite duration, and its velocity and acceleration, where it has them, are the derivatives of its position; speed and acceleration stay within the limits and the duration is the shortest possible when set without one and the requested one when that is longer. This holds for zero-length and backward moves, after any sequence of earlier settings and limits, and for clones, which are unaffected by later changes of the original. Profiles written out and read back have the same kind and limits.",
  ["inputs", "histories"], "all profile kinds, limits, moves and durations, and all sequences of settings up to a depth",
  "velocityprofiletest checks a few samples per profile kind with mostly forward moves.",
  ["velocityprofile_trap.cpp", "velocityprofile_traphalf.cpp", "velocityprofile_rect.cpp", "velocityprofile_dirac.cpp", "velocityprofile_spline.cpp"], [("SetProfile/SetProfileDuration", "velocityprofile_trap.cpp"), ("Clone", "velocityprofile_trap.cpp")])
p("C31", "Paths are continuous curves with the stated geometry",
  "Each path (line, circle, point, composite, rounded composite, cyclic) runs from its start to its end pose along the curve it describes, continuously, with position, velocity and acceleration mutually consistent as derivatives with respect to path length and time; its length parameter agrees with its length conversion, composite lookup maps every parameter to the right part, and the number of segments and lengths up to each are right. Clones and paths written out and read back describe the same curve, ill-posed requests are reported by the documented exception and change nothing, and everything handed over is released exactly once.",
  ["inputs", "histories"], "path kinds, poses, radii and compositions over a small alphabet, all query orders up to a depth",
  "There is no stable test of any path.",
  ["path_line.cpp", "path_circle.cpp", "path_composite.cpp", "path_roundedcomposite.cpp", "path_cyclic_closed.cpp", "path_point.cpp", "path.cpp", "rotational_interpolation_sa.cpp"], [("Pos/Vel/Acc", "path_circle.cpp"), ("Lookup with cached segment", "path_composite.cpp"), ("rounding", "path_roundedcomposite.cpp"), ("Read/Write", "path.cpp")])
p("C32", "Trajectories compose path and timing faithfully",
  "A trajectory's pose at any time is the path evaluated at the velocity profile's position, its velocity and acceleration are the time derivatives of that pose, and a composite runs its parts one after the other with a total duration equal to the sum, holding before and after, also after being emptied and refilled; it never leaves the path, however long the way or the duration. A clone describes the same motion, a segment written out and read back runs along the same path at the limits of the same profile, stationary ones stand still for their duration, and everything handed over is released exactly once.",
  ["inputs", "histories"], "paths, profiles and sequences of parts over a small alphabet, all time samples",
  "There is no stable test of any trajectory.",
  ["trajectory_segment.cpp", "trajectory_composite.cpp", "trajectory_stationary.hpp", "trajectory.cpp"], [("Pos/Vel/Acc", "trajectory_segment.cpp"), ("part lookup", "trajectory_composite.cpp")])
p("C33", "Joint-space containers are vector spaces of the right size",
  "Joint arrays (with and without velocity and acceleration), joint-space inertia matrices and Jacobians have the size they were given, start and are reset to zero, copy and assign by value and keep value and derivative parts apart. Sums, differences, multiples, quotients and products with scalars (plain or differentiating), Jacobians and inertia matrices equal the element-wise computation, also when the output is one of the operands (but the vector multiplied by an inertia matrix), a change of reference point, base or frame acts on each column and refuses another number of columns, and equality compares sizes and all elements.",
  ["inputs", "histories"], "sizes zero to eight, all operations and operand aliasing patterns, operation sequences up to a depth",
  "Tests use two or three sizes without aliasing.",
  ["jntarray.cpp", "jntarrayvel.cpp", "jntarrayacc.cpp", "jntspaceinertiamatrix.cpp", "jacobian.cpp"], [("Add/Subtract/Multiply/Divide", "jntarrayacc.cpp")])
p("C34", "The Python module computes what the C++ library computes",
  "Each function, operator and constructor reachable from Python gives the value the library's definition gives for the same arguments, arguments given by their documented names (in any order) and arguments left out mean what the C++ parameters and defaults mean, out-of-range indices raise an index error for every container, and copies, deep copies and pickles of geometric objects equal the original and are independent of it. Objects that refer to others (solvers to chains and to other solvers) keep working when Python drops its other references.",
  ["inputs", "histories"], "all bound types and operations over a small value alphabet, all orders of dropping references",
  "The Python tests check a subset of operators on a few values and keep all objects alive.",
  ["python_orocos_kdl/PyKDL/frames.cpp", "python_orocos_kdl/PyKDL/framevel.cpp", "python_orocos_kdl/PyKDL/kinfam.cpp", "python_orocos_kdl/PyKDL/dynamics.cpp"], [("bindings", "python_orocos_kdl/PyKDL/kinfam.cpp")])
p("C35", "A model can be shared by solvers in concurrent threads",
  "Any number of solvers may work on one chain or tree at the same time, each solver used by one thread: for every interleaving their calls end and give the same results as when the solver works alone, before or after the others. Using a solver, or reading and copying the model, never changes the chain or the tree.",
  ["schedules"], "all interleavings of two solvers' calls on one shared model",
  "No test uses threads or checks that models are left untouched.",
  ["chain.hpp", "tree.hpp", "joint.cpp", "segment.cpp"], [("const access to model data without hidden caches", "joint.cpp")])
p("C36", "What is handed over is released once, nothing is left behind",
  "A path or trajectory destroys the parts handed over to it exactly once, when it is destroyed or emptied itself and also when its construction is refused; parts that are only lent to it are never destroyed by it. Clones, nested and joined objects keep their motion whatever happens to the objects they came from; only clones of lines and segments that were lent parts share these parts. Whatever the library allocates while chains, trees and solvers are built, copied, assigned, extended, used (rightly or wrongly) and updated is released with them, using a solver again and again with the same arguments needs no further memory, and reading a valid text leaves the trace of the text readers as it was.",
  ["inputs", "histories"], "all sequences of making, cloning, nesting, extending and deleting on three objects to a depth, all solvers with all call sequences to a depth, all sequences of model edits to a depth",
  "Tests never look at what is released, and refused constructions and deletions in another order are not tested.",
  ["path_line.cpp", "path_circle.cpp", "path_composite.cpp", "path_roundedcomposite.cpp", "path_cyclic_closed.cpp", "trajectory_segment.cpp", "trajectory_composite.cpp", "velocityprofile_trap.cpp", "tree.cpp", "chain.cpp", "utilities/error_stack.cxx", "utilities/scoped_ptr.hpp"], [("aggregate flag", "path_line.cpp"), ("refused construction", "trajectory_segment.cpp"), ("copying trees", "tree.cpp")])
p("C37", "Random draws are valid whatever the random source returns",
  "Whatever the random source returns, at the ends of its range too, a drawn number, vector, twist, wrench or quantity with rates has coordinates between -1 and 1, each drawn on its own; positive draws and stiffnesses are positive and at most one, also the position of a frame and the rates of a rotation; and every rotation or frame drawn contains a proper orthonormal rotation. Nothing of the previous value remains.",
  ["inputs"], "all outcomes of every draw over an alphabet with both ends of the range, for all types",
  "Tests use random objects as inputs and never meet the ends of the range.",
  ["utilities/utility.h", "frames.inl", "framevel.hpp", "stiffness.hpp"], [("random/posrandom of numbers", "utilities/utility.h"), ("random rotations", "frames.inl")])
p("C38", "What is printed names everything the object holds, in order",
  "A printed joint shows its name, type, axis and origin, a segment its name, joint and frame to the tip, a chain all its segments in order, and a printed tree (or subtree) every segment once, depth first, with the joint numbers of those that move; the text form of a tree has one line per segment, with the preamble and one separator per level. Printed joint arrays, Jacobians and joint-space inertia matrices of any size show all their numbers row by row, and quantities with velocity and acceleration their value followed by the derivatives, exact when the stream asks for all digits. A written composite trajectory says how many parts it has and names them in order with their poses, durations and limits, and a written polynomial profile its six coefficients, lowest degree first. Printing leaves the stream's settings alone.",
  ["inputs"], "all joint kinds, chains and tree shapes up to a size, all separators, preambles and levels of an alphabet, all container sizes up to a bound",
  "No test reads what is printed of a model.",
  ["kinfam_io.cpp", "framevel_io.hpp", "frameacc_io.hpp", "utilities/rall1d_io.h", "utilities/rall2d_io.h"], [("operator<< and tree2str", "kinfam_io.cpp")])
p("C39", "The shipped robot models are the robots of their tables",
  "The chains of the Puma 560 and of the KUKA LWR that the model library returns have six and seven joints, put the tip for every joint vector where their Denavit-Hartenberg tables put it, and need for every motion and gravity the joint torques that the tabulated masses, centres of mass and inertias need. Each call returns a model of its own.",
  ["configurations"], "joint vectors on a grid, all combinations of postures, moving and accelerated joints and gravities",
  "No test uses the models.",
  ["orocos_kdl/models/puma560.cpp", "orocos_kdl/models/kukaLWR_DHnew.cpp"], [("Puma560", "orocos_kdl/models/puma560.cpp"), ("KukaLWR_DHnew", "orocos_kdl/models/kukaLWR_DHnew.cpp")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
