# property id -> how it is checked
def h(name, flags="asan", extra=(), **kw):
    d = {"name": name, "flags": flags, "src": [name + ".cpp"] + (["sched_rt.cpp"] if flags == "sched" else []), "extra": list(extra)}
    d.update(kw)
    return d


CHECKS = {
    "C01": {"harness": [h("c01_rotation")], "explanation":
            "Exhaustive: every choice of angle, axis, quaternion and rotation pair of the alphabet, and every sequence of 12 operations "
            "on two rotation variables to the depth bound; after each operation the real object is compared with plain 3x3 matrices."},
    "C02": {"harness": [h("c02_conversions")], "explanation":
            'Exhaustive over a grid of angle triples placed on, next to and away from every singular value, all axis/angle pairs of an alphabet, the cube group with exact and signed-zero entries, and a quaternion grid: every read-out is rebuilt by the reference and compared, ranges and conventions included. Tolerances follow the conditioning of the read-out.'},
    "C03": {"harness": [h("c03_frames")], "explanation":
            'Exhaustive: all sequences of seven compose/invert/alias operations on two frame variables to the depth bound, and all combinations of frames, points, twists, wrenches, scalars and DH parameters from alphabets with zero, unit, quarter-turn and generic values; every operator is compared with plain matrix and cross-product formulas.'},
    "C04": {"harness": [h("c04_diff")], "explanation":
            'Exhaustive over all ordered pairs of an orientation alphabet (identity, quarter, half and generic turns about six axes), small perturbations and near-half-turns of each, positions, steps and integration counts; differences are re-applied and compared with rotation vectors computed by the reference.'},
    "C05": {"harness": [h("c05_planar")], "explanation":
            'Exhaustive: all sequences of eight operations on two planar frames to the depth bound over an angle alphabet, all planar vectors of an alphabet with all scalar factors, and all projections; compared with angle arithmetic and 2x2/3x3 matrices.'},
    "C06": {"harness": [h("c06_framevel")], "explanation":
            'Exhaustive over all combinations of motions (value, velocity) from alphabets and all sequences of seven operations on two moving frames to the depth bound: every operator with every mixture of plain and annotated operands is compared with the same formula on jets (truncated power series).'},
    "C07": {"harness": [h("c07_frameacc")], "explanation":
            'As C06 with second derivatives: every operator with every mixture of plain and annotated operands is compared with the same formula on second-order jets, exhaustively over alphabets of motions and over all operation sequences to the depth bound.'},
    "C08": {"harness": [h("c08_rall")], "explanation":
            'Exhaustive over all sequences (to the depth bound) of 37 operations - compound assignments with another variable, itself or a scalar, binary operators and elementary functions - on two variables of first-order, second-order and nested differentiating scalars, from six start values each; compared with truncated power series after every operation.'},
    "C09": {"harness": [h("c09_equal")], "explanation":
            'Exhaustive: for each of 18 value types, every base object, every single component, every difference below/at/above each of five tolerances in both directions, and all-components-close patterns; the comparison functions, the operators (also with a changed default tolerance), mixed plain/annotated comparisons and the hash of rebuilt objects are checked.'},
    "C10": {"harness": [h("c10_io")], "explanation":
            'Exhaustive: all sequences of three printed objects of eight types with separators; each documented notation with each filler (space, comment styles) at each gap, letter case and continuation; every truncation and every single-character change of each notation; all token strings to the length bound for each reader; all word/buffer lengths; all operation sequences on the error trace. Every read runs under AddressSanitizer with a watchdog.'},
    "C11": {"harness": [h("c11_joint_segment")], "explanation":
            'Exhaustive over all joint types, constructors, ten axes, origins, scales, offsets, joint values and tip frames; poses and twists are compared with rotations and translations evaluated on jets; every type is offered to every constructor; all sequences of eight edits (assignment, self-assignment, swap, new tip, new inertia) on two segments to the depth bound.'},
    "C12": {"harness": [h("c12_chain")], "explanation":
            'Exhaustive: every sequence of 15 container operations (adding each kind of segment, an own segment, the other chain or itself; copying, assigning, self-assignment, editing) on two chains to the depth bound; after each operation both chains are compared with lists.'},
    "C13": {"harness": [h("c13_tree")], "explanation":
            'Exhaustive: every sequence of 35 construction operations (hooking segments, chains and trees, accepted and refused; copying, assigning, self-assignment, swapping, emptying) on two trees to the depth bound, and every shape of up to four (five) segments with moving and fixed joints; structure, iterators, numbering and kinematics are compared with a map-based model after each operation.'},
    "C14": {"harness": [h("c14_extract")], "explanation":
            'Exhaustive: every tree of up to three (four) segments with every combination of segment kinds and every shape of five (six) segments with rotating kind patterns; for every ordered pair of segments the extracted chain is evaluated at generic joint values and with each joint moving, against the reference tree on jets; every subtree; unknown names; the tree is compared bit by bit before and after.'},
    "C15": {"harness": [h("c15_fk")], "explanation":
            'Exhaustive: every chain of up to three (four) segments over thirteen segment kinds (all joint types, scales, offsets, fixed segments, coincident axes) and long shapes with every start, five joint vectors, two velocity vectors, every segment number and both overloads; compared with segment poses multiplied on jets.'},
    "C16": {"harness": [h("c16_jac")], "explanation":
            'Exhaustive: every chain of up to three (four) segments over the segment kinds and long shapes, four joint vectors, every segment number and every lock pattern, compared column by column with the derivative of the reference pose; all sequences of base, point and frame changes in three forms (member, separate, in place) to the depth bound; all size pairs.'},
    "C17": {"harness": [h("c17_jacdot")], "explanation":
            'Exhaustive: every chain of up to three (four) segments over the segment kinds and long shapes, three postures with velocities, three representations, every segment number and every lock pattern; compared with the mixed second derivative of the reference pose (polarised jets).'},
    "C27": {"harness": [h("c27_decomp", limit=15)], "explanation":
            'Exhaustive: every small matrix over an entry alphabet, every shape up to 6x8 (8x9) with nine singular-value patterns, four bases on either side, five scales and zeroed or repeated rows and columns, mixed row and column units, all Jacobians of the chain alphabet and their transposes, every iteration bound, every sequence of matrices for the warm-started routine, and all small positive definite systems; factors are multiplied back and singular values compared with a one-sided Jacobi reference.'},
    "C18": {"harness": [h("c18_ikvel")], "explanation":
            'Exhaustive: every chain of up to two (three) segments over the segment kinds and long shapes with every start, five postures in turn on one solver, nine twists, all combinations of weight kinds, cut-offs, dampings and null-space settings and every small iteration bound; compared with a one-sided Jacobi pseudo-inverse of the reference Jacobian.'},
    "C19": {"harness": [h("c19_ikpos")], "explanation":
            'Exhaustive: long shapes from several starts and every single segment (pair), four velocity solvers, iteration bounds, tolerances, five limit patterns, four task weights, 24 targets (itself, nearby, another posture, turned half round, far away, one millimetre off) in turn on one solver and each again on a fresh one; arms stretched to every degree of near-singularity with offsets around the tolerance; failing velocity solvers. Poses are recomputed by the reference.'},
    "C20": {"harness": [h("c20_treekin")], "explanation":
            'Exhaustive: every way to hook up to three (four) segments of the segment kinds together and every shape of five (seven) segments, handed to the solvers directly, as copies of copies, by assignment or with the solvers themselves copied, for every segment and several postures; trees assembled from segments, chains and trees at every hook; every wrong size and unknown names. Compared with the reference tree model and with the chain solvers on the extracted chains.'},
    "C21": {"harness": [h("c21_treeik")], "explanation":
            'Exhaustive: every tree of up to two (three) segments over the segment kinds with every pair of endpoints, and four bodies with two arms, all weight kinds and dampings, against a one-sided Jacobi reference; Newton-Raphson over limits, iteration bounds, tolerances, weights, every subset of endpoints and five kinds of targets in turn on one solver and again on a fresh one; failing solvers at every call; the online solver with a scripted velocity solver over all joint speeds, limits, distances and turns around the limits, and with the real one over three steps; every wrong size.'},
    "C22": {"harness": [h("c22_iddyn")], "explanation":
            "Exhaustive: every chain of up to three (four) segments over the segment kinds and long shapes with four distributions of mass, three postures, velocities, every single and one mixed acceleration, no wrench, one on each segment and all, three gravities, with refused calls in between; torques, inertia matrix, Coriolis and gravity terms and the kinetic energy are compared with Kane's method on second-order jets of the reference kinematics."},
    "C23": {"harness": [h("c23_fdhd")], "explanation":
            'Exhaustive: forward dynamics over the chains of C22 with every unit torque, wrenches and Runge-Kutta steps; the hybrid solver over chains of one to eight joints, every set of constrained axes, skew and inactive constraints, postures, velocities, torques, wrenches and base accelerations. Results are put back into the reference equations of motion (Kane on jets, Cholesky), constraints evaluated on the reference accelerations.'},
    "C24": {"harness": [h("c24_treeid")], "explanation":
            "Exhaustive: every tree of up to three (four) segments over the segment kinds, every shape of five (six), handed over directly, copied or grown under the solver, every subset of wrenches (each and all for bigger trees), motions, gravities and all wrong sizes, against Kane's method on jets of the reference tree; line trees against the chain solver."},
    "C25": {"harness": [h("c25_estimator")], "explanation":
            'Exhaustive: chains over the segment kinds and long shapes held in several postures under every component of a wrench and a mixed one, over rates, gains and filters; carried along smooth motions; every sequence of eight calls (restarts, calls in two postures, refused calls, updates, settings) to the depth bound. Compared with the observer run on the reference mechanics and with the wrench that acts.'},
    "C26": {"harness": [h("c26_inertia")], "explanation":
            'Exhaustive: all masses (zero and negative included), centres, inertia tensors and frames of alphabets, and every sequence of eleven operations (moving, turning, other points, multiples, sums and differences, mixed ones, aliased ones) on pairs of rigid and articulated inertias to the depth bound; the 6x6 matrix each acts as is compared with matrix congruences, and all read-outs with it.'},
    "C28": {"harness": [h("c28_errors")], "explanation":
            'Exhaustive: for seventeen solvers over five shapes, every combination of arguments one too short, right and one too long with every kind of segment number, every combination of mis-sized settings, weight matrices of all shapes, and every sequence of correct, mis-sized and out-of-range calls, updates and settings to the depth bound; codes, read-outs and texts are checked and each correct call is compared with a fresh solver. AddressSanitizer and assertions watch every access.'},
    "C29": {"harness": [h("c29_follow")], "explanation":
            'Exhaustive: for seventeen solvers, every sequence of model edits (a joint, a fixed segment, a chain added; emptied, shortened, replaced), updates, correct, mis-sized and out-of-range calls and settings to the depth bound over short, long and empty models, and every sequence of calls with every argument on unchanged models; after each call the result is compared with a solver newly made for the present model with the settings extended by their defaults, or must be the refusal.'},
    "C30": {"harness": [h("c30_profiles")], "explanation":
            'Exhaustive: five profile kinds over all pairs of positions, speed and acceleration limits, requested durations around the shortest one (also zero and negative) and fractions; polynomials over all boundary conditions; every sequence of settings, new limits, clones and going on with a clone to the depth bound, with all kept copies checked at the end; written out, read back and cut short at every character. End positions, holding, limits, duration (closed form), monotony, derivatives and speed continuity are checked on a grid of times.'},
    "C31": {"harness": [h("c31_paths")], "explanation":
            'Every line, circle, point, composite, rounded composite and cyclic path over an alphabet of poses, radii, planes, angles and equivalent radii, every sequence of adding, asking and cloning up to a depth, compared with an independent description of the curve at the ends and inside of every piece; refused requests, text, damaged text and releases'},
    "C32": {"harness": [h("c32_trajectories")], "explanation":
            'Every path of an alphabet with every velocity profile planned in every way (limits, slower, backward, partially, by duration), owned or not, and every sequence of adding parts, emptying and cloning a composite up to a depth, compared at all sampled times inside, at and outside the parts with the path description evaluated at the profile; stationary, text, damaged text, releases'},
    "C33": {"harness": [h("c33_containers")], "explanation":
            'Every operation on arrays (with and without rates), inertia matrices and Jacobians, every size up to a bound, every pattern of one object being operand and result, every factor of an alphabet, sequences of operations on shared arrays up to a depth, compared with element-wise arithmetic; lives (made, copied, resized, emptied) and equality per element'},
    "C35": {"harness": [h("c35_threads", flags="sched", limit=600)], "explanation":
            'Every pair of seventeen chain solvers, six tree solvers and plain readers on shared models runs in two real threads under a controlled scheduler that sees every memory access of the instrumented library; pairs without contested data have one class of interleavings, for the others the schedules that reorder conflicting accesses are explored breadth first to a preemption bound; results are compared with each thread alone, and the model with itself before'},
    "C34": {"harness": [h("c34_python", flags="py")], "explanation":
            'Every operation of the Python module (constructors with positional, keyword and default arguments, operators, in-place operators, functions, solvers over chains of all sizes with wrong sizes and segment numbers) over alphabets of values, against the library called directly on the same arguments; every index in and outside every container; every kind of copy at values that are hard to encode; every sequence of holding, writing, replacing, copying and dropping parts to the depth bound; every way and order of dropping the references to chains and solvers, under AddressSanitizer'},
    "C36": {"harness": [h("c36_owned")], "explanation":
            'Every sequence of making, cloning, nesting, joining, extending and deleting three objects (14 kinds, owning or lent parts, refused constructions) to the depth bound, with parts that count their destruction and a model of ownership; every sequence of calls, mis-sized calls, updates and settings of each solver and of edits of chains and trees, with allocation counters; every text kind with the trace of the readers.'},
    "C37": {"harness": [h("c37_random")], "explanation":
            'Every outcome of the random source (both ends of its range and values between) at every draw, for every type with a random function: the results are valid objects, in range, and every coordinate is drawn.'},
    "C38": {"harness": [h("c38_prints")], "explanation":
            'Every joint and segment kind, every chain and every tree shape to the size bounds, every element of it, separator, preamble and level, joint-space containers of every size and the types with derivatives: the words and numbers of the printed text are those of the object, each once and in order.'},
    "C39": {"harness": [h("c39_models")], "explanation":
            'Every joint vector on a grid for both robot models of the library, and every combination of posture, moving joint, accelerated joint and gravity: tip pose, joint torques and inertia matrix against the published tables.'},
}

NOT_APPLICABLE = {}
