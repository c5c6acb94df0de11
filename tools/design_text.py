HEAD = r"""# How the properties of orocos_kinematics_dynamics are decided

Orocos KDL is a sequential numerical library: geometry, kinematic and dynamic models (chains and trees), solvers on them, and
motion planning pieces (profiles, paths, trajectories), with a Python module on top. It has no threads, files or protocol of
its own; what it has is *histories* (construction sequences, call sequences on solvers that keep state, aliasing, copying,
sharing) and *families of models and arguments* (every chain shape, joint type, singular or mis-sized argument). Model checking
fits as exhaustive exploration of bounded spaces of operation sequences, models and arguments **on the real code**, with an
independent reference model stepped alongside and compared after every step. One property (C35) is about interleavings and
uses a controlled scheduler with real threads.

## Machinery

**Explorer** (`harness/mc.hpp`). A harness is a set of *scenarios*. A scenario is a function that asks for choices
(`choose(n)`, `pick(alphabet)`); the explorer runs it once per path of the choice tree by depth-first search with
stateless replay, i.e. it executes the real library from scratch for every path. There is no sampling anywhere and no
random number: a run enumerates the whole tree within the bounds. The search is split over eight processes by prefix of choices.
Scenarios report *states* (hash of the abstract state after each step, counted as distinct states in the evidence), *transitions*
(operations executed) and *comparisons* (values checked against the oracle). Sequence scenarios that reach an abstract state
already seen with the same remaining depth are cut only where the state digest contains everything the continuation can depend on.

**Reference models** are written from the definitions and share no code with the library: `harness/ref.hpp` (plain 3x3/4x4
arrays, Rodrigues formula in long double, truncated power series = *jets* for exact derivatives, Gaussian elimination, one-sided Jacobi singular values),
`kin.hpp` (segment kinds, chain alphabets and poses of joints on jets), `treeref.hpp` (map-based tree), `dyn.hpp` (Kane's
method on second-order jets of the reference kinematics, so that no recursion of the library is mirrored), `annot.hpp`,
`solvers.hpp` (one adapter per solver: make, call, settings, sizes), `paths.hpp` (a curve as end poses, centre, plane, turn).
So the "model" is bound to the code in the strongest way: each explored model trace *is* replayed against the implementation
while it is explored; the evidence's `traces_validated_against_impl` is the number of executions.

**Memory and termination.** Library and harness are compiled from /repo's working tree with AddressSanitizer, libstdc++
assertions, Eigen's NaN-initialisation of uninitialised matrices and pattern-initialisation of uninitialised locals, so reads
outside arguments and of unset values become visible differences or aborts. Each execution has a watchdog. A crash is
attributed to its choice path, which the process keeps in a mapped file.

**Driver** (`tools/run.py`). Rebuilds incrementally by content hash (copies of /repo with other mtimes are fine), compiles only the library sources a
harness was last seen to link (`tools/hints.json`; if linking fails because a change moved code, everything is compiled), runs
eight shards, merges, **replays every violation before reporting it** (not reproducible = no VIOLATION), writes `evidence/<id>.json`, and exits
0 or 1. `run.py replay FILE` re-executes a recorded choice path and prints the trace.

**Controlled scheduler** (`harness/sched_rt.cpp`, C35). The library is compiled with `-fsanitize=thread` but linked with
our own runtime instead of TSan's: each instrumented access calls into the scheduler, which passes a baton between two real threads
and records per 8-byte granule who read or wrote. Mutexes, once-flags, static guards and atomics are modelled.

**Tolerances.** Judging values, not bits: 1e-9 scale-aware by default, following conditioning where the operation is ill-conditioned, so that
refactorings (other summation order, other but correct branch) stay quiet. Planted bugs are orders of magnitude away.

No instrumentation hook in /repo was needed (MANIFEST hooks is empty); everything uses the public API. Repairs of genuine defects are the `fix:` commits
listed in `known-findings.txt`; no finding is left unrepaired, so no check prints KNOWN-FINDING.

## Properties

Quick/thorough times are exploration times on 8 cores, without the build (2–40 s the first time).
"""
DETAIL = {
"C01": dict(oracle="3x3 arrays; Rodrigues in long double; orthonormality residual 1e-12.", bounds="two variables, sequences of depth 4 (6); angles incl. multiples of a quarter turn, tiny and huge; 0.9 s.", why="tests sample a few random rotations and no aliased composition sequences."),
"C02": dict(oracle="the read-out rebuilt by reference formulas; documented ranges; axis and quaternion length.", bounds="angle grids with offsets 0, 1e-16..1e-3 around every singular value; 0.8 s (5 s).", why="failures sit on thresholds (trace near -1, pitch near a right angle) that random samples never meet.", notes="GetRotAngle's eps is loosened to 3e-6 next to a half turn, where the axis is ill-conditioned from the matrix; a first version demanded more (false alarm)."),
"C03": dict(oracle="homogeneous matrices, adjoint maps, DH as products of elementary transforms.", bounds="depth 3 (4) sequences; stiffness matrices with every component varied; 0.4 s.", why="aliasing and mixed sequences; the power identity for all pairs of an alphabet."),
"C04": dict(oracle="rotation vector by long-double log with the smallest angle; re-application.", bounds="all ordered pairs (about 100 orientations incl. perturbations 1e-3..1e-12 and near half turns); 0.6 s.", why="opposite and nearly equal orientations are singular points of the logarithm."),
"C05": dict(oracle="2x2/3x3 matrices and angle arithmetic.", bounds="depth 2 (4); 0.3 s.", why="the planar types have hardly any tests."),
"C06": dict(oracle="the same formula evaluated on first-order jets; finite differences are not used.", bounds="all operand mixtures x motions; depth 3 (4); 0.4 s.", why="about 60 operators with plain/annotated mixtures, few are tested."),
"C07": dict(oracle="second-order jets.", bounds="as C06; 0.4 s.", why="frameacc has almost no tests."),
"C08": dict(oracle="truncated power series after each of 37 operations; nested types by multivariate series.", bounds="depth 3 (4), 6 start values, 3.3 million executions, 12 s.", why="compound assignments with aliased operands only go wrong in derivatives.", notes="tolerance scales with the magnitude of intermediate results; pow at base 0 and arguments where tanh overflows are outside the alphabet (false alarms of a first version)."),
"C09": dict(oracle="component differences against eps in each direction, five tolerances.", bounds="18 types, 0.8 s.", why="a comparison that forgets one component passes every test that compares equal things."),
"C10": dict(oracle="printed value compared with the object; documented exceptions; position of the stream; ASan.", bounds="every truncation and one-character change of every notation, all token strings to length 3 (4); 6 s (20 s).", why="bad input is unbounded; buffer overruns need words of exact lengths.", notes='"RPY" directly followed by "ZERO" without separator is one word to the reader and is excluded (harness slip).'),
"C11": dict(oracle="rotations and translations on jets.", bounds="all types x 10 axes x origins x scales x offsets x values x tips, edits to depth 3 (4); 2 s.", why="offset and scale interact with the tip frame only in combinations tests do not make.", notes="a first version compared names the constructors do not take (harness slip)."),
"C12": dict(oracle="std::vector of segment descriptions.", bounds="15 operations, depth 5 (6), 406 000 sequences; 9 s (110 s).", why="history property: aliasing, self-append, self-assignment."),
"C13": dict(oracle="map-based tree model (parent, children order, joint number, kinematics).", bounds="35 operations, depth 4 (5), all shapes of 4 (5) segments: 1.4 million sequences, 45 s (26 min).", why="history property; refused operations and renumbering on copy need particular sequences.", notes="a refused chain or tree may leave its first segments hooked; only a refused single segment must change nothing."),
"C14": dict(oracle="reference tree on jets between the two segments.", bounds="all trees of 3 (4) segments over the kinds, subtrees received by an empty tree, an unrelated one, one with the same names and the tree itself; 9 s (70 s).", why="up-going chains with every joint type.", notes="taking a subtree into its own tree read freed segments (repaired); the Python binding's empty chain on failure is as documented."),
"C15": dict(oracle="product of segment poses on jets.", bounds="all chains of length 3 (4) over 13 kinds and long shapes; 1.4 s.", why="prefixes x fixed segments x both overloads."),
"C16": dict(oracle="derivative of the reference pose by jets, per column.", bounds="all lock patterns x prefixes for chains of up to 3 (4) segments; all sequences of changes of base/point/frame in three forms; 4 s (141 s).", why="lock patterns and prefixes are combinatorial."),
"C17": dict(oracle="mixed second derivative by polarised jets.", bounds="as C16 with three representations; 15 s (100 s).", why="representations x prefixes x locks."),
"C18": dict(oracle="one-sided Jacobi pseudo-inverse / damped inverse in the weighted metrics; singular values.", bounds="all chains of 2 (3) segments + long shapes, 5 postures on one solver; 21 s (90 s).", why="chains with fewer than six joints, singular postures, warm starts.", notes="configurations with a singular value within a factor of the cut-off are only checked for bounded results; for the code the documented meaning (degraded when singular) is used."),
"C19": dict(oracle="pose recomputed by the reference; error in the documented metric; history: same request on a fresh solver.", bounds="24 targets in turn on every configuration; 28 s (73 s).", why="success claims have to hold for every start, limit and iteration bound.", notes="LMA measures rotation through diff(), whose dead band near zero makes 2e-6*L of slack necessary; the warm-started givens solver is excluded from exact comparison of histories (its iterates legitimately depend on the last decomposition)."),
"C20": dict(oracle="reference tree + chain solvers on extracted chains.", bounds="all hookings of 3 (4) segments, all shapes of 5 (7); 3 s (80 s).", why="build order and copying change joint numbers."),
"C21": dict(oracle="one-sided Jacobi reference of the stacked weighted damped system; limits recomputed by the reference.", bounds="trees of up to 2 (3) segments over the kinds and four two-armed bodies, three steps of the online solver; 36 s (240 s).", why="limits interact: joint speed, position and Cartesian speed together with several endpoints.", notes="rotation dead band slack 2e-6 per endpoint; a third of the start vectors is passed in place (q_out is q_init); convergence of easy targets only demanded for eps >= 1e-6; a missing endpoint in v_in is refused (-2); endpoints not given hold still; weight rows follow the alphabetical order of endpoints (std::map)."),
"C22": dict(oracle="Kane's method on second-order jets; kinetic energy.", bounds="all chains of 3 (4) segments + long shapes, 3 s (13 s).", why="mass distributions x fixed segments x wrenches on each segment."),
"C23": dict(oracle="results put back into Kane's equations; constraint accelerations on jets; RK4 by the classical tableau on the reference.", bounds="chains of up to 3 (4) segments for forward dynamics, 1 to 8 joints for the hybrid solver; 17 s (108 s).", why="active constraint subsets, prestress and skew axes.", notes="fresh solvers are also made under the deprecated name ChainIdSolver_Vereshchagin; the hybrid solver also gets chains with fixed segments (repaired); constraint-met is demanded only where all active constraints are independent; the sign and frame of the reported constraint torques follow the header."),
"C24": dict(oracle="Kane's method on the reference tree.", bounds="trees of 3 (4) segments over the kinds, shapes of 5 (6); 9 s (120 s).", why="every tree shape, subset of wrenches, growth under the solver."),
"C25": dict(oracle="first-order observer run on the reference mechanics; the wrench that acts.", bounds="sequences of eight calls to depth 4 (6); 18 s (447 s).", why="state leaking between runs needs restart sequences.", notes="during motion the discretised observer has a residual of the order of the sampling step, bounded by it; without setInitialMomentum the first call is only checked at standstill."),
"C26": dict(oracle="6x6 matrices and congruences.", bounds="depth 4 (5) over 11 operations; 5 s (66 s).", why="articulated inertias are not rigid: terms that coincide for rigid bodies."),
"C27": dict(oracle="product of factors, orthonormality, one-sided Jacobi singular values.", bounds="280 000 matrices and sequences; 40-65 s (290 s).", why="rank deficiency, graded and repeated singular values, iteration bounds, warm start.", notes="statement narrowed: columns of U for zero singular values are only demanded to be finite for the Householder routine (it returns zeros there as documented); Macie's is checked in its documented precision."),
"C28": dict(oracle="documented codes; getError; strError; fresh solver for the next correct call; ASan.", bounds="all mis-size combinations for 17 solvers x 5 shapes, call sequences of depth 3 (4); 2.5 s (25 s; depth 5 is too deep).", why="each argument of each call one too short and one too long, in sequence.", notes="setWeights/setOptPos/setJointLimits do not report NOT_UP_TO_DATE (documented as size mismatch) and this is not claimed; the givens solver's warm start is given tolerance."),
"C29": dict(oracle="a solver newly made for the present model with extended settings.", bounds="model edits and calls to depth 3 (4); 10 s (138 s).", why="pure history property.", notes="reworded: forward kinematics keep no storage and answer at once. A slip in the TreeId adapter's update call was corrected."),
"C30": dict(oracle="closed-form shortest durations, monotony, difference quotients.", bounds="settings, limits and clones to depth 4 (5); 6 s (57 s).", why="limits, backward and zero moves after other settings.", notes="a Dirac profile moves at an instant (duration 0) and only its ends are checked; splines do not hold outside [0,T]."),
"C31": dict(oracle="curve described as end poses, centre, plane and turn; release counters.", bounds="rounded way points at sizes 1e-3 to 1e3 and corners from 1e-9 to 1.2; sequences of adding, asking and cloning to depth 5 (6), rounded paths of up to 4 (5) points; 20 s (116 s).", why="every radius/angle/equivalent radius combination, going back and forth across parts.", notes="pieces of length zero have no defined direction (only speed 0 is checked); at the end of a cyclic path the speed may be that of the start."),
"C32": dict(oracle="path description evaluated at profile values; release counters.", bounds="sequences of adding, emptying and cloning to depth 4 (6); 5 s (113 s).", why="composites of composites at their seams, after emptying.", notes="rounding at part ends accepts either part; a segment read back is one with the profile's limits over the whole path, and composite/stationary texts are write-only in the library."),
"C33": dict(oracle="element-wise arithmetic on plain arrays.", bounds="sizes to 16, sequences to depth 3 (4); 1 s (23 s).", why="all aliasing patterns of operand and result.", notes="resize may keep or drop old values (a stricter reading led to fix 8ee89e0, which broke the estimator and was narrowed by c0f12a0); new columns after Jacobian::resize and vector==result for the inertia product are not claimed."),
"C34": dict(oracle="the C++ expression for the same operation, compiled into c34_oracle.so and called by ctypes on the same numbers.", bounds="about 600 operations x alphabets = 11 558 calls; copies; reference histories of depth 3 (4); 204 operations called by name, by position, in reversed order and with defaults left out; 30 s (150 s) + 30 s build.", why="the bindings are a second, hand-written interface with lifetimes of its own.", notes="pickle protocols 0 and 1 are not supported by pybind11; functions with Eigen arguments need numpy, which is not installed; JntArray/Jacobian have no copy/pickle; mis-sized Add etc. is not claimed. solver_references first compared with a single first call; givens' warm start made that a false alarm, now a second solver is called as often."),
"C35": dict(oracle="each solver alone on a private copy; digest of the model.", bounds="every pair of 17 chain solvers + readers (3 chains, 13 in thorough), 6 tree solvers + readers; schedules to 2 (3) preemptions, 150 (2500) schedules per pair; 7 s (43 s) + 14 s build.", why="interleavings.", notes="on the present tree the only contested data is Eigen's cache-size static (all its schedules explored), so pairwise independence extends to any number of solvers. Sequential consistency is assumed. Checked with scratch mutants: unsynchronised caches in Joint, FK and ID solvers are caught, thread_local scratch and mutex-protected or atomic statics stay quiet. One Path_Composite shared by two threads (its lookup caches) is not claimed."),
"C36": dict(oracle="parts that count their destruction, a model of who owns what, allocation counters.", bounds="14 kinds of objects (owning and lent), sequences of 3 (5) actions on three objects; 17 chain solvers on 5 chains with sequences of 3 (4) right, wrong and mis-sized calls, updates and settings; 6 tree solvers on all trees of 3; sequences of 4 (5) of 13 model edits; 9 s + 17 s build.", why="the order of deleting and the refused construction decide, not the values.", notes="a clone of a line or segment with lent parts shares these parts (written so in the code): they stay with the caller. A solver may grow at its first calls; from the second round of the same calls on it may not."),
"C37": dict(oracle="ranges, orthonormality and distinctness; the random source (rand) is replaced by the checker's.", bounds="12 types x plain/positive; 2 to 6 outcomes of each draw (up to 12 draws), 26 000 combinations; 5 s.", why="the ends of the range of the random source.", notes="a library drawing from another source than rand() would still be held to ranges and orthonormality, not to distinctness; rotations are compared through angles."),
"C38": dict(oracle="words and numbers picked from the text, whatever is between them; the model as the library's accessors show it (C11 to C13 decide these).", bounds="13 segment kinds, chains of up to 3 (4), all shapes of trees of up to 5 (6) with every element, 4 separators x 3 preambles x 2 levels, arrays of up to 4 (5), matrices of up to 9 (13); 2 s + 8 s build.", why="texts of nested and branched models.", notes="layout is free; numbers in joint-space containers are read at the default precision, since their columns are as wide as that (at higher precision they touch)."),
"C39": dict(oracle="the tables, entered again, on the reference kinematics and Kane's method.", bounds="3^6 + 2^7 (5^6 + 4^7) joint vectors; 8 (27) postures x moving x accelerated joint x 3 gravities; 1 s + 7 s build.", why="the models have no tests.", notes="compared to 1e-6, the precision of the tables; the number of segments is free."),
}
TAIL = r"""## Mutation campaign

None of this is part of the registered checks; it is how they were hardened.

- Besides the hand-planted changes in `seeded/`, single-token mutants of the library sources (relations, operators, constants,
  swapped members, removed statements, inverted conditions) were run against the quick checks of their files, and survivors examined one by one.
  Gaps found that way were closed (small-angle and small-size ladders in C01, C02, C04-C07, C11, C15-C18, C20, C22-C24; new C36-C39).
  What survives is equivalent or outside the claims: `<` against `<=` on measure-zero boundaries, factors of epsilon in dead bands
  that the statements leave open, unreachable return codes, assertions.
- Three lists of "tricky" changes (about 120: stale caches after growth, aliasing, wrong reference point only for some joint
  kinds, resets forgotten on a second call) were run too; the misses led to the nearly straight postures and subsets of endpoints of C21, the
  read-outs of C19, the repeated settings of C30 and the turns beyond a half of C31.
- A build with `-ffp-contract=fast -mfma` was used to find tolerances too tight for an equivalent evaluation order
  (C19 and C30 were widened) and showed a genuine defect (C32).
- A coverage build (gcov) of all quick checks reached 96 % of the lines; the rest was listed and closed in C03, C10, C18, C19, C21,
  C25, C28, C30, C31 and C38 where a claim applies. What remains is dead code and assertions.

## Corrected false alarms

Listed under "Read as" of the property concerned. Rules followed: an alarm on the unchanged tree was either shown against the real code
with a concrete input (then repaired by a `fix:` commit) or the check was corrected.

## Left out

- Bit-exactness across compilers, performance, and numerical error growth beyond the stated tolerances.
- `rallNd.h` and nested `LinComb` (do not compile, unused); `Frame2::Integrate` (declared, not defined).
- Eigen-typed Python calls (numpy is missing here).
- The example and model programs (they are demonstrations); ROS-specific packaging.
"""
