"""What each check explores; used for the evidence files and MANIFEST.json.  q/t: bounds of the quick and thorough tiers."""
NA = {}
COMMON = ["IEEE double arithmetic; the compiler and Eigen are trusted; values outside the stated grids and sequences beyond the stated depth are not covered"]
CHECKS = {}
def chk(id, level, technique, bounds, q, t, rule="", note="", **k):
    CHECKS[id] = dict(level=level, technique=technique, bounds=bounds, q=q, t=t, rule=rule, note=note, **k)

EX = "bounded-exhaustive enumeration of inputs on the real code against a reference model"
SEQ = "exhaustive exploration of operation sequences on the real code against a reference model"
MC = "model_checking"
XP = "exploration"
GRID = "a case is one point of the enumerated grid; executions are counted apart when their inputs or results differ after rounding to 1e-5"
GADGET = "problems are all sequences of gadgets (2D: pose with relative-pose, odometry or reversed factor, landmark, re-observation, loop, prior, anchored landmark; 3D: pose forward and reversed, landmark, plane, re-observations, loop, point-to-plane, prior) grown from one pose; node orders identity, reversed, interleaved, rotated; factors forwards and backwards"

chk("G01", XP, EX, "rotation vectors = directions x magnitudes (0, denormal, every decade from 1e-9 with offsets at 1e-5..1e-1 and around pi/2, pi, 2pi, 3pi, 4pi, up to 7.7e7 rad) x 10 translations up to 1e9",
    "integer directions up to 4 plus 10 skewed, 100 magnitudes per decade", "integer directions up to 7 plus 10 skewed, 300 magnitudes per decade", GRID)
chk("G02", XP, EX, "rotations from integer quaternions, exact and with rounding errors, rotations of every magnitude with the errors conjugations leave, and axis x angle grids through half a turn and beyond, x 10 translations",
    "quaternion components up to 8, 100 magnitudes per decade", "quaternion components up to 14, 300 magnitudes per decade", GRID)
chk("G03", MC, SEQ, "two registers, 5 initial pairs (generic, half turn, identity with 1e4 translation, tiny, equal) for SE3 and SO3; operations: product, mul, inverse, assignment, copy, rebuild from parts, exp of ln, left/right update with 3 twists, regenerate (also after drift), write through reference, every aliasing of operands; chains of 1000 updates",
    "all operations to depth 3, reduced operations to depth 4", "all operations to depth 3, reduced operations to depth 5", note="Operands and bystanders are compared bit by bit after every operation.")
chk("G04", XP, EX, "all T from integer quaternions x 10 translations; 17 twists; pairs of T; all pairs of 47 twists for the bracket",
    "quaternion components up to 3, 160 partners", "quaternion components up to 6, 600 partners", GRID)
chk("G05", XP, EX, "rotations x every single-entry, row, column, shear, unit-determinant stretch, reflection, scaling, swap, last-row one- and two-entry perturbation of 10 signed sizes, NaN entries; band between 1e-7 and 1e-5 undecided",
    "quaternion components up to 4", "quaternion components up to 8", GRID)
chk("G06", XP, EX, "integer quaternions x signs x scales (also within 1e-4 of one), roll-pitch-yaw triples (also within 1e-12 to 1e-4 of the gimbal lock and of half turns), twist grids", "quaternion components up to 6, 20 angles per decade, steps of 30 degrees", "quaternion components up to 12, 200 angles per decade, steps of 10 degrees", GRID)
chk("G07", XP, EX, "transformations x points x array lengths (all up to 300, some beyond 65536); all pairs for the metrics, with common right factors", "quaternion components up to 3, 250 partners", "quaternion components up to 6, 600 partners, longer arrays", GRID)
chk("G08", MC, SEQ, "poses x covariances (identity, anisotropic, correlated, singular, all from 1 down to 1e-9); every sequence of second- and fourth-order compoundings through every calling form", "depth 4, every pairwise correlation of the covariances", "depth 6",
    note="Reference: basis-free forms of the second and fourth order formulas (sums over ad(e_i)) in extended precision.")
chk("F01", XP, EX, "all nine factor types x states x observations, including residuals of every size from 1e-8 to 0.1 x node order x id gap x information matrix; planes passing as close as 1e-6 to the pose on either side; then 4 re-evaluations along a path of state changes", "21/33 poses per dimension", "poses from all integer quaternions up to 2", GRID)
chk("F02", XP, EX, "all nine factor types x states x observations, including residuals of every size from 1e-8 to 0.1 x node order x fresh/re-evaluated; every Jacobian entry against extended-precision central differences", "21/33 poses per dimension", "poses from all integer quaternions up to 2", GRID)
chk("F03", MC, SEQ, "three poses and a landmark, all insertion orders, 2-3 initial states, all sequences of initialising and non-initialising factors between all ordered pairs; targets that are nearly or exactly where the observation puts them", "depth 2", "depth 3, depth 4 for a reduced 2D alphabet", note="Every node that is not the target is compared bit by bit.")
chk("F04", MC, SEQ, "additions of free and anchored nodes and of unary, binary and ternary factors, re-additions, lookups and removals, on the sparse and dense graph; long chains per anchoring pattern", "depth 5 sparse, 4 dense", "depth 6 sparse, 5 dense")
chk("F05", MC, EX, GADGET + "; every word of up to two gadgets repeated to long problems, solved at once or while growing, up to several hundred state dimensions and factors; information matrices scaled by 2^20, 2^-20 and by factor; also grown while solving (every subset of growth points), and 2D with 3D problems in one graph; noise, information, kernel and anchor configurations", "3 gadgets, 5 configurations, 2 consecutive solves; repeated words of 7 and 17 gadgets", "4 gadgets, 10 configurations, 3 consecutive solves; repeated words (period up to 3) of 6 to 40 gadgets",
    note="A, W, information matrix, right-hand side and the step are compared with reference normal equations.")
chk("F06", MC, EX, GADGET + "; every non-empty proper subset of anchored variables (eight patterns on long problems); call scripts mixing Gauss-Newton, Newton-Raphson and both Levenberg-Marquardt variants, sparse and dense", "3 gadgets, 2 configurations; repeated words of 11 gadgets", "4 gadgets, 3 configurations; repeated words of 9 to 25 gadgets",
    note="The free variables are compared with the same problem in which anchored variables are constants inside wrapped factors; ill-posed cases (condition above 1e7) are skipped.")
chk("F07", MC, EX, GADGET + ", well posed or not (no prior, unobserved variable, single point-to-plane); far starts; dampings 0 to 1e8, limits 0 to 60, call scripts; long problems (repeated words) and scaled information matrices", "2 gadgets, 5 configurations; consistent problems with 3", "3 gadgets, 9 configurations; consistent problems with 4")
chk("F08", MC, EX, GADGET + "; all node orders (up to 4 or 5 variables), all factor orders (up to 3 or 4) or all rotations and reflections of the order; 14 planar, 4 rotational, 8 spatial motions of whole problems; three call scripts; long problems (repeated words) with reversed, interleaved, rotated orders", "3 gadgets", "4 gadgets")
chk("F09", XP, EX, "kernel x residual sizes around every switch x information matrix x all histories of two evaluations; every assignment of kernels to the factors of small problems, sparse and dense; 20 patterns of kernels on long problems and scaled information matrices", "2 gadgets", "3 gadgets", GRID)
chk("F10", MC, SEQ, "five node types: set, update, auxiliary set, update from auxiliary, save and restore with several increments, zero and from 1e-9 up; chains of 2000 updates; wrap_angle over all magnitudes up to 1e300 and non-finite", "depth 5 (4 for 3D poses)", "depth 6 (5)")
chk("F11", MC, SEQ, "every short sequence of queries inserted in every gap of every short sequence of growing, solving and state-changing operations, against the run without queries; also on a graph of 14 gadgets", "3 operations, 2 queries per gap", "4 operations, 3 queries per gap (2 after 3 operations)", note="States are compared bit by bit with the query-free execution.")
chk("F12", MC, EX, GADGET + "; gradient, Hessian, error, one Newton-Raphson step against reference normal equations and against the sparse solver; Levenberg-Marquardt scripts; long problems (up to several hundred state dimensions, more than 256 nodes) and scaled information matrices; steps from far starts", "3 gadgets", "4 gadgets")
chk("F13", MC, "explicit-state exploration of the optimiser under every sequence of environment answers, against a protocol model", "objective answers {worse, slightly worse, equal, below tolerance, above, gain ratios around 0.25 and 0.8, NaN, inf}, dimensions 1-6, dampings, limits, tolerances, one to three calls on one object; periodic answers up to limits of 333", "strings of length 4, periods up to 2", "strings of length 5 (limits up to 6), periods up to 3",
    note="Every virtual call of the optimiser is intercepted; step, damping, save, undo, acceptance, termination are compared with the model at every trial.")
chk("F14", MC, "exhaustive exploration of construction/solve/hold/destroy histories under address and undefined-behaviour sanitizers", GADGET + "; every assignment of acts {nothing, GN, LM, NR, query} to the growth points; 16 ways of keeping and releasing handles", "2 gadgets", "3 gadgets",
    variant="san", note="Bytes allocated before and after each history are compared exactly; weak references detect early and late release.")
chk("F15", MC, "explicit-state exploration of the sparse Levenberg-Marquardt under every sequence of errors reported by scripted factors, against a protocol model", "the answers of F13, one to three nodes, one or two factors, cost scales 3e-6 to 1e4, dampings, limits, tolerances, one or two calls; periodic answers up to limits of 333", "strings of length 4, periods up to 2", "strings of length 5, periods up to 3")
chk("P01", XP, EX, "all point sets of an integer lattice x rotations x translations x scales 1e-3..1e3 x offsets up to 1e6 sizes x permutations; mirrored and perturbed targets; every number of points up to a few hundred and around powers of two", "sets of up to 4 points", "sets of up to 6 points", GRID)
chk("P02", XP, EX, "lattice point sets x motions x weights {0,.5,1,4}; covariance assignments; permutations, duplications, scalings from 1e-16 to 1e14; every number of points up to a few hundred and around powers of two; the iteration protocol replayed one iteration at a time against a reference step, from near and far starts", "a fifth of the rotations, a quarter of the permuted cases", "all rotations and permutations", GRID)
chk("P03", XP, EX, "lattice point sets x rigid motions x permutations x scales and elongations up to 1e4; every number of points up to a few hundred and around powers of two", "up to 5 points", "up to 6 points", GRID)
chk("P04", MC, SEQ, "a plane accumulator with three time indices: pushes, clears, resets, trajectory changes, estimations, incremental evaluations, gradients, Hessians, tiny and exact-zero trajectory changes, reserve calls; every number of poses and points per pose of a grid", "depth 4", "depth 5")
chk("P05", MC, SEQ, "registrations of 3-5 planes over 2-4 poses with every pattern of up to two missing observations and of up to two unobserved poses: five solver modes, initialisation, reset, set trajectory, refill, further points, evaluation, with a fresh twin after every reset or refill; first-order solvers against an independent model, with step sizes up to 60, and undone steps; scenes whose initialisation fails; a registration reused for scenes of other sizes, up to 33 poses; convergence of repeated solves; derivative of the error", "all pairs of calls on every scene, triples on four", "more scenes, four calls on four")
chk("P06", XP, "exhaustive enumeration of sizes and clock values under a controlled clock", "points x planes x poses x clock seeds and steps x bias, handed over to fresh and used registrations; a cloud of 2^25 points; samplers over clock values", "10 x 7 x 5 sizes x 12 seeds", "22 x 13 x 8 sizes x 16 seeds", GRID)
chk("B01", MC, SEQ + ", through the Python module", "geometry functions on every array layout (C, F, transposed, slices, blocks, reversed, read-only, lists, other number types); all call sequences on a register file of module objects with watched and overwritten arrays; covariance compoundings; factor graphs grown by 20 gadgets, solved 8 ways, with default and explicit arguments and every kernel; registrations on all pairs of layouts; all call sequences on plane registrations",
    "call sequences of length 2-3, 2 gadgets", "call sequences of length 3-4, 3 gadgets", variant="py", harness="B01.py", note="Reference models in numpy, derivatives by central differences.  Sparse getters need scipy, which is not installed, and are not called.")
chk("C01", MC, SEQ + ", under a controlled clock", "two profilers: time passing by microseconds, milliseconds and months, starts, stops with and without a key, resets, copies, queries and printing; up to 70000 intervals", "depth 6", "depth 8")
