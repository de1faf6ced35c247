import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
SO3,SE3,COV="src/geometry/SO3.cpp","src/geometry/SE3.cpp","src/geometry/SE3cov.cpp"
FG="src/FGraph/"
FS=FG+"factor_graph_solve.cpp"; FD=FG+"factor_graph_solve_dense.cpp"; GR=FG+"factor_graph.cpp"; FA=FG+"factors/"
PC="src/PCRegistration/"
FACTS=[FA+x for x in ["factor1Pose2d.cpp","factor2Poses2d.cpp","factor1Pose1Landmark2d.cpp","factor1Pose3d.cpp","factor2Poses3d.cpp","factor1Pose1Landmark3d.cpp","factor1Pose1Plane4d.cpp"]]+[PC+"factors/factor1PosePoint2Plane.cpp"]
NODES=[FA+x for x in ["nodePose2d.cpp","nodePose3d.cpp","nodeLandmark2d.cpp","nodeLandmark3d.cpp","nodePlane4d.cpp"]]

p("G01","Exponential map is exact and always yields a valid rotation or rigid motion",
 "Building a rotation from a 3-vector, or a rigid transformation from a 6-vector (rotation part first), gives the matrix exponential of that element for every direction and magnitude: zero, tiny, around half a turn, whole turns, many turns, and any translation size. The result is always a valid element (orthonormal, determinant +1, last row 0 0 0 1) and agrees with the true exponential to near machine precision relative to the size of the translation and of the angle.",
 ["inputs"],"all twists on a bounded grid: directions x magnitudes straddling every numerical threshold x translations",
 "The tests compare a few fixed vectors; series/closed-form switches, near-zero and near-pi formulas can be wrong in a band no sample falls into.",
 [SO3,SE3],[("Rodrigues formula with Taylor branch","SO3::exp in "+SO3),("V matrix with Taylor branch","SE3::exp in "+SE3)],["SO3(w).R()","SE3(xi).T()","SO3::exp","SE3::exp"])
p("G02","Logarithm is the principal inverse of the exponential for every rotation",
 "For every valid rotation or rigid transformation the logarithm returns the element whose exponential is that transformation, with a rotation part of norm at most pi, and for a twist whose rotation is shorter than pi it returns that same twist. The accuracy is near machine precision relative to the translation (1e-9 is always met), except within a millionth of a half turn, where the error stays below 1e-6 relative to the translation and at exactly half a turn either sign of the axis is correct; re-generating a transformation from its own logarithm therefore leaves it unchanged.",
 ["inputs"],"all rotations from small integer quaternions and all axis x angle grid points up to and beyond half a turn, crossed with translations",
 "The logarithm has four numerical branches and axis-selection cases (largest diagonal element, ties, sign recovery) that a handful of test vectors never combine.",
 [SO3,SE3],[("four-branch logarithm","SO3::ln in "+SO3),("inverse V with Taylor branch","SE3::ln in "+SE3),("regenerate","SE3::regenerate in "+SE3)],["SO3::ln","SO3::ln_vee","SE3::ln","SE3::ln_vee","SE3::regenerate"])
p("G03","Rotations and rigid motions follow group algebra through any operation sequence",
 "Composing, inverting, copying, assigning, updating from the left or from the right, and re-generating rotations and rigid transformations, in any order and with operands that may be the same object, gives exactly the group operation of the operand values (up to rounding), and the result is always a valid element. No operation modifies its operands or any other object: only the object being assigned or updated changes.",
 ["histories"],"all operation sequences up to a bounded depth over a register file of group elements, from several initial states",
 "Tests check one operation at a time on fresh objects; aliasing, accumulated state and order-of-multiplication mistakes need sequences.",
 [SO3,SE3],[("composition / inverse / updates","operator*, mul, inv, update_lhs, update_rhs, operator=, constructors in "+SO3+" and "+SE3)],["T()","R()","t()","ref2T()","ref2R()"])
p("G04","Adjoint relates left and right perturbations and is a group homomorphism",
 "For every transformation T and small or large twist x, T composed with Exp(x) equals Exp(Adj(T) x) composed with T, and the adjoint of a product is the product of the adjoints, of an inverse its inverse; the same holds for rotations. The 6x6 curly-wedge (the small adjoint) of a twist a applied to b is the Lie bracket [a,b], and its matrix exponential is the adjoint of Exp(a).",
 ["inputs"],"all pairs from bounded grids of transformations and twists",
 "A wrong block, sign or transpose in the adjoint is invisible for the identity, for symmetric rotations or for zero translations, which is what fixed test values tend to use.",
 [SO3,SE3,COV],[("adjoint","SE3::adj, SO3::adj"),("curly wedge","curly_wedge in "+COV)],["SE3::adj","SO3::adj","curly_wedge"])
p("G05","Validity predicates accept exactly the valid rotations and rigid motions",
 "The validity predicates return true for every 3x3 rotation matrix and every 4x4 rigid transformation, also after rounding errors well below 1e-7, and false for every matrix that clearly (by more than 1e-5) fails one of the conditions: orthonormal columns, determinant +1, last row 0 0 0 1. Reflections, scalings, shears of unit determinant, and last rows with positive, negative or cancelling errors are all rejected.",
 ["inputs"],"all rotations of a grid, with every single-entry and a set of structured perturbations of several signed sizes",
 "Tests try one valid and one or two invalid matrices; the predicate must be right for every kind of violation.",
 [SO3,SE3],[("isSO3","isSO3 in "+SO3),("isSE3","isSE3 in "+SE3)],["isSO3","isSE3"])
p("G06","Quaternion, roll-pitch-yaw, hat and vee conversions are exact and inverse",
 "Converting any non-zero quaternion (x,y,z,w order, any scale or sign) to a rotation gives the rotation of the normalised quaternion, converting a rotation to a quaternion gives a unit quaternion of that rotation, so both round trips return the same rotation; roll-pitch-yaw gives Rx(roll) Ry(pitch) Rz(yaw). Hat builds the skew-symmetric matrix (the 4x4 twist matrix) whose product with a vector is the cross product, and vee is its inverse.",
 ["inputs"],"all quaternions with small integer components (and scalings), all roll-pitch-yaw triples of a grid, all twists of a grid",
 "Trace-branch cases of the quaternion conversion and sign conventions of each axis are not covered by the tests at all.",
 [SO3,SE3],[("quaternion / rpy helpers","quat_to_so3, so3_to_quat, rpy_to_so3 in "+SO3),("hat/vee","hat3, vee3, hat6, vee6")],["quat_to_so3","so3_to_quat","rpy_to_so3","hat3","vee3","hat6","vee6"])
p("G07","Transforming points is a rigid action, and distances are consistent metrics",
 "Transforming a point equals R p + t, transforming an N-row array gives each row's transform in the same order for any N, composition acts as successive transformation, the inverse undoes it, and distances between points are preserved. The rotation, translation and full distances between two elements equal the norms of Ln(R R'^-1), of t - t', and of Ln(T T'^-1): they are zero for equal elements, symmetric, and unaffected by a common right-multiplication.",
 ["inputs"],"all pairs from grids of transformations, points and array lengths",
 "The tests transform one array with one transformation and never exercise the distance functions.",
 [SO3,SE3],[("point action","SE3::transform, SE3::transform_array"),("metrics","SE3::distance, distance_rotation, distance_trans, SO3::distance")],["SE3::transform","SE3::transform_array","SE3::distance*","SO3::distance"])
p("G08","Pose covariance compounding matches the second and fourth order formulas",
 "Compounding an uncertain pose with an uncertain increment, in any sequence of second-order and fourth-order operations, composes the poses and gives the covariance S1 + Adj S2 Adj' for second order and, for fourth order, that plus the symmetric fourth-order terms of the Baker-Campbell-Hausdorff expansion (Barfoot and Furgale 2014). The covariance stays symmetric, the operands are not modified, and all equivalent ways of requesting the operation (product, mul, pose-plus-covariance) agree.",
 ["histories","inputs"],"all sequences of compounding operations up to a bounded depth over grids of poses and (correlated, singular, anisotropic) covariances",
 "The tests compare a few literal covariance matrices, mostly diagonal or the identity; block and transpose mistakes in the fourth-order terms only show with correlated covariances.",
 [COV],[("second order","SE3Cov::compound_2nd_order"),("fourth order","SE3Cov::compound_4th_order and the bracket operators")],["SE3Cov::cov","SE3Cov::T","SE3Cov::compound_2nd_order","SE3Cov::compound_4th_order","SE3Cov::mul","SE3Cov::operator*"])

p("F01","Factor residuals and chi2 follow their observation model for any node order",
 "For every factor type, the residual evaluated at the current node states equals its documented model (angles wrapped, zero exactly when the states satisfy the observation) and its chi2 equals half the residual weighted by the information matrix, always for the states at the time of evaluation. Creating the nodes in the other order (origin or pose with a larger id than target or landmark) leaves chi2 unchanged, and the residual too up to a global sign.",
 ["inputs","histories"],"all combinations of grid states, observations, information matrices, node creation orders and id gaps, followed by state changes and re-evaluations",
 "The tests never look at a residual; they only run solvers on graphs that are built in one order.",
 FACTS,[("residual evaluation","evaluate_residuals, evaluate_chi2 of each factor"),("node ordering","factor constructors")],["Factor::get_residual","Factor::get_chi2","FGraphSolve::chi2"])
p("F02","Factor Jacobians are the derivatives of their residuals for every node",
 "For every factor type, node order and configuration, the Jacobian reported after evaluation is the derivative of the residual with respect to the update of each connected node (for planes: of the four homogeneous coordinates, before the normal is re-normalised), its blocks stored in increasing node-id order. For 3D pose residuals the derivative is taken in the tangent space of the residual transformation, which is the convention of this library.",
 ["inputs"],"all combinations of grid states, observations and node creation orders, for every column of every Jacobian",
 "Optimisers still converge (slowly) with wrong Jacobians, so end-to-end tests do not notice them.",
 FACTS,[("analytic Jacobians","evaluate_jacobians of each factor"),("node updates","update of each node")],["Factor::get_jacobian","Factor::get_residual","Node::update"])
p("F03","Creating a factor that initialises its target makes it match the observation",
 "When a relative-pose or odometry factor is created with the request to update its target node (or a 2D landmark factor with the request to initialise the landmark), the target takes the value predicted from the origin's current state and the observation, so that the new factor's residual is zero, whatever the origin's heading, the target's previous value and the order of ids. The origin, and without that request every node, keeps its state.",
 ["inputs","histories"],"all chains of up to a bounded number of initialising factors over grids of poses, observations and node orders",
 "Tests initialise targets only from the origin pose with zero heading and never look at the residual.",
 [FA+"factor2Poses2d.cpp",FA+"factor2Poses3d.cpp",FA+"factor1Pose1Landmark2d.cpp"],[("target initialisation","constructors of Factor2Poses2d, Factor2Poses2dOdom, Factor2Poses3d, Factor1Pose1Landmark2d")],["Node::get_state","Factor::get_residual"])
p("F04","The graph's bookkeeping matches the sequence of additions",
 "After any sequence of adding nodes (free or anchored) and factors, ids are consecutive in order of addition, nodes and factors are retrieved by their id, counts and state/observation dimensions are the sums over distinct free nodes and factors, every factor is listed exactly once by each node it connects, and estimated states are returned for all nodes in id order. Adding an element that is already there changes nothing, removing a factor from a node's list removes just that one (and reports when it is not there), and ids never handed out are rejected.",
 ["histories"],"all sequences of additions, re-additions, lookups and removals up to a bounded depth",
 "The tests build graphs in one fixed way and never query the structure.",
 [GR,FG+"node.cpp",FG+"factor.cpp",FS],[("add_node/add_factor","FGraph in "+GR),("neighbour lists","Node::add_factor, Node::rm_factor in "+FG+"node.cpp")],["FGraph::number_nodes","FGraph::number_factors","FGraph::get_node","FGraph::get_factor","get_dimension_state","get_dimension_obs","Node::get_neighbour_factors","FGraphSolve::get_estimated_state"],
 [("nodes_, active_nodes_, factors_","elements by id; free nodes","src/FGraph/mrob/factor_graph.hpp")])
p("F05","A Gauss-Newton solve applies exactly one step of the weighted normal equations",
 "On any well-posed graph mixing node and factor types, in any order of insertion, a Gauss-Newton solve moves every free node by minus the solution of the normal equations (A'WA) dx = A'Wr of the linearised problem at the previous state, and no other. The adjacency, W, information matrix and right-hand side it reports are those of that problem: A stacks the factor Jacobians by factor id, with columns of free nodes in id order, W the (robustly weighted) factor informations, and repeated solves use fresh linearisations.",
 ["inputs","histories"],"all small graphs over bounded topologies, node kinds, insertion orders, anchor choices and numbers of solves",
 "Tests only run the solver and print; a misplaced block still lets many graphs converge.",
 [FS],[("problem building","FGraphSolve::build_adjacency, build_info_adjacency"),("solve and update","optimize_gauss_newton, update_nodes")],["FGraphSolve::solve","get_estimated_state","get_adjacency_matrix","get_W_matrix","get_information_matrix","get_vector_b"])
p("F06","Anchored nodes never change, and act as constants in every solver",
 "A node added as an anchor keeps its exact state through any sequence of solves with any method, dense or sparse, wherever it stands in the insertion order. The free nodes are estimated exactly as if the anchored variable were a known constant, and the anchor contributes no columns to the problem.",
 ["configurations","histories"],"all subsets of anchored nodes of small graphs, all insertion orders and solver call sequences up to a bound",
 "Tests anchor at most the first node and do not compare states.",
 [FS,FD,GR],[("anchor skipping","build_adjacency in "+FS+", calculate_gradient_hessian in "+FD),("active nodes","add_node in "+GR)],["FGraphSolve::solve","FGraphSolveDense::solve","get_estimated_state"])
p("F07","Levenberg-Marquardt never makes the solution worse and converges when it can",
 "On any graph, a Levenberg-Marquardt solve returns with a total chi2 not larger than before (rejected steps are fully undone), performs at most the requested number of iterations (one if none is requested), and starts from the damping it was given. On consistent, well-posed graphs it reaches a stationary solution with chi2 near zero from any nearby start.",
 ["inputs","configurations"],"all small graphs x initial errors (including adversarially bad ones) x iteration limits x damping x tolerance",
 "Whether a step is rejected depends on the data; tests only see problems where every step succeeds.",
 [FS],[("trust-region loop","FGraphSolve::optimize_levenberg_marquardt"),("undo","synchronize_nodes_auxiliary_state, synchronize_nodes_state")],["FGraphSolve::solve","FGraphSolve::chi2","get_estimated_state"])
p("F08","Solutions do not depend on insertion order or on the global frame",
 "Solving the same problem with its nodes and factors inserted in any other order gives the same states for the same variables and the same chi2 (3D relative poses whose two nodes swap order agree up to second-order terms in their residual, exactly when the observations are consistent). Moving a problem (initial states and absolute observations) by a rigid motion moves the solution by it and leaves chi2 unchanged wherever the information matrices express no preferred frame: any 2D motion, any 3D rotation about the origin, and any 3D motion for consistent problems or landmark and point observations.",
 ["configurations","inputs"],"all permutations of nodes and factors of small 2D and 3D graphs, crossed with a grid of rigid motions",
 "It relates several runs of the system; no single test case shows it.",
 [FS,GR]+FACTS[:7],[("ordering","neighbour ordering in factor constructors, index maps in build_adjacency")],["FGraphSolve::solve","FGraphSolve::chi2","get_estimated_state"])
p("F09","Robust kernels weight each factor by its documented function of its own error",
 "A factor of residual r and information W enters the linearised problem with W scaled by the weight of its kernel at u = sqrt(r'Wr): 1 for quadratic, min(1, 1/u) for Huber, 1/(1+u^2) for Cauchy, 1/(1+u^2)^2 for McClure, and 1 below u = 1 and 0 above for Ransac. The weight depends only on the factor's own kernel and its current error, not on other factors, previous errors or order, and does not alter the reported residual or chi2.",
 ["inputs","histories"],"all kernels x error sizes straddling each switch x mixed-kernel graphs x sequences of state changes and solves",
 "No test uses a robust kernel.",
 [FG+"factor.cpp",FS,FD],[("weight function","Factor::evaluate_robust_weight"),("application","build_adjacency in "+FS+", calculate_gradient_hessian in "+FD)],["Factor::evaluate_robust_weight","get_W_matrix","FGraphSolve::solve"])
p("F10","Node states stay valid and exact through any history of updates and restores",
 "After any sequence of setting, updating, saving to and restoring from the auxiliary state, a node's state equals the reference composition of those operations: additive for landmarks, additive with the heading wrapped into [-pi, pi) for 2D poses, left-multiplied by the exponential for 3D poses, additive with the normal re-normalised for planes. Operations on the principal state never touch the auxiliary one nor vice versa, 3D states remain valid rigid motions, and wrapping terminates with an equivalent angle for every finite input, however large, and terminates for non-finite ones.",
 ["histories","inputs"],"all operation sequences up to a bounded depth per node type over a small set of increments, plus all angles of a grid across magnitudes",
 "The auxiliary state is only exercised when a solver rejects a step, and wrap-around only past half a turn.",
 NODES+[FG+"node.cpp"],[("updates","update, update_from_auxiliary, set_state, set_auxiliary_state of each node"),("wrap_angle","wrap_angle in "+FG+"node.cpp")],["Node::get_state","Node::get_auxiliary_state","wrap_angle"])
p("F11","Queries have no side effects on the estimate or the outcome of later calls",
 "Asking a graph for chi2 (re-evaluated or cached), per-factor chi2, states, matrices, sizes, elements, or printing it, any number of times and between any other calls, does not change any state, any later query result or the result of any later solve, except that cached chi2 values are those of the last evaluation; re-evaluated chi2 is the sum over factors at the current states. Returned states and matrices are copies: changing them does not change the graph.",
 ["histories"],"all sequences of queries up to a bounded length inserted at every point between construction and solver calls",
 "It is a statement about all interleavings of queries with other operations.",
 [FS,GR],[("queries","chi2, get_chi2_array, get_estimated_state, get_*_matrix, print")],["FGraphSolve::chi2","get_chi2_array","get_estimated_state","FGraph::print"])
p("F12","The dense solver solves the same problem as the sparse one",
 "For any graph, the gradient and Hessian of the dense solver are those of the weighted least-squares problem (A'Wr and A'WA over free nodes in id order), so one dense Newton-Raphson iteration moves the states as the sparse Gauss-Newton solve does. Both report the same total error, and running the dense Levenberg-Marquardt variants never increases it.",
 ["inputs","configurations"],"all small graphs over bounded topologies, insertion orders, anchors and robust kernels",
 "The dense solver is not covered by any test.",
 [FD,"src/common/optimizer.cpp"],[("assembly","FGraphSolveDense::calculate_gradient_hessian"),("update","update_state, bookkeep_state")],["FGraphSolveDense::solve","FGraphSolveDense::calculate_error","Node::get_state"])
p("F13","The generic optimiser follows its accept/reject protocol for any objective",
 "For any sequence of error values the objective may answer, Levenberg-Marquardt saves the state before each trial step, undoes exactly the trial steps that increased the error, doubles the damping after a rejected or poorly predicted step (gain ratio below 0.25) and divides it by four after a well predicted one (above 0.8), stops at the first accepted step improving less than the tolerance or at the iteration limit, and returns the number of iterations. Newton-Raphson iterates full steps until the change is within tolerance or the limit is reached; in both, the step solves the (spherically or elliptically damped) Newton system and the error at return is never above the initial one for Levenberg-Marquardt.",
 ["schedules","histories"],"all answer sequences (improve a lot, improve as predicted, improve little, stall, worsen) up to a bounded number of iterations x methods x limits x damping",
 "Real objectives only produce a few of the accept/reject patterns; the protocol must hold for all of them.",
 ["src/common/optimizer.cpp"],[("LM loop","Optimizer::optimize_levenberg_marquardt"),("NR loop","Optimizer::optimize_newton_raphson"),("damped step","OptimizerDense::optimize_newton_raphson_one_iteration")],["Optimizer::solve and the virtual calls it makes"])
p("F14","Graphs own their elements: destruction frees all, survivors stay usable",
 "Destroying a graph after any history of construction and solving releases every node and factor it held exactly once, although nodes and factors refer to each other, and leaves no memory behind. Elements the caller still holds remain valid, with their last state, after the graph is gone, and building, solving and destroying graphs of any shape never reads or writes invalid memory.",
 ["histories"],"all construction/solve/hold/destroy histories up to a bounded depth, under address and undefined-behaviour sanitizers",
 "Reference cycles and dangling references are invisible to functional tests.",
 [GR,FG+"node.cpp",FG+"factor.cpp",FS,FD],[("cycle breaking","FGraph::~FGraph, Node::~Node, Factor::~Factor")],["weak references to nodes and factors","allocated bytes"])

p("F15","Sparse Levenberg-Marquardt follows the trust-region protocol",
 "For any sequence of error values the factors of a graph may report, each trial of the sparse Levenberg-Marquardt solves (A'WA + lambda I) dx = A'Wr at the last accepted state with the current damping; a trial that increases the error is undone exactly and doubles lambda; an accepted trial with a gain ratio below 0.25 doubles it, above 0.8 divides it by four. It ends at the first accepted trial improving less than the tolerance, or at the iteration limit, and the graph is left at the last accepted state.",
 ["schedules","histories"],"all sequences of reported errors (relative to the current and predicted error) up to a bounded number of trials x numbers of nodes and factors x dampings x limits",
 "Real problems only produce a few of the accept/reject patterns; the protocol must hold for all of them.",
 [FS],[("trust-region loop","FGraphSolve::optimize_levenberg_marquardt"),("damped system","build_info_adjacency, diagL_")],["factor evaluations and node updates made by FGraphSolve::solve","get_estimated_state"])
p("P01","Point-set alignment recovers the exact rigid motion, never a reflection",
 "Given corresponding points related by any rigid motion, the closed-form alignment reports success and recovers that motion to rounding for every point set that determines it: any number from three on, planar, symmetric, tiny, large or far away (up to 10^6 times its size), in any row order, and not thinner than 1 to 10^4; with noisy points it returns the least-squares optimum among proper rotations. Sets that do not determine the rotation (all points equal or collinear) are reported as failure and leave the transformation untouched.",
 ["inputs"],"all small point sets from an integer lattice x motions x scales x offsets x permutations, plus all small lattice perturbations and mirror images",
 "Random well-spread clouds, as tests use, never hit planar, symmetric, reflected or degenerate cases.",
 [PC+"arun.cpp"],[("SVD alignment","PCRegistration::arun")],["PCRegistration::arun return value and T"])
p("P02","Iterative registrations find the weighted optimum of their documented cost",
 "From a start near the solution, weighted point registration converges to the motion minimising the weighted squared distances, and generalised ICP on exact correspondences to the exact motion for any valid covariances; on noisy ones it stops where the gradient of its cost vanishes, the combined covariances CovY + R CovX R' held. Each iterates while its update exceeds the tolerance, at most 20 times, and returns the number it used. Zero-weight points have no influence, scaling all weights, permuting points or duplicating a point instead of doubling its weight does not change the result, and with equal weights it is the closed-form alignment.",
 ["inputs"],"all small point sets x motions x weight assignments from a small set x permutations x covariance assignments",
 "Tests run one random cloud with random weights on exact data, where any weights give the same answer.",
 [PC+"weight_point.cpp",PC+"gicp.cpp"],[("weighted Gauss-Newton","PCRegistration::weighted_point"),("GICP","PCRegistration::gicp")],["weighted_point, gicp return value and T"])
p("P03","Plane, normal and centroid estimates are optimal and follow the points",
 "For any set of at least three non-collinear points, in any order, the estimated plane has a unit normal, passes through the centroid (n.c + d = 0) and minimises the sum of squared distances; coplanar points lie on it. Moving the points by a rigid motion moves centroid and plane by it (up to the plane's overall sign), and the normal is the plane's first three components.",
 ["inputs"],"all small point sets from an integer lattice x rigid motions x permutations x scales",
 "There is no test for these functions.",
 [PC+"estimate_plane.cpp"],[("centred eigen-decomposition","estimate_plane"),("centroid","estimate_centroid")],["estimate_plane","estimate_normal","estimate_centroid"])
p("P04","A plane accumulator's error and derivatives reflect all its points and poses",
 "After any sequence of adding points at time indices, clearing, resetting, changing the trajectory and estimating, a plane's error equals the smallest eigenvalue of the summed homogeneous scatter of all currently held points moved by the current poses, with the plane as its eigenvector; counts, point lists and per-time means agree with the points held. The incremental evaluations for one changed pose equal a full re-estimation, the gradient for a pose is the derivative of the error, and the Hessian its documented second-order form with the plane held fixed.",
 ["histories","inputs"],"all operation sequences up to a bounded depth over a few points, time indices and poses",
 "No test touches this class; it caches matrices, so results depend on call order if a cache is not invalidated.",
 [PC+"plane.cpp"],[("cached scatter matrices","calculate_all_matrices_S/Q, push_back_point, clear_points, reset"),("derivatives","calculate_gradient, calculate_hessian")],["Plane::estimate_plane","get_plane","get_error","get_error_incremental","estimate_plane_incrementally","calculate_gradient","calculate_hessian","get_mean_point"],
 [("matrixS_, matrixQ_, accumulatedQ_","cached scatter matrices","src/PCRegistration/mrob/plane.hpp")])
p("P05","Plane registration lowers its error and keeps the trajectory model",
 "Through any sequence of solver calls, resets and initialisations, the first pose stays the identity, the interpolated solvers keep pose t equal to Exp(t/(N-1) Ln(last pose)), and the Levenberg-Marquardt modes never increase the error of an interpolated trajectory. On noise-free, fully observed data repeated second-order solves converge from nearby starts to zero error, the initialisation from plane means pairs the same plane across time, and a reset returns every pose to the identity keeping the data. After a reset, or after being filled again, the registration behaves as a freshly created one: nothing of earlier solves remains. The first-order solvers take exactly the plain or momentum steps of the error's gradient, whatever poses or planes are unobserved. The summary reports the actual sizes and errors.",
 ["histories","inputs"],"all sequences of solver modes, resets and initialisations up to a bounded depth over small exact scenes with every pattern of missing observations",
 "No test runs plane registration.",
 [PC+"plane_registration.cpp","src/common/optimizer.cpp"],[("solvers","PlaneRegistration::solve, solve_initialize, update_state, bookkeep_state, update_state_from_bookkeep"),("trajectory","set_last_pose, reset_solution")],["get_trajectory","get_last_pose","get_current_error","calculate_poses_rmse","get_point_cloud"])
p("P06","Synthetic scenes are consistent with their own ground truth",
 "For any size, seed and noise-free parameters, a generated scene has the requested number of points, planes and poses, its trajectory starts at the identity and interpolates to the last pose, and every generated point, moved by its pose, lies on the plane it is labelled with. Filling a plane registration from it gives the same points and plane labels, an identity trajectory, and zero error once the ground-truth trajectory is set.",
 ["inputs","configurations"],"all small (points, planes, poses) sizes x clock seeds under a controlled clock",
 "Output is random (seeded by the clock), so tests cannot assert on it; the clock has to be controlled and the sizes enumerated.",
 [PC+"create_points.cpp"],[("scene generation","CreatePoints::CreatePoints"),("hand-over","CreatePoints::create_plane_registration")],["get_point_cloud","get_point_plane_ids","get_ground_truth_trajectory","get_all_planes"])
p("B01","The Python interface has value semantics and agrees with the library",
 "Every geometry, registration and factor-graph operation reachable from Python returns what the library computes for the same values, for any array layout (row or column order, slices, transposes, integer input), and graphs built through Python equal the same graphs built step by step with a reference. Arrays and objects passed in or returned are copies: changing them afterwards changes no object of the library, and earlier results are unaffected by later calls.",
 ["histories","inputs"],"all call sequences up to a bounded depth over the module's functions and a small set of values and array layouts",
 "Tests never modify returned arrays, pass non-contiguous ones, or compare two call sequences.",
 ["mrobpy/SE3py.cpp","mrobpy/FGraphPy.cpp","mrobpy/PCRegistrationPy.cpp","mrobpy/PCPlanesPy.cpp"],[("bindings","init_geometry, init_FGraph, init_PCRegistration, init_PCPlanes")],["module mrob"])
p("C01","The time profiler accounts each measured interval exactly once",
 "Whatever the sequence of start, stop, reset and query calls on any number of profilers, the total time is the sum over the stop calls since the last reset of the microseconds passed since the profiler's latest start; reset empties it, querying and printing change nothing, a copy is independent of its source, and every measured interval is listed when printing.",
 ["histories"],"all call sequences up to a bounded depth on two profilers under a controlled clock",
 "Real time is not repeatable, so tests cannot assert on it; the clock has to be controlled and the call sequences enumerated.",
 ["src/common/time_profiling.cpp"],[("profiler","TimeProfiling::start, stop, reset, total_time, print")],["TimeProfiling"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
