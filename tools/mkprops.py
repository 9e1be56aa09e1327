import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
G='src/geometry/'; F='src/FGraph/'; R='src/PCRegistration/'; C='src/common/'; B='mrobpy/'
p('C01','Exponential and logarithm maps are exact and mutually inverse everywhere',
 "For every finite rotation vector or twist (zero, tiny, near pi, many turns; any translation) the exponential is the proper rotation / rigid transform given by the matrix exponential of its hat matrix, to rounding accuracy. For every valid rotation or pose, half turns included, the logarithm is finite, has rotation angle in [0, pi], and its exponential reproduces the input; the logarithm of the exponential returns the same vector whenever its angle is below pi (accuracy may drop to about 1e-6 only within 1e-5 of a half turn). hat/vee are exact inverses of each other.",
 ['inputs'],'all rotation vectors/twists over ~20 decades of magnitude, all axes, all angles including the switch-over points of the series and the half turn',
 'Tests evaluate a handful of vectors; the code has four numerically different branches (small-angle series in three places, half-turn branch with an axis-sign decision), and errors show only in narrow bands around their thresholds.',
 [G+'SO3.cpp',G+'SE3.cpp',G+'mrob/SO3.hpp',G+'mrob/SE3.hpp'],
 [('SO3::exp Rodrigues + Taylor switch',G+'SO3.cpp'),('SO3::ln three-case + near-pi branch',G+'SO3.cpp'),('SE3::exp V matrix / SE3::ln V inverse',G+'SE3.cpp'),('hat3/vee3/hat6/vee6',G+'SO3.cpp, SE3.cpp')],
 obs=['SO3(w).R()','SE3(xi).T()','ln_vee()'])
p('C02','Poses form a group; actions, adjoint, updates and distances are consistent',
 "Composition, inverse, the transform of single points and of point arrays, the adjoint, left/right updates by a tangent vector and the distance functions of rotations and poses all agree with the 4x4 homogeneous-matrix algebra they represent: T*T^-1 = I, (AB)p = A(Bp), T Exp(x) T^-1 = Exp(Adj(T) x), left update = Exp(dx) T, right update = T Exp(dx), distance = norm of the log of the relative pose, accurate also for tiny relative motions. Arguments are never modified (aliasing an operand with the result included), and after arbitrarily long chains of compositions and updates the value stays a rigid transform up to accumulated rounding, which regeneration removes without moving the pose.",
 ['inputs','histories'],'all pairs/triples of poses, translations over many magnitudes, and all sequences (hundreds of steps) of compose/invert/update/regenerate, including self-aliasing',
 'Tests compare a few products and one adjoint; group laws quantify over all triples and drift only appears over long operation histories.',
 [G+'SO3.cpp',G+'SE3.cpp'],[('operator*, mul, inv, adj',G+'SE3.cpp'),('update_lhs/update_rhs',G+'SE3.cpp, SO3.cpp'),('transform/transform_array',G+'SE3.cpp'),('distance*, regenerate',G+'SE3.cpp')],
 obs=['T()','R()','t()','adj()','transform()','distance()'])
p('C03','Validity predicates and rotation-format conversions are correct',
 "The validity predicates accept every matrix that is a rotation / rigid transform up to rounding and reject every matrix that is not (reflections, scaled, sheared or non-orthogonal blocks even of unit determinant, any wrong last row). Conversion from a quaternion of any nonzero norm or from roll-pitch-yaw angles yields the proper rotation of that parametrisation, the quaternion of a rotation is unit and represents the same rotation, and quaternion-matrix round trips return the same rotation for every rotation (q and -q identified).",
 ['inputs'],'all matrices within/outside the tolerance, all quaternions (any norm, any dominant component, half turns), all roll-pitch-yaw triples including gimbal lock',
 'Tests use one or two conversions; wrong acceptance depends on adversarial matrices (unit determinant but not orthogonal, cancelling last row).',
 [G+'SO3.cpp',G+'SE3.cpp'],[('isSO3',G+'SO3.cpp'),('isSE3',G+'SE3.cpp'),('quat_to_so3/so3_to_quat/rpy_to_so3',G+'SO3.cpp')],obs=['isSO3','isSE3','quat_to_so3','so3_to_quat','rpy_to_so3'])
p('C04','Pose-covariance compounding follows the published second/fourth-order laws',
 "Compounding two uncertain poses yields the composed mean pose and, to second order, the covariance S1 + Adj(T1) S2 Adj(T1)^T (what * and mul give); to fourth order it additionally contains the symmetric correction terms of Barfoot & Furgale (TRO 2014) in the library's [rotation, translation] ordering. Results are symmetric and, at second order, positive semidefinite for all valid inputs; compounding with a certain pose (zero covariance), chains, the two call forms and repeated calls are mutually consistent and leave the operands unchanged.",
 ['inputs','histories'],'all mean poses and all PSD covariances (full, rank-deficient, zero, widely scaled), chains of compounding',
 'Tests compare a few fixed matrices; the block formulas have ~20 sub-blocks whose mistakes are invisible unless all cross-covariances and a rotation and translation are generic.',
 [G+'SE3cov.cpp',G+'mrob/SE3cov.hpp'],[('compound_2nd_order/compound_4th_order',G+'SE3cov.cpp'),('brackets helpers, curly_wedge',G+'SE3cov.cpp')],obs=['cov()','T()'])
p('C05','Every factor measures its documented observation model',
 "For every factor type, state, observation and information matrix, the residual equals the documented r = h(x) - z (2-D absolute and relative poses, odometry [rot, trans, rot], range-bearing and 3-D landmarks, 3-D absolute and relative poses in the Lie algebra, plane and point-to-plane observations), angular components are wrapped to a half-open turn, the residual vanishes exactly when states agree with the observation, and the factor's chi2 is 1/2 r^T W r. The meaning of origin/target, pose/landmark and of the observation does not depend on which of the connected nodes was created first. Factors asked to initialise their target or landmark leave it at the value their observation predicts (zero residual).",
 ['inputs','configurations'],'all states, observations, information matrices (non-diagonal too), both creation orders of the nodes, initialisation flag on/off',
 'Existing tests build forward-ordered graphs with identity information and zero or tiny rotations, where reversed-order, wrapping and frame mistakes vanish.',
 [F+'factors/*.cpp',R+'factors/factor1PosePoint2Plane.cpp'],[('evaluate_residuals/evaluate_chi2 of each factor',F+'factors/'),('node-order handling in constructors',F+'factors/'),('wrap_angle',F+'node.cpp')],
 obs=['get_residual()','get_chi2()','get_chi2_array()','get_state()'])
p('C06','Factor Jacobians are the derivative of the residual in the update convention',
 "For every factor type, state and observation, the Jacobian blocks equal the derivative of the residual with respect to the perturbation that the library applies to each connected node (additive for 2-D poses, landmarks and planes, left multiplication by Exp(dx) for 3-D poses), in the order of the connected nodes, for either creation order of the nodes. For residuals expressed as a group logarithm the derivative is that of the residual's group element (left perturbation), as documented.",
 ['inputs','configurations'],'all states/observations away from documented singularities (coincident pose and landmark), both node orders',
 'A wrong Jacobian entry still converges on easy problems; tests never compare Jacobians with derivatives.',
 [F+'factors/*.cpp',R+'factors/factor1PosePoint2Plane.cpp'],[('evaluate_jacobians of each factor',F+'factors/')],obs=['get_jacobian()','get_residual()'])
p('C07','The assembled linear system is exactly the sum of the factors',
 "After a solve, the exposed adjacency matrix, weight matrix, information matrix and right-hand side are the stacked factor Jacobians (zero columns for nothing else, one block column per non-anchor node in creation order), the block-diagonal of (robust-weighted) factor information, A^T W A and A^T W r at the linearisation point of that solve (after a Levenberg-Marquardt solve the information matrix has the damping added on its diagonal); their sizes equal total observation and state dimension. The total chi2 is the sum of the per-factor chi2 values, which are reported in factor order.",
 ['inputs','configurations','histories'],'all graph topologies, mixed node types and dimensions, anchors in any position, node/factor interleavings, repeated and incremental solves',
 'Tests check sizes on a couple of toy graphs; index book-keeping errors need mixed dimensions, anchors and unordered node references.',
 [F+'factor_graph_solve.cpp',F+'factor_graph.cpp'],[('build_adjacency index maps',F+'factor_graph_solve.cpp'),('build_info_adjacency',F+'factor_graph_solve.cpp'),('chi2/get_chi2_array',F+'factor_graph_solve.cpp')],
 obs=['get_adjacency_matrix','get_W_matrix','get_information_matrix','get_vector_b','chi2','get_chi2_array'])
p('C08','A Gauss-Newton step solves the normal equations; repeated steps find the truth',
 "One Gauss-Newton solve moves every non-anchor node by minus the solution of the normal equations A^T W A dx = A^T W r (W robust-weighted) at the previous state, through that node's update rule, and does nothing else. On well-posed graphs with noise-free observations, repeated solves started near the truth converge to the ground-truth states with zero chi2; with noisy observations they converge to a point where A^T W r vanishes.",
 ['inputs','configurations'],'all well-posed 2-D and 3-D graphs with mixed factors, loop closures, any information matrices, anchors or priors',
 'Tests check final chi2 on two or three fixed small graphs.',
 [F+'factor_graph_solve.cpp'],[('optimize_gauss_newton + update_nodes',F+'factor_graph_solve.cpp')],obs=['solve()','get_estimated_state()','chi2()'])
p('C09','Levenberg-Marquardt never makes the solution worse and always terminates cleanly',
 "For every graph whose chi2 is finite, a Levenberg-Marquardt solve ends within the iteration limit with every state finite and valid and total chi2 not larger than before; steps that do not improve are rolled back exactly, the first step is damped by the requested lambda, the damping grows after a rejected step and falls after a well predicted one, and the chi2 and per-factor values reported afterwards (without re-evaluation) are those of the returned states. On well-posed graphs it reaches a solution as good as the least-squares optimum, up to the requested tolerance.",
 ['inputs','configurations','histories'],'well-posed, badly initialised, rank-deficient and disconnected graphs, all iteration limits and tolerances, repeated solves',
 'Tests run LM once on easy problems; rollback, non-convergence and singular systems never occur there.',
 [F+'factor_graph_solve.cpp'],[('optimize_levenberg_marquardt accept/reject loop',F+'factor_graph_solve.cpp'),('synchronize_nodes_state / auxiliary_state',F+'factor_graph_solve.cpp')],obs=['solve(LM)','chi2()','get_estimated_state()'])
p('C10','Anchored nodes never move and are treated as known constants',
 "A node created as an anchor keeps bit-for-bit its initial state through any sequence of solves, by any method. The rest of the graph is estimated exactly as if that node were a known constant: its factors keep contributing residuals and chi2, its Jacobian columns are absent from the linear system and all remaining nodes receive their own update, wherever anchors were inserted.",
 ['configurations','histories'],'all placements and numbers of anchors, all node types, all solve sequences',
 'One test anchors the first node of a chain; index shifts appear only for anchors in the middle, mixed dimensions or reversed references.',
 [F+'factor_graph.cpp',F+'factor_graph_solve.cpp',F+'mrob/node.hpp'],[('active_nodes_ excludes anchors',F+'factor_graph.cpp'),('anchor columns skipped in build_adjacency',F+'factor_graph_solve.cpp')],obs=['get_estimated_state','get_information_matrix'])
p('C11','The estimate does not depend on insertion order or on the reference frame',
 "Creating the same nodes and factors in a different order (hence different ids and a different elimination order) yields the same chi2, the same information matrix up to the corresponding permutation and the same estimate after any number of Gauss-Newton steps. Expressing the same problem in another global frame (rigidly moving all initial states, absolute observations and the information expressed in that frame) yields the same chi2 and the correspondingly moved estimate (of poses and points; free planes, whose additive update is not frame invariant, agree in chi2).",
 ['configurations','inputs'],'all permutations of node creation and factor insertion and all rigid motions of the frame, for 2-D and 3-D graphs with mixed factors',
 'Tests use a single order and a single frame.',
 [F+'factor_graph_solve.cpp',F+'factors/*.cpp'],[('sorted neighbour lists and reversed-order flags',F+'factors/'),('id to column map',F+'factor_graph_solve.cpp')],obs=['chi2','get_estimated_state','get_information_matrix'])
p('C12','Node states always stay on their manifold',
 "After any finite sequence of updates and state assignments, with increments of any magnitude, a 3-D pose node holds a valid rigid transform equal to the left-composed increments, a 2-D pose node holds its heading congruent to the accumulated heading and inside [-pi, pi), plane nodes given a unit normal keep it unit, and landmarks add exactly; every update returns in bounded time. Principal and auxiliary states are independent: updating from the auxiliary state starts from it, leaves it unchanged, and restoring from it reproduces the book-kept state.",
 ['inputs','histories'],'all update/assign/restore histories, increments from 1e-12 to 1e12 and non-finite increments (for termination)',
 'Tests never issue large or repeated updates; wrap loops and drift depend on magnitude and history.',
 [F+'factors/node*.cpp',F+'node.cpp'],[('update/update_from_auxiliary/set_state',F+'factors/'),('wrap_angle',F+'node.cpp'),('regenerate after update',F+'factors/nodePose3d.cpp')],obs=['get_state()','get_auxiliary_state()'])
p('C13','Robust kernels weight each factor as documented',
 "With a robust kernel selected, each factor enters the linear system with its information multiplied by the documented weight of its current normalised error (quadratic 1; Huber 1 below the threshold and 1/u above; Cauchy 1/(1+u^2); McClure 1/(1+u^2)^2; Ransac 1 below the threshold, 0 above), with u the square root of its chi2, one weight per factor and independent of all other factors and of earlier solves, while the reported chi2 stays unweighted. Weights lie in [0,1], never increase with the error, and with outliers among redundant observations the robust estimate is closer to the truth than the quadratic one.",
 ['inputs','configurations','histories'],'all kernels, errors over many magnitudes including the Huber threshold, mixed kernels in one graph, repeated solves',
 'No test reads weights; only a robust run without oracle exists.',
 [F+'factor.cpp',F+'factor_graph_solve.cpp'],[('evaluate_robust_weight',F+'factor.cpp'),('weight applied in W assembly',F+'factor_graph_solve.cpp')],obs=['get_W_matrix','get_information_matrix','evaluate_robust_weight','chi2'])
p('C14','Queries are pure and results depend only on the current problem',
 "Reading chi2, per-factor chi2, states, matrices or printing never changes any state or later result. A graph's results depend only on its current nodes, states and factors: solving, then adding nodes and factors and solving again equals a fresh graph built at those states; identical histories give bit-identical results; ids are dense and in creation order; counts and dimensions match what was added.",
 ['histories','configurations'],'all interleavings of add/solve/query operations on one graph and between several graphs',
 'Each test builds a graph once and solves once or twice; no test compares interleaved with fresh histories.',
 [F+'factor_graph.cpp',F+'factor_graph_solve.cpp'],[('resize/rebuild of matrices per solve',F+'factor_graph_solve.cpp'),('add_node/add_factor book-keeping',F+'factor_graph.cpp')],obs=['all FGraph getters'])
p('C15','The dense graph solver agrees with the least-squares problem and sparse solver',
 "The dense factor-graph solver's error is the sum of factor chi2, its gradient and Hessian are J^T W r and J^T W J over the non-anchor nodes for factors of any arity, (robust kernels are not part of it), its steps leave anchors untouched, and on well-posed graphs its Newton and Levenberg-Marquardt modes reach the same optimum as the sparse solver.",
 ['inputs','configurations'],'all graph topologies with unary/binary factors, anchors, mixed nodes, all three methods',
 'The dense solver has no test at all, only an example with unary factors.',
 [F+'factor_graph_solve_dense.cpp',C+'optimizer.cpp'],[('calculate_gradient_hessian',F+'factor_graph_solve_dense.cpp'),('update_state/bookkeep_state',F+'factor_graph_solve_dense.cpp')],obs=['calculate_error','solve','get_node()->get_state()'])
p('C16','The generic optimizer minimises any user-supplied cost safely',
 "For any cost given through the optimizer interface, Newton-Raphson applies x - H^-1 g and stops when the error change falls below tolerance or at the iteration limit; both Levenberg-Marquardt variants damp with lambda*I or lambda*diag(H), never return a worse error than the initial one, undo every non-improving step exactly, adapt lambda in the documented direction, and report an iteration count within the limit. On convex quadratics Newton reaches the minimiser in one step.",
 ['inputs','programs','histories'],'quadratic and non-convex costs of any dimension, all lambdas, tolerances and iteration limits',
 'No test drives the optimizer with its own cost; it is exercised only through plane registration.',
 [C+'optimizer.cpp',C+'mrob/optimizer.hpp'],[('optimize_levenberg_marquardt accept/reject',C+'optimizer.cpp'),('calculate_model_fidelity',C+'optimizer.cpp')],obs=['call sequence of the cost callbacks','returned iterations','final state'])
p('C17','Closed-form point-set alignment returns the optimal rigid transform',
 "Given N >= 3 non-collinear correspondences at any scale, position and shape (coplanar, symmetric, noisy or mirrored clouds included), the closed-form alignment reports success and returns a proper rigid transform that minimises the sum of squared distances, exactly the true transform for noise-free data. Collinear or coincident points, which do not determine a rotation, are reported as failure and leave the output untouched.",
 ['inputs'],'all clouds: sizes 3..thousands, scales over many decades, planar, isotropic/symmetric, noisy, reflected, degenerate',
 'Tests align one random cloud; degeneracy thresholds and reflections depend on scale and symmetry.',
 [R+'arun.cpp',R+'mrob/pc_registration.hpp'],[('SVD solution + det check + degeneracy test',R+'arun.cpp')],obs=['return value','T'])
p('C18','Iterative point-set alignment (weighted and GICP) reaches the weighted optimum',
 "Starting near the solution, weighted point alignment and generalised ICP stop within their iteration limit at a valid rigid transform that is a stationary point of the documented objective (weights; joint covariances covY + R covX R^T per pair, taken at the solution) when the noise is small against the cloud's extent, equal to the closed-form optimum for weighted points and to the true transform for noise-free data. Weights scale linearly, a zero weight is the same as omitting the pair, covariances are used per pair, and a tighter tolerance never gives a worse result.",
 ['inputs'],'all clouds, weights >= 0 and SPD covariances, small and moderate initial errors, all tolerances',
 'Tests use uniform weights/identity covariances on one cloud, where pairing or frame mistakes cancel.',
 [R+'gicp.cpp',R+'weight_point.cpp'],[('Gauss-Newton loop',R+'gicp.cpp, weight_point.cpp')],obs=['T','iterations'])
p('C19','Plane, normal and centroid estimates are least-squares optimal and equivariant',
 "For N >= 3 non-collinear points at any scale and position, the estimated plane [n, d] has a unit normal, passes through the centroid and minimises the sum of squared distances; the estimated normal is the same n and the centroid is the mean. The result follows any rigid motion of the points, is independent of point order and duplication of the whole set, and exact for coplanar points.",
 ['inputs'],'all point sets: scale, offset, anisotropy, exact coplanarity, axis-aligned, noise, order',
 'Tests check one plane; offset/scale cancellation and eigenvector selection need varied geometry.',
 [R+'estimate_plane.cpp'],[('centred covariance eigenvector',R+'estimate_plane.cpp')],obs=['estimate_plane','estimate_normal','estimate_centroid'])
p('C20','A multi-pose plane keeps error, gradient and point book-keeping consistent',
 "For a plane observed at several times under any trajectory, the reported error is the minimum eigenvalue of the sum over times of the transformed homogeneous scatter of ALL points currently stored (later additions and clearing included), the estimated plane is its unit eigenvector, the per-pose gradient is the derivative of that error under a left perturbation of the pose, and the incremental error/plane update after changing one pose equals full re-estimation. Points are stored per time and counted exactly; mean points are the means.",
 ['inputs','histories'],'all point sets and trajectories, all histories of push/clear/estimate/reset/pose change',
 'Tests never touch Plane directly; the caching of scatter matrices is history dependent.',
 [R+'plane.cpp',R+'mrob/plane.hpp'],[('calculate_all_matrices_S/Q caching',R+'plane.cpp'),('calculate_gradient',R+'plane.cpp'),('estimate_plane(_incrementally)',R+'plane.cpp')],obs=['estimate_plane','get_error','calculate_gradient','get_number_points'])
p('C21','Multi-pose plane registration does not worsen the error and finds the trajectory',
 "Registering planes over several poses keeps the first pose at identity, keeps every pose a valid rigid transform, in the interpolated modes keeps pose t equal to Exp(t/(n-1) Ln(T_last)), and for the Levenberg-Marquardt modes returns no larger plane error than the interpolated trajectory it started from. (All of this for two or more poses.) On noise-free well-constrained data the second-order modes started near the truth recover it, initialisation alone yields finite valid poses or an explicit failure, resetting restores identity poses while keeping the data, and evaluation reports the data's true counts and errors.",
 ['inputs','configurations','histories'],'all numbers of planes/poses/points, planes not visible at some times, ids in any order, all solve modes in sequence',
 'Tests do not run plane registration; only an example does.',
 [R+'plane_registration.cpp',C+'optimizer.cpp'],[('calculate_gradient_hessian/update_state/bookkeep',R+'plane_registration.cpp'),('solve_initialize',R+'plane_registration.cpp'),('print_evaluate',R+'plane_registration.cpp')],obs=['get_trajectory','get_current_error','print_evaluate'])
p('C22','Synthetic scenes are internally consistent',
 "A generated scene contains exactly the requested numbers of poses, planes and points per pose, every point carries the id of an existing plane and appears once in that plane's data for that time, planes receive balanced shares, the ground-truth trajectory starts at identity and interpolates to its last pose, and with zero noise every point lies on its plane after being moved by the ground-truth pose (within the plane's extent; noise has the requested spread otherwise). Random pose/point samplers stay inside and cover their requested ranges, independently per coordinate, and handing the scene to a registration transfers all planes with a fresh identity trajectory.",
 ['inputs','configurations'],'all (points, planes, poses, noise, bias) configurations and random draws',
 'The generator seeds itself from the clock, so no fixed-value test can pin its output; tests only construct it.',
 [R+'create_points.cpp',R+'mrob/create_points.hpp'],[('CreatePoints constructor',R+'create_points.cpp'),('samplers',R+'create_points.cpp')],obs=['get_point_cloud','get_point_plane_ids','get_ground_truth_pose','get_plane_poses','get_all_planes'])
p('C23','No valid sequence of API calls causes memory errors, UB or leaks',
 "Any sequence of valid public API calls (building graphs with all node, factor and kernel types in any order and sharing, solving by every method, querying, printing, destroying in any order; geometry; registration; plane and scene handling) performs no out-of-bounds or use-after-free access, no undefined behaviour, no read of uninitialised state, and releases all memory when its objects are destroyed. Invalid ids, times and point-array shapes passed by a user are rejected or ignored, never an out-of-bounds access.",
 ['programs','histories','inputs'],'random API programs over all modules, object lifetimes and destruction orders, boundary ids/times',
 'Tests run release builds without sanitizers on fixed programs, where such errors are silent.',
 ['src/**'],[('shared_ptr ownership cycle broken in ~FGraph',F+'factor_graph.cpp'),('index checks of get_node/get_factor/get_points',F+'factor_graph.cpp, '+R+'plane.cpp')],obs=['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer reports','NaN-poisoned uninitialised matrices'])
p('C24','Independent objects can be used concurrently from different threads',
 "Threads working on disjoint graphs, poses, registrations and planes (and only reading shared constant inputs) never race with each other, and each obtains bit-identical results to the same work done sequentially: the library keeps no hidden shared mutable state.",
 ['schedules'],'all interleavings of 2-8 threads running mixed workloads on disjoint objects',
 'All tests are single threaded.',
 ['src/**'],[('no global mutable state',''),('per-object time profiling and scratch members',C+'time_profiling.cpp')],obs=['ThreadSanitizer reports','per-thread result hashes'])
p('C25','The Python interface is a faithful view of the C++ library',
 "Every Python function passes its arguments, by position or documented keyword and with documented defaults, to the operation it names and returns that operation's value: numpy inputs of any memory layout, stride, integer dtype or read-only flag are read correctly (or, for negative strides, possibly rejected) and never modified, returned arrays and states are independent copies that outlive and do not alias library objects, node modes and the graph's robust kernel reach every node and factor, and ids returned are those used later. Wrong shapes raise an exception instead of being misread.",
 ['inputs','programs','histories'],'all bound functions x layouts (C/F order, slices, strides, transposes), dtypes, keyword/positional calls, object lifetimes',
 'Python tests always pass fresh C-contiguous float arrays and check a few values.',
 [B+'SE3py.cpp',B+'FGraphPy.cpp',B+'PCRegistrationPy.cpp',B+'mrobPy.cpp'],[('pybind11 signatures with EigenDRef',B+'FGraphPy.cpp'),('return value policies',B+'FGraphPy.cpp')],obs=['python module mrob'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
