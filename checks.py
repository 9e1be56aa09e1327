"""What each check builds, runs and how much of it."""
PRE = "-include @VERIF@/harness/verif_pre.hpp"
MODES = {
    # the shipped semantics (NDEBUG, as a Release build) with Eigen's assertions monitored, vectors bounds-checked
    # and matrices born as NaN, so that reads of never-written entries show in every oracle
    "plain": dict(cxx="g++", cc="gcc", flags="-O1 -g1 -DNDEBUG -DEIGEN_INITIALIZE_MATRICES_BY_NAN -D_GLIBCXX_ASSERTIONS -Wno-error -w " + PRE),
    "asan": dict(cxx="clang++", cc="clang", flags="-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=pointer-overflow -fno-sanitize-recover=all -Wno-error -w " + PRE,
                 env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "LSAN_OPTIONS": "exitcode=98"}),
    "tsan": dict(cxx="g++", cc="gcc", flags="-O1 -g1 -DNDEBUG -fsanitize=thread -Wno-error -w " + PRE,
                 env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_thread_leaks=0"}),
}
MODES["memcheck"] = dict(cxx="g++", cc="gcc", flags="-O1 -g -DNDEBUG -Wno-error -w " + PRE,
                         wrapper=["valgrind", "--tool=memcheck", "-q", "--vgdb=no", "--error-exitcode=97", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--leak-check=no", "--show-realloc-size-zero=no", "--max-stackframe=8000000", "--num-callers=12"])
CHECKS = {}


def add(pid, stages, rule, technique, note, floor=None, assumptions=()):
    """floor: distinct non-trivial cases a run must have observed to count as an answer"""
    for st in stages:
        st.setdefault("thorough", 20 * st["quick"])
    f = floor or {"quick": int(0.5 * sum(st["quick"] for st in stages if not st.get("thorough_only"))), "thorough": int(0.3 * sum(st["thorough"] for st in stages))}
    CHECKS[pid] = dict(stages=stages, rule=rule, technique=technique, note=note, floor=f, assumptions=list(assumptions))


FP = "IEEE double arithmetic of this machine; tolerances are at least 3x the worst error seen over millions of cases of the unchanged code"
add("C01", [dict(harness="c01", quick=1500000, thorough=12000000)],
    "random and special rotation vectors, twists, rotations and poses (zero, 1e-300..many turns, neighbourhoods of every switching angle, half turns, tied diagonals, signed permutations, rounded products); every case evaluates the real exp/ln and is compared online with a long-double reference; distinct = different input bytes",
    "online runtime monitors (long-double reference oracle) on the instrumented library, stratified random inputs",
    "Every executed case was within rounding of the exact maps; sampled, not exhaustive.", assumptions=[FP])
add("C02", [dict(harness="c02", quick=600000, thorough=4800000)],
    "random/special poses (identity, half turns, tiny and huge translations), points and arrays of 0-5000 rows, increments and distances down to 1e-14, twists of many turns, aliased operands, histories of 20-3000 operations replayed by a long-double double; distinct = different input bytes",
    "online runtime monitors (long-double matrix-algebra oracle) on the instrumented library, stratified random inputs and operation histories",
    "Every executed operation and history agreed with the 4x4 algebra to rounding; sampled.", assumptions=[FP])
add("C03", [dict(harness="c03", quick=1500000, thorough=12000000)],
    "rotations perturbed below 1e-9 must be accepted, reflections/scalings/shears/unit-determinant stretches/wrong last rows/non-finite entries off by at least 5e-5 rejected; quaternions of any norm, exact half turns, rpy incl. gimbal lock; distinct = different input bytes",
    "online runtime monitors (reference predicates and conversions) on the instrumented library",
    "Every executed case decided as specified; the band between 1e-9 and 5e-5 of a rotation is not judged; sampled.", assumptions=[FP])
add("C04", [dict(harness="c04", quick=400000, thorough=3200000)],
    "random poses and covariances (zero, diagonal, rank-deficient, full, badly scaled); oracle is the operator form A=sum curly(l)^2, B=sum curly(l) S2 curly(l)^T over the columns l of a square root of the covariance, in long double; chains compared with the closed form; distinct = different input bytes",
    "online runtime monitors (independent operator-form oracle) on the instrumented library",
    "Every executed compounding agreed with the published law to rounding; sampled.", assumptions=[FP])
add("C05", [dict(harness="c05", quick=800000, thorough=6400000)],
    "single factors of every type on nodes with arbitrary states (headings of many turns, half turns, tiny to huge scales), either creation order, all kernels, non-diagonal information, both constructors, consistent, almost consistent (mismatches of 1e-2 to 1e-12) and inconsistent observations, information from 1e-8 to 1e8, and factors asked to initialise; distinct = different states, observations, information and order",
    "online runtime monitors (long-double observation models) on the instrumented library",
    "Every evaluated residual, chi2 and initialisation agreed with the documented model; range-bearing pairs closer than 2 mm and planes through the sensor are not judged; sampled.", assumptions=[FP])
add("C06", [dict(harness="c06", quick=600000, thorough=4800000)],
    "single factors of every type on nodes with arbitrary states, observations, either creation order, relinearised after updates and assignments; oracle is the central difference (long double) of an independent residual model under the perturbation each node applies; distinct = different states, observations and order",
    "online runtime monitors (long-double finite-difference oracle) on the instrumented library",
    "Every evaluated Jacobian matched the derivative to 1e-8 of its scale; pose-landmark pairs closer than 1 cm and planes within 1 mm of the sensor are not judged; sampled.", assumptions=[FP])
add("C07", [dict(harness="c07", quick=36000, thorough=400000)],
    "random 2-D, 3-D and mixed graphs (mixed dimensions, anchors anywhere, all kernels, non-diagonal information) created in natural, shuffled and interleaved orders, solved by GN or one LM iteration in 1-3 rounds with nodes/factors added in between, and graphs of up to 1500 nodes with residuals from 1e-9; the exposed A, W, L, b, chi2 and sizes of every round are compared with an independent assembly; distinct = different problems and creation orders",
    "online runtime monitors (independent normal-equation assembly, long double) on the instrumented library",
    "Every exposed system equalled the stacked reference factors; rounds linearised within 1e-3 of a non-differentiable point are not judged; sampled.", assumptions=[FP])
add("C08", [dict(harness="c08", quick=30000, thorough=400000)],
    "random well-posed 2-D, 3-D and mixed graphs (loop closures, priors or anchors, all kernels, any creation order): one to three Gauss-Newton steps compared with the reference solution of the normal equations (scaled-condition tolerance) and with the exposed system; graphs displaced as a whole (steps of up to 1e5); runs from near the truth to convergence with and without noise; graphs of up to 1500 nodes judged by backward error; unsolvable systems; distinct = different problems and creation orders",
    "online runtime monitors (independent normal-equation solution, ground truth) on the instrumented library",
    "Every executed step and convergence run agreed; systems of scaled condition above 1e7 are not judged; sampled.", assumptions=[FP])
add("C09", [dict(harness="c09", quick=32000, thorough=500000)],
    "random graphs (well posed, initialised far away, gauge-free, disconnected) solved by LM with 1-30 iterations, lambda 1e-9..1e5 and tolerances 1e-12..1, one to three times; every operation on the nodes is recorded and each recorded step compared with a damped step of the exposed system (acceptance, restore, stop rule, damping growth); optimum compared with converged Gauss-Newton from the truth; distinct = different problems, orders and parameters",
    "online runtime monitors (monotonicity, validity, report consistency, reference damped step) on the instrumented library",
    "Every executed LM run was monotone, bounded, valid and reported its returned states; sampled.", assumptions=[FP])
add("C10", [dict(harness="c10", quick=60000, thorough=500000)],
    "random 2-D/3-D/mixed graphs with anchors of every node type at any position: bit-for-bit comparison of anchor states over 1-5 solves (GN, LM, dense NR/LM); the anchored system compared with the all-free system minus the anchored columns; noise-free recovery; distinct = different problems, anchor placements and orders",
    "online runtime monitors (bit comparison, reduced-system oracle) on the instrumented library",
    "No anchor moved and every anchored system equalled the reduced one; sampled.", assumptions=[FP])
add("C11", [dict(harness="c11", quick=40000, thorough=500000)],
    "metamorphic pairs: the same random problem created in two orders (nodes and factors shuffled, interleaved), or moved rigidly (absolute observations and frame-expressed information moved accordingly), compared over 1-4 solves; distinct = different problems, orders and motions",
    "online metamorphic monitors on the instrumented library",
    "Every compared pair agreed to conditioning-scaled rounding; graphs with free planes are compared in chi2 only under motion (the additive plane update is frame dependent by design); sampled.", assumptions=[FP])
add("C12", [dict(harness="c12", quick=150000, thorough=2000000)],
    "random histories (1-25, some 500-4000 operations) of update / update-from-auxiliary / assignment / book-keeping / restore on every node type with increments 1e-12..1e12, half turns and non-finite values; every operation is compared with the reference step from the node's own previous state; distinct = different starts and increments",
    "online runtime monitors (one-step-ahead long-double reference, manifold invariants, bounded time) on the instrumented library",
    "Every operation of every history landed on the expected state; sampled.", assumptions=[FP])
add("C13", [dict(harness="c13", quick=150000, thorough=1200000)],
    "weight function of every kernel over 18 decades incl. the threshold; graphs with a random kernel per factor, solved 1-4 times with perturbations in between, weights read back from the exposed weight matrix at the linearisation point; outlier problems (repeated priors, wrong loop closure) solved with and without kernels; distinct = different arguments or problems",
    "online runtime monitors (documented weight functions, exposed weight matrix) on the instrumented library",
    "Every weight read back was the documented one; sampled.", assumptions=[FP])
add("C14", [dict(harness="c14", quick=50000, thorough=500000)],
    "random histories (creation in any order, GN/LM solves interleaved, 1-4 final solves) executed twice, once with random observers (all getters, printing, factor evaluation, a foreign graph solving in between): states, chi2 and per-factor chi2 compared bit for bit, also right before and after every observer; used graphs compared with fresh graphs at the same states; repeated solves after restoring; ids, counts, dimensions and neighbour lists checked after every operation; distinct = different problems and histories",
    "online differential runtime monitors over recorded histories of the instrumented library",
    "Every executed history was unaffected by observers, other graphs and the past; sampled.", assumptions=[FP])
add("C15", [dict(harness="c15", quick=32000, thorough=500000)],
    "random 2-D/3-D/mixed graphs with anchors and any creation order solved by the dense solver: error, one Newton / spherical LM / elliptical LM step against the reference normal equations, rejected steps, optimum against the sparse solver, monotonicity from bad starts, user-defined linear factors of arity 1-4 with a closed-form optimum; distinct = different problems, orders and parameters",
    "online runtime monitors (reference damped normal equations, sparse solver, closed form) on the instrumented library",
    "Every executed dense solve agreed; robust kernels are not part of the dense solver and not judged; sampled.", assumptions=[FP])
add("C16", [dict(harness="c16", quick=800000, thorough=6400000)],
    "user-defined quadratic, quartic, non-convex and partly undefined (NaN) costs of dimension 1-6 through the optimizer interface, all methods, slowly converging and overshooting approximate Hessians over up to 400 iterations, lambdas 1e-9..1e4, tolerances and iteration limits; 1-4 solves per optimizer object; the recorded event log (errors, gradients, book-keeping, steps) is replayed by an offline checker; distinct = different starts and parameters",
    "offline trace checker over the recorded callback log of the real optimizer",
    "Every recorded trace obeyed the specification of the optimizer; sampled.", assumptions=[FP])
add("C17", [dict(harness="c17", quick=600000, thorough=4800000)],
    "clouds of ten shapes (generic, planar, thin, cube, octahedron, tetrahedron, square, triangle, sphere, grid) of 3-100 points (3000 thorough), scales 1e-6..1e6, offsets, exact / noisy / mirrored correspondences in several memory layouts; collinear, coincident, repeated and too few points; distinct = different clouds",
    "online runtime monitors (Horn quaternion solution in long double, ground truth) on the instrumented library",
    "Every executed alignment was optimal or rejected as specified; sets within a factor of the collinearity threshold are not judged; sampled.", assumptions=[FP])
add("C18", [dict(harness="c18", quick=400000, thorough=3200000)],
    "exact and noisy (up to 3 % of the extent) correspondences of ten cloud shapes, per-pair weights over a factor 20, anisotropic full covariances on both or one side, starts within 0.2 rad, tolerances 1e-11..1e-2; pairs of calls related by scaling, order, zero weights, repetition; distinct = different clouds and tolerances",
    "online runtime monitors (reference gradient and closed-form weighted optimum in long double, metamorphic relations) on the instrumented library",
    "Every executed alignment was stationary / optimal; problems of scaled condition above 1e4 are not judged; sampled.", assumptions=[FP])
add("C19", [dict(harness="c19", quick=600000, thorough=4800000)],
    "clouds of ten shapes flattened by 0..1, 3-200 points (5000 thorough), scales 1e-6..1e6, offsets up to 1e4 extents, several memory layouts; pairs of calls related by order, duplication, rigid motion and scaling; integer coplanar sets; distinct = different clouds",
    "online runtime monitors (long-double eigen decomposition, metamorphic relations) on the instrumented library",
    "Every executed estimate was optimal to rounding; nearly collinear sets (extent ratio below 1e-3) are not judged; sampled.", assumptions=[FP])
add("C20", [dict(harness="c20", quick=500000, thorough=4000000)],
    "random histories (6-60 operations: add points at valid and invalid times, move poses, full and incremental estimation, incremental error, gradients, means, clearing, resetting, scatter recomputation) on planes seen 1-6 times; distinct = different points and histories",
    "online runtime monitors (model keeping all points, long-double eigen decomposition, finite differences) on the instrumented library",
    "Every operation of every history agreed with the model; sampled.", assumptions=[FP])
add("C21", [dict(harness="c21", quick=30000, thorough=200000)],
    "random histories (set last pose, reset, add points, solve by every mode, gradient steps against the step formula, evaluate) over 1-12 planes seen from 2-6 poses by up to 80 points each with noise, missing observations and arbitrary plane ids; initialisation from shared physical points with missing planes; noise-free recovery by the second-order modes and what one solve leaves; distinct = different point data",
    "online runtime monitors (independent long-double error model, ground truth, interpolation law) on the instrumented library",
    "Every executed history obeyed the specification; registrations of a single pose are not judged; Newton divergence from bad starts is not judged; sampled.", assumptions=[FP])
add("C22", [dict(harness="c22", quick=24000, thorough=400000)],
    "scenes of 0-1500 points (one of 2^24 points), 1-40 planes, 1-200 poses, noise and bias 0..2 and the default arguments; pose, position, orientation and surface samplers with symmetric and one-sided ranges, 500 draws each, independence of the coordinates; the seeding clock is interposed so that every draw is reproducible; scenes handed to registrations repeatedly and after use; distinct = different plane poses or sampler ranges",
    "online runtime monitors (conservation of points, geometry in long double, range and 8-sigma distribution monitors) on the instrumented library under an interposed clock",
    "Every generated scene and sample was consistent; distributions are judged to 8 standard errors; sampled.", assumptions=[FP], floor={"quick": 6000, "thorough": 100000})
add("C23", [dict(harness="c23", mode="asan", quick=5000, thorough=120000, limit=60), dict(harness="c23", mode="memcheck", quick=900, thorough=12000, limit=300)],
    "random programs of 5-60 calls over every public module (geometry with wild values; sparse and dense graphs with all nodes, factors and kernels, grown while in use, destroyed in any order while the user keeps parts; unsolvable graphs; optimizer; point sets of right and wrong shape; solves of 20-60 iterations; removal of factors that are not neighbours; planes, registrations and scenes with valid and invalid times and ids), each run under AddressSanitizer + UndefinedBehaviorSanitizer with the heap balance taken around it, and again under valgrind memcheck (uninitialised values); distinct = different call sequences",
    "compiler sanitizers (clang ASan+UBSan, heap-balance and ownership monitors) and valgrind memcheck over random API programs",
    "No executed program had a memory error, undefined behaviour, a decision on an uninitialised value or unreleased memory; pointer arithmetic on the null data of empty Eigen matrices is not judged; sampled.",
    assumptions=["sanitizer and memcheck detection guarantees; system Eigen headers"], floor={"quick": 3000, "thorough": 60000})
add("C24", [dict(harness="c24", mode="tsan", quick=1400, thorough=40000, limit=40, shards=4)],
    "2-8 threads released together, each running 1-3 random programs (geometry on shared constant poses, sparse and dense graphs built and solved, optimizer, point-set alignment on shared constant clouds, planes and registrations, scenes) with random pauses, in 60 % of the cases all of the same kind; the same programs then run sequentially in two orders; distinct = different program seeds",
    "ThreadSanitizer over concurrent random API programs and a bit-exact comparison of every thread's results with sequential runs",
    "No executed schedule raced and all results were bit identical; schedules are those the kernel and the injected pauses produced.",
    assumptions=["ThreadSanitizer happens-before detection; libstdc++ streams are not instrumented"], floor={"quick": 700, "thorough": 15000})
add("C25", [dict(harness="c25", python=True, quick=30000, thorough=300000, env={"MALLOC_PERTURB_": "165"})],
    "random Python programs (geometry, covariances, point-set alignment, whole factor-graph histories with every node, factor and kernel, plane registrations, scenes) with arguments in 15 memory layouts and dtypes, by position, keyword or default; every value is compared with the same C++ call made through a C interface; callers scribble over their buffers, write into returned arrays and drop the owners; wrong shapes, types and ids; distinct = different argument bytes",
    "differential runtime monitors between the Python module and the C++ library (C interface), aliasing and lifetime monitors with perturbed freed memory",
    "Every executed Python call agreed with its C++ operation; sampled.", assumptions=["pybind11 2.11 with numpy 1.26; a stand-in for scipy.sparse receives the sparse matrices"], floor={"quick": 20000, "thorough": 150000})
