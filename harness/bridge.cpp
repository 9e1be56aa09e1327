// C interface straight to the C++ library: the oracle of the Python workload (c25.py).
// Arrays are row-major doubles.  Every function returns 0, or -1 when the library threw.
#include <memory>
#include <vector>
#include <cstring>
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane_registration.hpp"
using namespace mrob;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RM;
static RM in(const double *p, int r, int c) { return Eigen::Map<const RM>(p, r, c); }
template <class M> static void out(double *p, const M &m) { for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) *p++ = m(i, j); }
static SE3 pose(const double *p) { SE3 T; T.ref2T() = in(p, 4, 4); return T; }
static SO3 rota(const double *p) { SO3 R; R.ref2R() = in(p, 3, 3); return R; }
static Factor::robustFactorType kernel(int k) { switch (k) { case 1: return Factor::robustFactorType::CAUCHY; case 2: return Factor::robustFactorType::HUBER; case 3: return Factor::robustFactorType::MCCLURE; case 4: return Factor::robustFactorType::RANSAC; } return Factor::robustFactorType::QUADRATIC; }
static PlaneRegistration::SolveMode smode(int k) { typedef PlaneRegistration::SolveMode S; switch (k) { case 0: return S::INITIALIZE; case 1: return S::GRADIENT_BENGIOS_NAG; case 2: return S::GRADIENT_ALL_POSES; case 3: return S::GN_HESSIAN; case 4: return S::GN_CLAMPED_HESSIAN; case 5: return S::LM_SPHER; } return S::LM_ELLIP; }
#define BODY(...) try { __VA_ARGS__; return 0; } catch (std::exception &) { return -1; }
struct Gr : FGraphSolve { Factor::robustFactorType rb; };
extern "C" {
// geometry: a, b are 4x4 / 3x3 as the operation needs, v a vector
int vb_geo(int op, const double *a, const double *b, const double *v, int n, double *o) {
    BODY(switch (op) {
        case 0: out(o, SE3(Mat61(in(v, 6, 1))).T()); break;
        case 1: out(o, pose(a).mul(pose(b)).T()); break;
        case 2: { SE3 T = pose(a); T.update_lhs(Mat61(in(v, 6, 1))); out(o, T.T()); break; }
        case 3: { SE3 T = pose(a); T.update_rhs(Mat61(in(v, 6, 1))); out(o, T.T()); break; }
        case 4: out(o, pose(a).ln_vee()); break;
        case 5: out(o, pose(a).transform(Mat31(in(v, 3, 1)))); break;
        case 6: out(o, pose(a).transform_array(in(v, n, 3))); break;
        case 7: out(o, pose(a).inv().T()); break;
        case 8: out(o, pose(a).adj()); break;
        case 9: *o = pose(a).distance(pose(b)); break;
        case 10: *o = pose(a).distance_rotation(pose(b)); break;
        case 11: *o = pose(a).distance_trans(pose(b)); break;
        case 12: *o = isSE3(Mat4(in(a, 4, 4))); break;
        case 20: out(o, SO3(Mat31(in(v, 3, 1))).R()); break;
        case 21: out(o, rota(a).mul(rota(b)).R()); break;
        case 22: { SO3 T = rota(a); T.update_lhs(Mat31(in(v, 3, 1))); out(o, T.R()); break; }
        case 23: { SO3 T = rota(a); T.update_rhs(Mat31(in(v, 3, 1))); out(o, T.R()); break; }
        case 24: out(o, rota(a).ln_vee()); break;
        case 25: out(o, rota(a).inv().R()); break;
        case 26: out(o, rota(a).adj()); break;
        case 27: *o = rota(a).distance(rota(b)); break;
        case 28: *o = isSO3(Mat3(in(a, 3, 3))); break;
        case 30: out(o, hat3(Mat31(in(v, 3, 1)))); break;
        case 31: out(o, hat6(Mat61(in(v, 6, 1)))); break;
        case 32: out(o, quat_to_so3(Mat41(in(v, 4, 1)))); break;
        case 33: out(o, so3_to_quat(Mat3(in(a, 3, 3)))); break;
        case 34: out(o, rpy_to_so3(Mat31(in(v, 3, 1)))); break;
        case 35: out(o, curly_wedge(Mat61(in(v, 6, 1)))); break;
        case 36: { SE3 T(SO3(Mat31(in(v, 3, 1))), Mat31(in(v + 3, 3, 1))); out(o, T.T()); break; }
    })
}
// covariance compounding: (Ta, Sa) op (Tb, Sb); how 0 second order, 1 fourth order, 2 product, 3 mul
int vb_cov(int how, const double *Ta, const double *Sa, const double *Tb, const double *Sb, double *oT, double *oS) {
    BODY(SE3Cov a(pose(Ta), Mat6(in(Sa, 6, 6))), b(pose(Tb), Mat6(in(Sb, 6, 6))); SE3Cov r = how == 0 ? a.compound_2nd_order(b) : how == 1 ? a.compound_4th_order(b) : how == 2 ? a * b : a.mul(b); out(oT, r.T()); out(oS, r.cov()))
}
int vb_arun(const double *X, const double *Y, int n, double *T) { BODY(SE3 R; PCRegistration::arun(in(X, n, 3), in(Y, n, 3), R); out(T, R.T())) }
int vb_gicp(const double *X, const double *Y, const double *cx, const double *cy, int n, double *T) { BODY(SE3 R; PCRegistration::gicp(in(X, n, 3), in(Y, n, 3), in(cx, 3 * n, 3), in(cy, 3 * n, 3), R); out(T, R.T())) }
int vb_weighted(const double *X, const double *Y, const double *w, int n, double *T) { BODY(SE3 R; MatX1 W = in(w, n, 1); PCRegistration::weighted_point(in(X, n, 3), in(Y, n, 3), W, R); out(T, R.T())) }
int vb_plane(int what, const double *X, int n, double *o) { BODY(if (what == 0) out(o, estimate_plane(in(X, n, 3))); if (what == 1) out(o, estimate_normal(in(X, n, 3))); if (what == 2) out(o, estimate_centroid(in(X, n, 3)))) }
// graphs
void *vb_graph(int robust) { Gr *g = new Gr; g->rb = kernel(robust); return g; }
void vb_free(void *g) { delete (Gr *)g; }
int vb_node(void *p, int kind, const double *x, int mode) {
    Gr *g = (Gr *)p; auto m = mode ? Node::nodeMode::ANCHOR : Node::nodeMode::STANDARD; std::shared_ptr<Node> n;
    switch (kind) { case 0: n = std::make_shared<NodePose2d>(Mat31(in(x, 3, 1)), m); break; case 1: n = std::make_shared<NodeLandmark2d>(Mat21(in(x, 2, 1)), m); break; case 2: n = std::make_shared<NodePose3d>(pose(x), m); break; case 3: n = std::make_shared<NodeLandmark3d>(Mat31(in(x, 3, 1)), m); break; default: n = std::make_shared<NodePlane4d>(Mat41(in(x, 4, 1)), m); }
    return (int)g->add_node(n);
}
int vb_factor(void *p, int kind, const double *z, int a, int b, const double *W, int init) {
    Gr *g = (Gr *)p; std::shared_ptr<Factor> f; auto A = g->get_node(a); std::shared_ptr<Node> B; if (b >= 0) B = g->get_node(b); auto rb = g->rb;
    switch (kind) {
        case 0: f = std::make_shared<Factor1Pose2d>(Mat31(in(z, 3, 1)), A, Mat3(in(W, 3, 3)), rb); break;
        case 1: f = std::make_shared<Factor2Poses2d>(Mat31(in(z, 3, 1)), A, B, Mat3(in(W, 3, 3)), (bool)init, rb); break;
        case 2: f = std::make_shared<Factor2Poses2dOdom>(Mat31(in(z, 3, 1)), A, B, Mat3(in(W, 3, 3)), true, rb); break;
        case 3: f = std::make_shared<Factor1Pose1Landmark2d>(Mat21(in(z, 2, 1)), A, B, Mat2(in(W, 2, 2)), (bool)init, rb); break;
        case 4: f = std::make_shared<Factor1Pose3d>(pose(z), A, Mat6(in(W, 6, 6)), rb); break;
        case 5: f = std::make_shared<Factor2Poses3d>(pose(z), A, B, Mat6(in(W, 6, 6)), (bool)init, rb); break;
        case 6: f = std::make_shared<Factor1Pose1Landmark3d>(Mat31(in(z, 3, 1)), A, B, Mat3(in(W, 3, 3)), (bool)init, rb); break;
        case 7: f = std::make_shared<Factor1Pose1Plane4d>(Mat41(in(z, 4, 1)), A, B, Mat4(in(W, 4, 4)), rb); break;
        default: f = std::make_shared<Factor1PosePoint2Plane>(Mat31(in(z, 3, 1)), Mat31(in(z + 3, 3, 1)), Mat31(in(z + 6, 3, 1)), A, Mat1(in(W, 1, 1)), rb);
    }
    return (int)g->add_factor(f);
}
int vb_solve(void *p, int method, int maxIters, double lambda, double tol) { BODY(((Gr *)p)->solve(method ? FGraphSolve::optimMethod::LM : FGraphSolve::optimMethod::GN, maxIters, lambda, tol)) }
double vb_chi2(void *p, int evaluate) { return ((Gr *)p)->chi2((bool)evaluate); }
int vb_state(void *p, int i, double *o) { auto s = ((Gr *)p)->get_estimated_state(); out(o, s[i]); return (int)(s[i].rows() * 100 + s[i].cols()); }
int vb_matrix(void *p, int which, double *o, int *rc) {
    Gr *g = (Gr *)p; RM m; if (which == 0) m = RM(Eigen::MatrixXd(g->get_information_matrix())); if (which == 1) m = RM(Eigen::MatrixXd(g->get_adjacency_matrix())); if (which == 2) m = RM(Eigen::MatrixXd(g->get_W_matrix())); if (which == 3) m = g->get_vector_b(); if (which == 4) m = g->get_chi2_array();
    rc[0] = (int)m.rows(); rc[1] = (int)m.cols(); if (o) out(o, m); return 0;
}
// plane registration
void *vb_reg() { return new PlaneRegistration; }
void vb_reg_free(void *p) { delete (PlaneRegistration *)p; }
int vb_reg_op(void *p, int op, int a, int b, const double *v, double *o) {
    PlaneRegistration &r = *(PlaneRegistration *)p;
    BODY(switch (op) {
        case 0: r.set_number_planes_and_poses(a, b); break;
        case 1: r.add_new_plane(a); break;
        case 2: { Mat31 x = in(v, 3, 1); r.plane_push_back_point(a, b, x); break; }
        case 3: *o = r.solve(smode(a), (bool)b); break;
        case 4: *o = r.get_current_error(); break;
        case 5: out(o, r.get_trajectory(a).T()); break;
        case 6: { SE3 T = pose(v); r.set_last_pose(T); break; }
        case 7: r.reset_solution(); break;
        case 8: *o = r.get_number_poses(); break;
        case 9: { auto c = r.get_point_cloud(a); *o++ = c.size(); for (auto &x : c) { out(o, x); o += 3; } break; }
        case 10: { auto e = r.print_evaluate(); for (double x : e) *o++ = x; break; }
        case 11: out(o, r.get_last_pose().T()); break;
    })
}
}
