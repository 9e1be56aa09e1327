// C23: random programs over the whole public interface, run under AddressSanitizer + UndefinedBehaviorSanitizer
// (heap balance checked after every program) and, in the memcheck stage, under valgrind.
#include <memory>
#include <algorithm>
#include <functional>
#include "graphgen.hpp"
#include "pcgen.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include "mrob/optimizer.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
#include "mrob/time_profiling.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif
using namespace ref; using namespace mon; using namespace gg;
static volatile double sink; static void eat(double x) { if (x > 0) sink = x; else sink = -x; }   // a decision on every value read back
template <class D> static void eat(const Eigen::MatrixBase<D> &m) { double s = 0; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) s += m(i, j) > 0 ? 1 : 0; eat(s); }
static void eats(const mrob::SMatCol &m) { eat(Eigen::MatrixXd(m)); }
struct Prog { Rng r; std::map<std::string, int> did; int thrown = 0; std::string log; void op(const char *n) { did[n]++; log += n; log += ' '; }
    // a call the user got wrong: must throw or be ignored
    template <class F> void wrong(const char *n, F f) { op(n); try { f(); } catch (std::exception &) { ++thrown; } } };
static double weird(Rng &r) { switch (r.i(0, 9)) { case 0: return 0; case 1: return -0.0; case 2: return r.sgn() * r.logu(1e-300, 1e-3); case 3: return r.sgn() * r.logu(1e3, 1e300); case 4: return r.p(0.3) ? NAN : M_PI; case 5: return r.p(0.3) ? INFINITY : -M_PI; default: return r.u(-4, 4); } }
template <class M> static M wmat(Rng &r, bool wild) { M m; for (int i = 0; i < m.size(); ++i) m.data()[i] = wild ? weird(r) : r.u(-2, 2); return m; }
static mrob::SE3 rpose(Rng &r) { return mrob::SE3(mrob::Mat4(pose(r, 3.1, 3))); }

// ---------------------------------------------------------------- geometry
static void geometry(Prog &p) {
    Rng &r = p.r; std::vector<mrob::SE3> E; std::vector<mrob::SO3> R; std::vector<mrob::SE3Cov> C; E.reserve(200); R.reserve(200); C.reserve(200); E.emplace_back(); R.emplace_back(); C.emplace_back(); bool wild = r.p(0.3);
    for (int k = r.i(5, 40); k > 0; --k) {
        mrob::SE3 &a = E[r.i(0, E.size() - 1)], &b = E[r.i(0, E.size() - 1)]; mrob::SO3 &u = R[r.i(0, R.size() - 1)], &v = R[r.i(0, R.size() - 1)]; mrob::SE3Cov &x = C[r.i(0, C.size() - 1)], &y = C[r.i(0, C.size() - 1)];
        switch (r.i(0, 21)) {
            case 0: p.op("exp"); E.push_back(mrob::SE3(wmat<mrob::Mat61>(r, wild))); break;
            case 1: p.op("so3"); R.push_back(mrob::SO3(wmat<mrob::Mat31>(r, wild))); break;
            case 2: p.op("mul"); E.push_back(a * b); E.push_back(a.mul(b)); break;
            case 3: p.op("selfmul"); a = a * a; u = u * u; break;
            case 4: p.op("update"); a.update_lhs(wmat<mrob::Mat61>(r, wild)); b.update_rhs(wmat<mrob::Mat61>(r, wild)); u.update_lhs(wmat<mrob::Mat31>(r, wild)); v.update_rhs(wmat<mrob::Mat31>(r, wild)); break;
            case 5: p.op("ln"); eat(a.ln_vee()); eat(a.ln()); eat(u.ln_vee()); { double o; eat(u.ln(&o)); eat(o); } break;
            case 6: p.op("inv"); E.push_back(a.inv()); R.push_back(u.inv()); break;
            case 7: p.op("adj"); eat(a.adj()); eat(u.adj()); break;
            case 8: p.op("transform"); eat(a.transform(wmat<mrob::Mat31>(r, wild))); { mrob::MatX P = mrob::MatX::Random(r.i(0, 9), 3); eat(a.transform_array(P)); } break;
            case 9: p.wrong("transform-array-shape", [&] { mrob::MatX P = mrob::MatX::Random(r.i(0, 6), r.pick(std::vector<int>{0, 1, 2, 4, 7})); eat(a.transform_array(P)); }); break;
            case 10: p.op("distance"); eat(a.distance(b)); eat(a.distance()); eat(a.distance_rotation(b)); eat(a.distance_trans(b)); eat(u.distance(v)); break;
            case 11: p.op("regenerate"); a.regenerate(); break;
            case 12: p.op("print"); a.print(); a.print_lie(); u.print(); u.print_lie(); x.print(); break;
            case 13: p.op("valid"); eat((double)mrob::isSE3(a.T())); eat((double)mrob::isSO3(u.R())); eat((double)mrob::isSO3(wmat<mrob::Mat3>(r, true))); eat((double)mrob::isSE3(wmat<mrob::Mat4>(r, true))); break;
            case 14: p.op("quat"); eat(mrob::so3_to_quat(u.R())); eat(mrob::quat_to_so3(wmat<mrob::Mat41>(r, wild))); eat(mrob::rpy_to_so3(wmat<mrob::Mat31>(r, wild))); break;
            case 15: p.op("hat"); eat(mrob::hat3(wmat<mrob::Mat31>(r, wild))); eat(mrob::vee6(mrob::hat6(wmat<mrob::Mat61>(r, wild)))); eat(mrob::vee3(mrob::hat3(wmat<mrob::Mat31>(r, wild)))); eat(mrob::curly_wedge(wmat<mrob::Mat61>(r, wild))); break;
            case 16: p.op("parts"); E.push_back(mrob::SE3(u, a.t())); E.push_back(mrob::SE3(u.R(), a.t())); eat(a.R()); a.ref2T() = b.T(); u.ref2R() = v.R(); break;
            case 17: p.op("cov"); { mrob::Mat6 S = wmat<mrob::Mat6>(r, wild); S = S * S.transpose().eval(); C.push_back(mrob::SE3Cov(a, S)); } break;
            case 18: p.op("compound"); C.push_back(x.compound_2nd_order(y)); C.push_back(x.compound_4th_order(y)); C.push_back(x.compound_2nd_order(a, y.cov())); C.push_back(x.compound_4th_order(a, x.cov())); C.push_back(x * y); C.push_back(x.mul(y)); break;
            case 19: p.op("copy"); { mrob::SE3 q(a); E.push_back(q); mrob::SE3Cov z(x); C.push_back(z); mrob::SO3 w(u); R.push_back(w); a = a; } break;
            case 20: p.op("expmat"); { mrob::SE3 q; q.exp(mrob::hat6(wmat<mrob::Mat61>(r, wild))); E.push_back(q); mrob::SO3 w; w.exp(mrob::hat3(wmat<mrob::Mat31>(r, wild))); R.push_back(w); } break;
            default: p.op("drop"); if (E.size() > 3) E.erase(E.begin() + r.i(0, E.size() - 1)); if (C.size() > 3) C.erase(C.begin());
        }
        if (E.size() > 40) E.resize(20); if (C.size() > 20) C.resize(10, mrob::SE3Cov());
    }
}
// ---------------------------------------------------------------- graphs
template <class G> static void look(Prog &p, G &g, std::vector<NP> &N, std::vector<FP> &F) {
    Rng &r = p.r;
    switch (r.i(0, 9)) {
        case 0: p.op("print"); g.print(r.p(0.7)); break;
        case 1: p.op("counts"); eat((double)g.number_nodes()); eat((double)g.number_factors()); break;
        case 2: p.wrong("bad-node-id", [&] { int n = g.number_nodes(); eat((double)g.get_node(r.pick(std::vector<long>{n, n + 1, n + 1000, -1, 1L << 40}))->get_dim()); }); break;
        case 3: p.wrong("bad-factor-id", [&] { int n = g.number_factors(); eat((double)g.get_factor(r.pick(std::vector<long>{n, n + 1, n + 1000, -1, 1L << 40}))->get_dim()); }); break;
        case 4: if (!N.empty()) { p.op("node-state"); auto &n = N[r.i(0, N.size() - 1)]; eat(Eigen::MatrixXd(n->get_state())); eat(Eigen::MatrixXd(n->get_auxiliary_state())); n->print(); eat((double)n->get_neighbour_factors()->size()); for (auto &f : *n->get_neighbour_factors()) eat((double)f->get_id()); } break;
        case 5: if (!F.empty()) { p.op("factor-evaluate"); auto &f = F[r.i(0, F.size() - 1)]; f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); eat(f->get_chi2()); eat(Eigen::MatrixXd(f->get_residual())); eat(Eigen::MatrixXd(f->get_jacobian())); f->print(); eat(f->evaluate_robust_weight(std::sqrt(f->get_chi2()))); for (auto &n : *f->get_neighbour_nodes()) eat((double)n->get_dim()); } break;
        case 6: if (!F.empty()) { p.op("factor-look"); auto &f = F[r.i(0, F.size() - 1)]; eat(f->get_chi2()); eat(Eigen::MatrixXd(f->get_residual())); eat(Eigen::MatrixXd(f->get_jacobian())); eat(Eigen::MatrixXd(f->get_obs())); eat(Eigen::MatrixXd(f->get_information_matrix())); f->print(); eat((double)f->get_dim() + f->get_all_nodes_dim() + f->get_id()); } break;
        case 7: if (!g.number_nodes()) break; p.op("get"); { auto n = g.get_node(r.i(0, g.number_nodes() - 1)); eat((double)n->get_id()); if (g.number_factors()) eat((double)g.get_factor(r.i(0, g.number_factors() - 1))->get_id()); } break;
        case 8: if (!N.empty() && !F.empty()) { p.op("foreign-rm-factor"); auto &n = N[r.i(0, N.size() - 1)]; auto &f = F[r.i(0, F.size() - 1)]; bool mine = false; for (auto &q : *n->get_neighbour_factors()) mine |= q == f; if (!mine) { size_t k = n->get_neighbour_factors()->size(); bool ret = n->rm_factor(f); if (ret || n->get_neighbour_factors()->size() != k) p.did["ERASED-WHAT-IS-NOT-THERE"]++; } else { n->rm_factor(f); n->add_factor(f); } } break;
        default: if (!N.empty()) { p.op("node-update"); auto &n = N[r.i(0, N.size() - 1)]; mrob::MatX1 d(n->get_dim()); for (int i = 0; i < d.size(); ++i) d(i) = 0.1 * r.g(); n->set_auxiliary_state(n->get_state()); if (r.p(0.5)) n->update(d); else n->update_from_auxiliary(d); if (r.p(0.3)) n->set_state(n->get_auxiliary_state()); } break;
    }
}
static void solveit(Prog &p, mrob::FGraphSolve &g) {
    Rng &r = p.r; bool lm = r.p(0.5); p.op(lm ? "lm" : "gn"); if (lm && r.p(0.15)) { p.op("long-lm"); g.solve(mrob::FGraphSolve::LM, r.i(20, 60), r.logu(1e-9, 1e3), 0.0); } else if (lm) g.solve(mrob::FGraphSolve::LM, r.i(1, 6), r.logu(1e-9, 1e3), r.logu(1e-9, 1)); else g.solve(mrob::FGraphSolve::GN);
    if (r.p(0.5)) { p.op("matrices"); eats(g.get_information_matrix()); eats(mrob::SMatCol(g.get_adjacency_matrix())); eats(mrob::SMatCol(g.get_W_matrix())); eat(g.get_vector_b()); eat(g.get_chi2_array()); }
    if (r.p(0.5)) { p.op("state"); eat(g.chi2(r.p(0.5))); for (auto &m : g.get_estimated_state()) eat(m); }
}
static void solveit(Prog &p, mrob::FGraphSolveDense &g) { Rng &r = p.r; int k = r.i(0, 2); p.op("dense"); g.solve((mrob::Optimizer::optimMethod)k, r.i(1, 6), r.logu(1e-9, 1e3)); eat(g.calculate_error()); }
template <class G> static void graph(Prog &p) {
    Rng &r = p.r; Opt o; o.noise = r.p(0.3) ? 0 : 0.1; o.init = 0.2; o.kernels = true; o.maxposes = r.p(0.2) ? 14 : 5; Spec s = gen(r, o); auto ops = creation(s, r); auto g = std::make_unique<G>(); std::vector<NP> N(s.n.size()), live; std::vector<FP> F; std::vector<std::weak_ptr<mrob::Node>> wn; std::vector<std::weak_ptr<mrob::Factor>> wf; int dens = r.i(2, 12);
    if (r.p(0.2)) { p.op("early-print"); g->print(true); }
    for (int q : ops) {
        if (q >= 0) { N[q] = mknode(s.n[q]); g->add_node(N[q]); live.push_back(N[q]); wn.push_back(N[q]); }
        else { auto &f = s.f[-1 - q]; FP x = mkfac(f, N[f.a], f.b >= 0 ? N[f.b] : NP(), r.p(0.3)); g->add_factor(x); F.push_back(x); wf.push_back(x); }
        if (r.i(0, dens) == 0) look(p, *g, live, F);
    }
    for (size_t i = 0; i < s.n.size() && r.p(0.5); ++i) if (s.n[i].k == P3) { mrob::Mat31 a(r.g(), r.g(), r.g()), b(r.g(), r.g(), r.g()), n = unit3(r); mrob::Mat1 W; W << 1; FP x = std::make_shared<mrob::Factor1PosePoint2Plane>(a, b, n, N[i], W); g->add_factor(x); F.push_back(x); wf.push_back(x); p.op("point2plane"); }
    for (int k = r.i(0, 6); k > 0; --k) { look(p, *g, live, F); if (r.p(0.5)) solveit(p, *g); if (r.p(0.2)) { NP n = std::make_shared<mrob::NodePose3d>(rpose(r)); g->add_node(n); live.push_back(n); wn.push_back(n); FP f = std::make_shared<mrob::Factor1Pose3d>(rpose(r), n, mrob::Mat6::Identity()); g->add_factor(f); F.push_back(f); wf.push_back(f); p.op("grow"); } }
    N.clear();
    // destruction in any order, use of what the user still holds
    int order = r.i(0, 4); p.op(order == 0 ? "graph-first" : order == 1 ? "factors-first" : order == 2 ? "nodes-first" : order == 3 ? "users-first" : "into-another-graph");
    if (order == 0) { g.reset(); for (auto &f : F) { f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); eat(f->get_chi2()); f->print(); } for (auto &n : live) { n->print(); eat((double)n->get_neighbour_factors()->size()); } if (r.p(0.5)) live.clear(); for (auto &f : F) { f->evaluate_residuals(); eat((double)f->get_neighbour_nodes()->size()); } }
    if (order == 1) { F.clear(); solveit(p, *g); g.reset(); }
    if (order == 2) { live.clear(); solveit(p, *g); for (auto &f : F) f->evaluate_chi2(); F.clear(); g.reset(); }
    if (order == 3) { F.clear(); live.clear(); look(p, *g, live, F); solveit(p, *g); g->print(true); g.reset(); }
    if (order == 4) { g.reset(); auto h = std::make_unique<mrob::FGraphSolve>(); for (auto &n : live) h->add_node(n); for (auto &f : F) h->add_factor(f); solveit(p, *h); eat(h->chi2(true)); h.reset(); }
    g.reset(); F.clear(); live.clear(); int alive = 0; for (auto &w : wn) alive += !w.expired(); for (auto &w : wf) alive += !w.expired(); if (alive) p.did["LEAKED-OBJECTS"] += alive;
}
// graphs that cannot be solved: nothing, only anchors, no factors, no gauge
static void odd(Prog &p) {
    Rng &r = p.r; mrob::FGraphSolve g; int kind = r.i(0, 4); std::vector<NP> N; std::vector<FP> F; static const char *names[] = {"empty", "only-anchors", "no-factors", "no-gauge", "disconnected"}; p.op(names[kind]); bool d3 = r.p(0.5);
    auto nn = [&](bool anchor) { NP n; if (d3) n = std::make_shared<mrob::NodePose3d>(rpose(r), mode(anchor)); else n = std::make_shared<mrob::NodePose2d>(mrob::Mat31(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)), mode(anchor)); g.add_node(n); N.push_back(n); return n; };
    auto ff = [&](NP a, NP b) { FP f; if (d3) f = std::make_shared<mrob::Factor2Poses3d>(rpose(r), a, b, mrob::Mat6::Identity()); else f = std::make_shared<mrob::Factor2Poses2d>(mrob::Mat31(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)), a, b, mrob::Mat3::Identity()); g.add_factor(f); F.push_back(f); };
    int n = kind == 0 ? 0 : r.i(2, 5); for (int i = 0; i < n; ++i) nn(kind == 1 || (kind == 4 && i == 0)); if (kind == 1 || kind == 3 || kind == 4) for (int i = 1; i < n; ++i) if (kind != 4 || i != n - 1) ff(N[i - 1], N[i]);
    for (int k = r.i(1, 5); k > 0; --k) { look(p, g, N, F); if (r.p(0.7)) solveit(p, g); }
    p.op("matrices"); eats(g.get_information_matrix()); eats(mrob::SMatCol(g.get_adjacency_matrix())); eat(g.get_vector_b()); eat(g.get_chi2_array()); for (auto &m : g.get_estimated_state()) eat(m); eat(g.chi2(true));
}
// ---------------------------------------------------------------- generic optimizer
struct Bowl : mrob::OptimizerDense { Eigen::VectorXd x, keep, w; int n; double kink; Bowl(Rng &r) : mrob::OptimizerDense(r.logu(1e-9, 1e-1), r.logu(1e-9, 1)), n(r.i(1, 6)), kink(r.u(-1, 1)) { x.resize(n); w.resize(n); for (int i = 0; i < n; ++i) { x(i) = r.u(-3, 3); w(i) = r.u(0.1, 3); } keep = x; gradient_.resize(n); hessian_.resize(n, n); }
    mrob::matData_t calculate_error() override { double s = 0; for (int i = 0; i < n; ++i) s += w(i) * x(i) * x(i) + kink * std::cos(x(i)); return s; }
    void calculate_gradient_hessian() override { gradient_.setZero(); hessian_.setZero(); for (int i = 0; i < n; ++i) { gradient_(i) = 2 * w(i) * x(i) - kink * std::sin(x(i)); hessian_(i, i) = 2 * w(i) - kink * std::cos(x(i)); } }
    void update_state() override { x += dx_; } void bookkeep_state() override { keep = x; } void update_state_from_bookkeep() override { x = keep; } };
static void optimizer(Prog &p) { Rng &r = p.r; Bowl b(r); for (int k = r.i(1, 4); k > 0; --k) { p.op("optimize"); eat((double)b.solve((mrob::Optimizer::optimMethod)r.i(0, 2), r.i(1, 30), r.logu(1e-9, 1e3))); eat(b.x); eat(b.calculate_error()); } mrob::TimeProfiling t; for (int k = r.i(1, 8); k > 0; --k) { p.op("profile"); switch (r.i(0, 3)) { case 0: t.start(); break; case 1: t.stop(r.p(0.5) ? "a key longer than the small-string buffer" : ""); break; case 2: t.print(); break; default: t.reset(); } eat(t.total_time()); } }
// ---------------------------------------------------------------- point sets
static mrob::MatX shape(Rng &r, int n, int m) { mrob::MatX X(n, m); for (int i = 0; i < X.size(); ++i) X.data()[i] = r.u(-1, 1); return X; }
static void pointsets(Prog &p) {
    Rng &r = p.r; for (int k = r.i(1, 6); k > 0; --k) {
        int n = r.p(0.3) ? r.i(0, 4) : r.i(5, 60); bool bad = r.p(0.4); int n2 = bad && r.p(0.5) ? r.i(0, 60) : n, m1 = bad && r.p(0.5) ? r.i(0, 5) : 3, m2 = bad && r.p(0.5) ? r.i(0, 5) : 3; mrob::MatX X = shape(r, n, m1), Y = shape(r, n2, m2); bool degen = r.p(0.2); if (degen && n && m1 == 3) for (int i = 1; i < n; ++i) X.row(i) = X.row(0) * (r.p(0.5) ? 1.0 : 2.0); mrob::SE3 T = r.p(0.5) ? mrob::SE3() : rpose(r); if (!bad && n && r.p(0.6)) Y = T.transform_array(X);
        switch (r.i(0, 5)) {
            case 0: p.wrong(bad ? "arun-shape" : "arun", [&] { eat((double)mrob::PCRegistration::arun(X, Y, T)); eat(T.T()); }); break;
            case 1: p.wrong(bad ? "weighted-shape" : "weighted", [&] { mrob::MatX1 w(bad && r.p(0.5) ? r.i(0, 60) : n); for (int i = 0; i < w.size(); ++i) w(i) = r.u(0, 2); eat((double)mrob::PCRegistration::weighted_point(X, Y, w, T, r.logu(1e-9, 1e-1))); eat(T.T()); }); break;
            case 2: p.wrong(bad ? "gicp-shape" : "gicp", [&] { int c1 = bad && r.p(0.5) ? r.i(0, 190) : 3 * n; mrob::MatX cx(c1, 3), cy(3 * n2, 3); for (int i = 0; i < cx.rows() / 3; ++i) cx.block(3 * i, 0, 3, 3) = mrob::Mat3::Identity() * r.u(0.1, 2); for (int i = 0; i < n2; ++i) cy.block(3 * i, 0, 3, 3) = mrob::Mat3::Identity(); for (int i = cx.rows() / 3 * 3; i < cx.rows(); ++i) cx.row(i).setZero(); eat((double)mrob::PCRegistration::gicp(X, Y, cx, cy, T, r.logu(1e-9, 1e-1))); eat(T.T()); }); break;
            case 3: p.wrong(bad ? "plane-shape" : "plane", [&] { eat(mrob::estimate_plane(X)); }); break;
            case 4: p.wrong(bad ? "normal-shape" : "normal", [&] { eat(mrob::estimate_normal(X)); }); break;
            default: p.wrong(bad ? "centroid-shape" : "centroid", [&] { eat(mrob::estimate_centroid(X)); });
        }
    }
}
// ---------------------------------------------------------------- planes, registrations, scenes
static void planes(Prog &p) {
    Rng &r = p.r; int T = r.i(1, 6); auto traj = std::make_shared<std::vector<mrob::SE3>>(T); for (auto &x : *traj) if (r.p(0.5)) x = rpose(r); auto P = std::make_shared<mrob::Plane>(T); P->set_trajectory(traj); auto badt = [&] { return (unsigned)(r.p(0.5) ? T : r.p(0.5) ? T + r.i(1, 1000) : -1); }; bool est = false;
    for (int k = r.i(4, 40); k > 0; --k) { unsigned t = r.i(0, T - 1); switch (r.i(0, 15)) {
        case 0: case 1: case 2: case 3: { p.op("push"); mrob::Mat31 q = wmat<mrob::Mat31>(r, false); P->push_back_point(q, t); break; }
        case 4: { p.wrong("push-bad-time", [&] { mrob::Mat31 q = wmat<mrob::Mat31>(r, false); P->push_back_point(q, badt()); }); break; }
        case 5: p.wrong("points-bad-time", [&] { eat((double)P->get_points(badt()).size()); }); break;
        case 6: p.op("estimate"); eat(P->estimate_plane()); est = true; break;
        case 7: p.wrong("estimate-incrementally", [&] { eat(P->estimate_plane_incrementally(r.p(0.7) ? t : badt())); }); break;
        case 8: p.wrong("error-incremental", [&] { eat(P->get_error_incremental(r.p(0.7) ? t : badt())); }); break;
        case 9: p.wrong("gradient", [&] { unsigned u = r.p(0.7) ? t : badt(); if (!est && r.p(0.7)) { P->estimate_plane(); est = true; } eat(P->calculate_gradient(u)); eat(P->calculate_hessian(u)); }); break;
        case 10: p.wrong("mean", [&] { unsigned u = r.p(0.7) ? t : badt(); eat(P->get_mean_point(u)); }); break;
        case 11: p.op("clear"); P->clear_points(); break;
        case 12: p.op("reset"); P->reset(); est = false; break;
        case 13: p.wrong("counts", [&] { eat((double)P->get_total_number_points()); eat((double)P->get_number_points(t)); eat((double)P->get_number_points(badt())); eat((double)P->get_points(t).size()); }); break;
        case 14: p.op("print"); P->print(); if (est) eat(P->get_plane()); break;
        default: p.op("scatter"); P->calculate_all_matrices_S(r.p(0.5)); P->reserve(r.i(0, 100), t); P->reserve(r.i(0, 100), badt()); (*traj)[t] = rpose(r); break; } }
    if (r.p(0.5)) { traj.reset(); eat(P->estimate_plane()); }
}
static void scenes(Prog &p) {
    Rng &r = p.r; int T = r.i(2, 5), M = r.i(1, 6); std::unique_ptr<mrob::CreatePoints> S; auto R = std::make_unique<mrob::PlaneRegistration>(); std::vector<std::shared_ptr<mrob::Plane>> held; if (r.p(0.2)) { p.op("unset-registration"); eat(R->get_current_error()); R->print(); R->reset_solution(); }
    if (r.p(0.6)) { p.op("scene"); S = std::make_unique<mrob::CreatePoints>(r.i(0, 60), M, T, r.p(0.3) ? 0 : 0.05, r.p(0.3) ? 0 : 0.1); S->create_plane_registration(*R); p.wrong("scene-bad-time", [&] { eat((double)S->get_point_cloud(T + r.i(0, 5)).size()); }); p.wrong("scene-bad-time", [&] { eat((double)S->get_point_plane_ids(T + r.i(0, 5)).size()); }); p.wrong("scene-bad-pose", [&] { eat(S->get_ground_truth_pose(T + r.i(0, 5)).T()); }); S->print(); if (r.p(0.3)) S.reset(); }
    else { p.op("registration"); R->set_number_planes_and_poses(M, T); for (int m = 0; m < M; ++m) { unsigned id = r.i(0, 2 * M); if (r.p(0.5)) { auto P = std::make_shared<mrob::Plane>(T); R->add_plane(id, P); if (r.p(0.5)) held.push_back(P); } else R->add_new_plane(id); } }
    for (int k = r.i(3, 20); k > 0; --k) switch (r.i(0, 11)) {
        case 0: case 1: case 2: { p.wrong("push", [&] { mrob::Mat31 q = wmat<mrob::Mat31>(r, false); std::vector<unsigned> ids; for (auto &x : R->get_all_planes()) ids.push_back(x.first); unsigned id = ids.empty() || r.p(0.1) ? r.i(0, 100) : r.pick(ids); R->plane_push_back_point(id, r.p(0.85) ? r.i(0, T - 1) : T + r.i(0, 10), q); }); break; }
        case 3: case 4: case 5: { static const int modes[] = {0, 1, 2, 3, 4, 5, 6, 7}; int m = modes[r.i(0, 7)]; p.op("solve"); eat((double)R->solve((mrob::PlaneRegistration::SolveMode)m, m == 2 || m == 3 || r.p(0.5))); break; }
        case 6: p.op("evaluate"); for (double x : R->print_evaluate()) eat(x); break;
        case 7: { p.op("set-last"); auto x = rpose(r); R->set_last_pose(x); break; }
        case 8: p.op("reset"); R->reset_solution(); break;
        case 9: p.wrong("cloud", [&] { eat((double)R->get_point_cloud(r.p(0.6) ? r.i(0, T - 1) : T + r.i(0, 5)).size()); }); p.wrong("trajectory", [&] { eat(R->get_trajectory(r.p(0.6) ? r.i(0, T - 1) : T + r.i(0, 5)).T()); }); eat(R->get_last_pose().T()); break;
        case 10: { p.op("rmse"); std::vector<mrob::SE3> gt(T); eat(R->calculate_poses_rmse(gt)); eat((double)R->calculate_total_number_points()); eat(R->get_current_error()); R->print(r.p(0.5)); break; }
        default: if (S && r.p(0.5)) { p.op("transfer-again"); S->create_plane_registration(*R); } else if (r.p(0.2)) { p.op("interpolate"); eat((double)R->solve_interpolate_gradient(true)); eat((double)R->solve_gradient_all_poses(true)); } }
    if (r.p(0.5)) { p.op("registration-first"); R.reset(); for (auto &P : held) { eat((double)P->get_total_number_points()); eat(P->estimate_plane()); } } else { held.clear(); S.reset(); eat(R->get_current_error()); }
}
typedef void (*Fn)(Prog &);
static void run(Case &c, Fn f) {
    Prog a; a.r = c.r; bool leaked = false; size_t d1 = 0, d2 = 0; a.log.reserve(8192);
#ifdef VERIF_ASAN
    auto once = [&](size_t &d) { Prog q; q.r = c.r; size_t b0 = __sanitizer_get_current_allocated_bytes(); { Prog z; z.r = c.r; f(z); } size_t b1 = __sanitizer_get_current_allocated_bytes(); d = b1 - b0; };
    once(d1); if (d1) { once(d2); leaked = d2 != 0 && (long)d2 > 0; }
#endif
    if (!leaked) f(a); c.note = a.log.substr(0, 700); uint64_t h = hash_bytes(a.log.data(), a.log.size()); c.mark(&h, sizeof h); int ops = 0; for (auto &k : a.did) { if (k.first == "ERASED-WHAT-IS-NOT-THERE") { c.viol("erased-past-the-end", "a node lost a factor it was not asked to remove"); continue; } if (k.first == "LEAKED-OBJECTS") { c.viol("objects-alive", fmt("%d nodes or factors alive after every owner is gone", k.second)); continue; } c.seen("op:" + k.first, k.second); ops += k.second; } c.seen("operations", ops); c.seen("rejected-calls", a.thrown); c.ok(!leaked, "memory-not-released", fmt("%ld bytes per run of the program", (long)d2));
}
SCENARIO(geometry, 3) { run(c, geometry); }
SCENARIO(sparse_graph, 5) { run(c, graph<mrob::FGraphSolve>); }
SCENARIO(dense_graph, 3) { run(c, graph<mrob::FGraphSolveDense>); }
SCENARIO(unsolvable_graph, 2) { run(c, odd); }
SCENARIO(optimizer, 1) { run(c, optimizer); }
SCENARIO(pointsets, 3) { run(c, pointsets); }
SCENARIO(planes, 3) { run(c, planes); }
SCENARIO(scenes, 3) { run(c, scenes); }
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
