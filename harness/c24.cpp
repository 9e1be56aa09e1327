// C24: mixed programs on disjoint objects, first one after the other, then concurrently (2-8 threads, start barrier,
// random pauses) under ThreadSanitizer; every thread's hash of all results must equal the sequential one bit for bit.
#include <memory>
#include <algorithm>
#include <atomic>
#include <thread>
#include "graphgen.hpp"
#include "pcgen.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
#include "mrob/optimizer.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
#include "mrob/time_profiling.hpp"
using namespace ref; using namespace mon; using namespace gg;
// constant inputs every thread reads
struct Shared { std::vector<mrob::SE3> E; std::vector<mrob::SO3> R; std::vector<mrob::SE3Cov> C; mrob::MatX X, Y, covX, covY; mrob::MatX1 w; Spec s; std::vector<int> ops; };
struct Th { Rng r, pr; uint64_t h = 1469598103934665603ULL; uint64_t events = 0; bool noisy = false; std::string last; std::vector<std::pair<std::string, uint64_t>> trail;
    void put(double x) { if (x != x) x = NAN; h = hash_bytes(&x, sizeof x, h); ++events; }
    template <class D> void put(const Eigen::MatrixBase<D> &m) { put((double)m.rows()); put((double)m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) put((double)m(i, j)); }
    void op(const char *n) { trail.push_back({n, h}); if (noisy) switch (pr.i(0, 9)) { case 0: case 1: std::this_thread::yield(); break; case 2: usleep(pr.i(1, 60)); break; default: break; } } };
static mrob::SE3 rp(Rng &r) { return mrob::SE3(mrob::Mat4(pose(r, 3.1, 3))); }
static mrob::Mat61 v6(Rng &r, double s) { mrob::Mat61 v; for (int i = 0; i < 6; ++i) v(i) = s * r.u(-1, 1); return v; }
static mrob::Mat31 v3(Rng &r, double s) { mrob::Mat31 v; for (int i = 0; i < 3; ++i) v(i) = s * r.u(-1, 1); return v; }

static void geometry(Th &t, const Shared &S) {
    Rng &r = t.r; mrob::SE3 a = rp(r), b = rp(r); mrob::SO3 u(v3(r, 3)), v(v3(r, 1e-6));
    for (int k = r.i(5, 25); k > 0; --k) { const mrob::SE3 &s = S.E[r.i(0, S.E.size() - 1)]; const mrob::SO3 &q = S.R[r.i(0, S.R.size() - 1)];
        switch (r.i(0, 11)) {
            case 0: t.op("exp"); a = mrob::SE3(v6(r, r.p(0.3) ? 1e-7 : 3)); t.put(a.T()); break;
            case 1: t.op("ln"); t.put(a.ln_vee()); t.put(u.ln_vee()); t.put(s.ln_vee()); t.put(q.ln_vee()); { double o; t.put(q.ln(&o)); t.put(o); } break;
            case 2: t.op("mul"); a = a * s; b = s.mul(a); u = u * q; t.put(a.T()); t.put(b.T()); t.put(u.R()); break;
            case 3: t.op("update"); a.update_lhs(v6(r, 1)); b.update_rhs(v6(r, 1)); u.update_lhs(v3(r, 1)); v.update_rhs(v3(r, 1)); t.put(a.T()); t.put(b.T()); t.put(u.R()); t.put(v.R()); break;
            case 4: t.op("inv"); t.put(a.inv().T()); t.put(s.inv().T()); t.put(q.inv().R()); break;
            case 5: t.op("adj"); t.put(a.adj()); t.put(s.adj()); t.put(q.adj()); break;
            case 6: t.op("transform"); t.put(s.transform(v3(r, 2))); t.put(s.transform_array(S.X)); break;
            case 7: t.op("distance"); t.put(a.distance(s)); t.put(s.distance_rotation(a)); t.put(s.distance_trans(b)); t.put(q.distance(u)); break;
            case 8: t.op("valid"); t.put((double)mrob::isSE3(s.T())); t.put((double)mrob::isSO3(q.R())); break;
            case 9: t.op("conversions"); t.put(mrob::so3_to_quat(q.R())); t.put(mrob::quat_to_so3(mrob::so3_to_quat(u.R()))); t.put(mrob::rpy_to_so3(v3(r, 3))); t.put(mrob::hat6(v6(r, 1))); t.put(mrob::curly_wedge(v6(r, 1))); break;
            case 10: t.op("cov"); { const mrob::SE3Cov &c = S.C[r.i(0, S.C.size() - 1)], &d = S.C[r.i(0, S.C.size() - 1)]; auto x = c.compound_2nd_order(d), y = d.compound_4th_order(c), z = c * d; t.put(x.T()); t.put(x.cov()); t.put(y.cov()); t.put(z.cov()); } break;
            default: t.op("regenerate"); a.regenerate(); t.put(a.T()); t.put(s.T()); t.put(q.R()); t.put(s.R()); t.put(s.t());
        } }
}
static void sparse(mrob::FGraphSolve &g, Th &t) {
    Rng &r = t.r; if (r.p(0.5)) { t.op("lm"); g.solve(mrob::FGraphSolve::LM, r.i(1, 8), r.logu(1e-9, 1e2), r.logu(1e-9, 1e-1)); } else { t.op("gn"); g.solve(mrob::FGraphSolve::GN); }
    t.op("read"); for (auto &m : g.get_estimated_state()) t.put(m); t.put(g.chi2(r.p(0.5))); if (r.p(0.5)) { t.put(Eigen::MatrixXd(g.get_information_matrix())); t.put(Eigen::MatrixXd(g.get_adjacency_matrix())); t.put(Eigen::MatrixXd(g.get_W_matrix())); t.put(g.get_vector_b()); t.put(g.get_chi2_array()); }
}
static void sparse(mrob::FGraphSolveDense &g, Th &t) { Rng &r = t.r; t.op("dense"); g.solve((mrob::Optimizer::optimMethod)r.i(0, 2), r.i(1, 6), r.logu(1e-9, 1e2)); t.put(g.calculate_error()); }
template <class G> static void graph(Th &t, const Shared &S) {
    Rng &r = t.r; Spec own; const Spec *s = &S.s; std::vector<int> ops = S.ops; if (r.p(0.7)) { Opt o; o.noise = 0.05; o.init = 0.1; o.kernels = true; o.maxposes = 4; own = gen(r, o); s = &own; ops = creation(own, r); }
    { t.op("build"); auto B = build<G>(*s, ops); for (int q : B.nid) t.put((double)q); for (int q : B.fid) t.put((double)q); t.put((double)B.g->number_nodes()); t.put((double)B.g->number_factors());
      for (int k = r.i(1, 3); k > 0; --k) { sparse(*B.g, t); for (auto &n : B.n) t.put(Eigen::MatrixXd(n->get_state())); if (r.p(0.3)) { t.op("print"); B.g->print(true); } }
      t.op("factors"); for (auto &f : B.f) { f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); t.put(Eigen::MatrixXd(f->get_residual())); t.put(Eigen::MatrixXd(f->get_jacobian())); t.put(f->get_chi2()); t.put(f->evaluate_robust_weight(1.3)); }
      t.op("neighbours"); for (auto &n : B.n) { t.put((double)n->get_neighbour_factors()->size()); mrob::MatX1 d(n->get_dim()); for (int i = 0; i < d.size(); ++i) d(i) = r.u(-4, 4); n->update(d); t.put(Eigen::MatrixXd(n->get_state())); n->set_auxiliary_state(n->get_state()); n->update_from_auxiliary(d); t.put(Eigen::MatrixXd(n->get_state())); }
      if (r.p(0.5)) { t.op("point2plane"); NP n = std::make_shared<mrob::NodePose3d>(rp(r)); B.g->add_node(n); mrob::Mat1 W; W << 1; for (int i = 0; i < 7; ++i) { FP f = std::make_shared<mrob::Factor1PosePoint2Plane>(v3(r, 2), v3(r, 2), mrob::Mat31(unit3(r)), n, W); B.g->add_factor(f); } sparse(*B.g, t); t.put(Eigen::MatrixXd(n->get_state())); }
      t.op("destroy"); }
    t.op("end");
}
struct Bowl : mrob::OptimizerDense { Eigen::VectorXd x, keep, w; int n; double kink; Bowl(Rng &r) : mrob::OptimizerDense(r.logu(1e-9, 1e-1), r.logu(1e-9, 1)), n(r.i(1, 6)), kink(r.u(-1, 1)) { x.resize(n); w.resize(n); for (int i = 0; i < n; ++i) { x(i) = r.u(-3, 3); w(i) = r.u(0.6, 3); } keep = x; gradient_.resize(n); hessian_.resize(n, n); }
    mrob::matData_t calculate_error() override { double s = 0; for (int i = 0; i < n; ++i) s += w(i) * x(i) * x(i) + kink * std::cos(x(i)); return s; }
    void calculate_gradient_hessian() override { gradient_.setZero(n); hessian_.setZero(n, n); for (int i = 0; i < n; ++i) { gradient_(i) = 2 * w(i) * x(i) - kink * std::sin(x(i)); hessian_(i, i) = 2 * w(i) - kink * std::cos(x(i)); } }
    void update_state() override { x += dx_; } void bookkeep_state() override { keep = x; } void update_state_from_bookkeep() override { x = keep; } };
static void optimizer(Th &t, const Shared &) { Rng &r = t.r; Bowl b(r); for (int k = r.i(1, 4); k > 0; --k) { t.op("optimize"); t.put((double)b.solve((mrob::Optimizer::optimMethod)r.i(0, 2), r.i(1, 20), r.logu(1e-9, 1e3))); t.put(b.x); t.put(b.calculate_error()); } mrob::TimeProfiling tp; for (int k = 0; k < 3; ++k) { t.op("profile"); tp.start(); tp.stop("a"); tp.start(); tp.stop("b"); } tp.print(); tp.reset(); }
static void clouds(Th &t, const Shared &S) {
    Rng &r = t.r; mrob::MatX X = S.X, Y = S.Y; bool own = r.p(0.5); if (own) for (int i = 0; i < X.size(); ++i) X.data()[i] += 0.1 * r.g();
    for (int k = r.i(1, 4); k > 0; --k) { mrob::SE3 T; const mrob::MatX &A = own ? X : S.X, &B = own ? Y : S.Y; switch (r.i(0, 4)) {
        case 0: t.op("arun"); t.put((double)mrob::PCRegistration::arun(A, B, T)); t.put(T.T()); break;
        case 1: t.op("weighted"); t.put((double)mrob::PCRegistration::weighted_point(A, B, S.w, T, 1e-4)); t.put(T.T()); break;
        case 2: t.op("gicp"); t.put((double)mrob::PCRegistration::gicp(A, B, S.covX, S.covY, T, 1e-4)); t.put(T.T()); break;
        default: t.op("plane"); t.put(mrob::estimate_plane(A)); t.put(mrob::estimate_normal(B)); t.put(mrob::estimate_centroid(A)); } }
}
static void planes(Th &t, const Shared &) {
    Rng &r = t.r; int T = r.i(2, 4), NP_ = r.i(3, 5); mrob::PlaneRegistration reg; reg.set_number_planes_and_poses(NP_, T); t.op("fill");
    for (int p = 0; p < NP_; ++p) { auto pl = std::make_shared<mrob::Plane>(T); mrob::SE3 W = rp(r); for (int k = 0; k < T; ++k) for (int i = 0; i < 6; ++i) { mrob::Mat31 x(r.u(-1, 1), r.u(-1, 1), 0.01 * r.g()); x = W.transform(x); pl->push_back_point(x, k); } reg.add_plane(p, pl); }
    for (int k = r.i(1, 3); k > 0; --k) { static const int M[] = {0, 2, 3, 4, 6, 7}; int m = M[r.i(0, 5)]; t.op("register"); t.put((double)reg.solve((mrob::PlaneRegistration::SolveMode)m, r.p(0.5))); t.put(reg.get_current_error()); for (int q = 0; q < T; ++q) t.put(reg.get_trajectory(q).T()); if (r.p(0.3)) { t.op("evaluate"); auto ev = reg.print_evaluate(); for (size_t q = 0; q < ev.size(); ++q) if (q != 4) t.put(ev[q]); /* 4: time spent */ } if (r.p(0.3)) { t.op("reset"); reg.reset_solution(); } }
    t.op("clouds"); for (auto &x : reg.get_point_cloud(r.i(0, T - 1))) t.put(x);
    mrob::Plane pl(T); auto traj = std::make_shared<std::vector<mrob::SE3>>(T); pl.set_trajectory(traj); for (int k = 0; k < T; ++k) for (int i = 0; i < 6; ++i) { mrob::Mat31 x = v3(r, 1); pl.push_back_point(x, k); } t.op("plane-estimate"); t.put(pl.estimate_plane()); for (int k = 0; k < T; ++k) { t.put(pl.calculate_gradient(k)); t.put(pl.get_error_incremental(k)); } t.put(pl.estimate_plane_incrementally(1));
}
static void scenes(Th &t, const Shared &) { Rng &r = t.r; t.op("scene"); int N = r.i(1, 60), P = r.i(1, 5), T = r.i(1, 4); mrob::CreatePoints c(N, P, T, 0.01, 0.1); double n = 0; for (int k = 0; k < T; ++k) n += c.get_point_cloud(k).size(); t.put(n); mrob::PlaneRegistration reg; t.op("scene-register"); c.create_plane_registration(reg); t.put((double)reg.get_number_poses()); mrob::SampleUniformSE3 s1(1, 2); mrob::SE3 q = s1.samplePose(); t.put((double)mrob::isSE3(q.T())); }

typedef void (*Prog)(Th &, const Shared &);
static const struct { const char *n; Prog f; } PR[] = {{"geometry", geometry}, {"sparse-graph", graph<mrob::FGraphSolve>}, {"dense-graph", graph<mrob::FGraphSolveDense>}, {"optimizer", optimizer}, {"clouds", clouds}, {"planes", planes}, {"scenes", scenes}, {"sparse-graph", graph<mrob::FGraphSolve>}};
static void runall(Case &c, bool sameKind) {
    Rng &r = c.r; Shared S; for (int i = 0; i < 4; ++i) { S.E.push_back(rp(r)); S.R.push_back(mrob::SO3(v3(r, 2))); mrob::Mat6 F; for (int k = 0; k < 36; ++k) F.data()[k] = 0.1 * r.g(); mrob::Mat6 Q = F * F.transpose(); S.C.push_back(mrob::SE3Cov(rp(r), Q)); }
    S.E.push_back(mrob::SE3()); S.R.push_back(mrob::SO3()); S.R.push_back(mrob::SO3(mrob::Mat31(M_PI, 0, 0)));
    int n = r.i(4, 25); S.X.resize(n, 3); for (int i = 0; i < S.X.size(); ++i) S.X.data()[i] = r.u(-2, 2); S.Y = mrob::SE3(v6(r, 0.3)).transform_array(S.X); S.w.resize(n); S.covX.resize(3 * n, 3); S.covY.resize(3 * n, 3); for (int i = 0; i < n; ++i) { S.w(i) = r.u(0.5, 2); S.covX.block(3 * i, 0, 3, 3) = mrob::Mat3::Identity() * r.u(0.5, 2); S.covY.block(3 * i, 0, 3, 3) = mrob::Mat3::Identity() * r.u(0.5, 2); for (int q = 0; q < 3; ++q) S.Y(i, q) += 0.01 * r.g(); }
    Opt o; o.noise = 0.05; o.init = 0.1; o.maxposes = 4; S.s = gen(r, o); S.ops = creation(S.s, r);
    int T = r.i(2, 8), rounds = r.i(1, 3); int kind = r.i(0, 7); std::vector<int> prog; std::vector<uint64_t> seeds; std::string d = fmt("%d threads:", T);
    for (int i = 0; i < T * rounds; ++i) { prog.push_back(sameKind ? kind : r.i(0, 7)); seeds.push_back(sameKind && i && r.p(0.4) ? seeds[0] : r.next()); if (i < T) d += std::string(" ") + PR[prog.back()].n; }
    c.describe(d + fmt(", %d rounds", rounds)); for (auto s : seeds) c.mark(&s, sizeof s);
    auto exec = [&](int i, bool conc, std::vector<Th> &out) { Th &t = out[i]; t.r = Rng(seeds[i], 5); t.pr = Rng(seeds[i] ^ 0x55, c.idx); t.noisy = conc; try { PR[prog[i]].f(t, S); } catch (std::exception &e) { t.last = e.what(); t.put(-12345); } };
    // concurrently first: one-time initialisation must be safe as well; then twice sequentially
    std::vector<Th> con(T * rounds), seq(T * rounds), seq2(T * rounds); std::atomic<int> go(0); std::atomic<uint64_t> tick(0); std::vector<uint64_t> first(T), lastt(T);
    { std::vector<std::thread> th; for (int k = 0; k < T; ++k) th.emplace_back([&, k] { go.fetch_add(1); while (go.load(std::memory_order_relaxed) < T) std::this_thread::yield(); first[k] = tick.fetch_add(1, std::memory_order_relaxed); for (int q = 0; q < rounds; ++q) exec(k + q * T, true, con); lastt[k] = tick.fetch_add(1, std::memory_order_relaxed); }); for (auto &x : th) x.join(); }
    for (int i = 0; i < T * rounds; ++i) exec(i, false, seq); for (int i = T * rounds - 1; i >= 0; --i) exec(i, false, seq2);
    int overlap = 0; for (int a = 0; a < T; ++a) for (int b = 0; b < a; ++b) overlap += first[a] < lastt[b] && first[b] < lastt[a]; c.seen("overlapping-thread-pairs", overlap); c.seen("threads", T); uint64_t ord = 0; for (int a = 0; a < T; ++a) ord = ord * 9 + lastt[a]; c.seen(fmt("finish-order-%llu", (unsigned long long)(hash_bytes(&ord, 8) % 64)));
    for (int i = 0; i < T * rounds; ++i) {
        c.seen(std::string("program:") + PR[prog[i]].n); c.seen("values-hashed", con[i].events); for (auto &q : con[i].trail) c.seen("call:" + q.first);
        auto cmp = [&](Th &a, Th &b, const char *key) { if (a.h == b.h && a.events == b.events) { c.ok(true, key); return; } std::string w = "end"; for (size_t k = 0; k < a.trail.size() && k < b.trail.size(); ++k) if (a.trail[k].second != b.trail[k].second) { w = k ? a.trail[k - 1].first : "start"; break; } c.ok(false, std::string(key) + ":" + PR[prog[i]].n, fmt("program %d (%s) differs in or after '%s'; %s %s", i, PR[prog[i]].n, w.c_str(), a.last.c_str(), b.last.c_str())); };
        cmp(con[i], seq[i], "concurrent-result-differs-from-sequential"); cmp(seq[i], seq2[i], "result-depends-on-other-objects");
    }
}
SCENARIO(same_kind, 3) { runall(c, true); }
SCENARIO(mixed, 2) { runall(c, false); }
// formatting state of std::cout, which the library's printing shares with the whole process
extern "C" const char *__tsan_default_suppressions() { return "race:std::ios_base::width\nrace:std::ios_base::precision\nrace:std::ios_base::flags\nrace:std::ios_base::setf\nrace:std::ios_base::unsetf\nrace:std::basic_ios\nrace:Eigen::internal::print_matrix\n"; }
int main(int argc, char **argv) { return main_loop(argc, argv); }
