// C21: multi-pose plane registration driven through random histories, against an independent error model and the truth.
#include <memory>
#include <set>
#include <algorithm>
#include "ref.hpp"
#include "mrob/plane_registration.hpp"
#include "mrob/create_points.hpp"
using namespace ref; using namespace mon;
typedef mrob::PlaneRegistration PR;
static const char *MN[] = {"initialize", "gradient", "nag", "gradient-all", "gn", "gn-clamped", "lm-spherical", "lm-elliptical"};
struct World { int T; std::vector<M4> truth; std::vector<unsigned> id; std::vector<std::vector<std::vector<D3>>> p; std::vector<V4> plane; V6 xi; double noise; int total() const { int n = 0; for (auto &a : p) for (auto &b : a) n += b.size(); return n; } };
// same: every plane is seen through the same physical points at every time
static World world(Rng &r, int M, bool same, double noise, double miss, int kmax = 12) {
    World w; w.T = r.p(0.08) ? r.i(7, 24) : r.i(2, 6); w.noise = noise; w.xi << lv(unit3(r)) * r.u(0, 1.8), lv(D3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1))); for (int t = 0; t < w.T; ++t) w.truth.push_back(exp6(V6(w.xi * ((L)t / (w.T - 1))))); std::set<unsigned> ids; w.p.resize(M);
    for (int m = 0; m < M; ++m) { unsigned id; do { id = r.p(0.7) ? m : r.i(0, 1000); } while (!ids.insert(id).second); w.id.push_back(id); M4 P = exp6(V6(lv(twist(r, 3.1, 3)))); V3 n = rot(P).col(2); V4 pl; pl << n, -n.dot(tra(P)); w.plane.push_back(pl); w.p[m].resize(w.T); std::vector<V3> phys; int k = r.i(3, kmax); for (int i = 0; i < k; ++i) phys.push_back(V3(r.u(-1, 1), r.u(-1, 1), 0)); for (int t = 0; t < w.T; ++t) { if (r.p(miss)) continue; M4 Ti = inv(w.truth[t]); if (!same) { phys.clear(); k = r.i(3, kmax); for (int i = 0; i < k; ++i) phys.push_back(V3(r.u(-1, 1), r.u(-1, 1), noise * r.g())); } for (auto &q : phys) w.p[m][t].push_back(dm(MX(act(Ti, act(P, q))))); } } return w;
}
static void load(Rng &r, const World &w, PR &R) {
    R.set_number_planes_and_poses(w.p.size(), w.T); for (size_t m = 0; m < w.p.size(); ++m) { std::shared_ptr<mrob::Plane> P; bool own = r.p(0.5); if (own) P = std::make_shared<mrob::Plane>(w.T); else R.add_new_plane(w.id[m]); for (int t = 0; t < w.T; ++t) for (auto &q : w.p[m][t]) { mrob::Mat31 y = q; if (own) P->push_back_point(y, t); else R.plane_push_back_point(w.id[m], t, y); } if (own) R.add_plane(w.id[m], P); }
}
static std::vector<M4> traj(PR &R, int T) { std::vector<M4> x; for (int t = 0; t < T; ++t) x.push_back(lm(R.get_trajectory(t).T())); return x; }
static L error(const World &w, const std::vector<M4> &x, double &scale) { L e = 0; scale = 0; for (auto &pm : w.p) { M4 Q = M4::Zero(); for (int t = 0; t < w.T; ++t) for (auto &q : pm[t]) { V4 h; h << lv(q), 1; V4 g = x[t] * h; Q += g * g.transpose(); } Eigen::SelfAdjointEigenSolver<M4> s(Q); e += s.eigenvalues()(0); scale += (double)Q.cwiseAbs().maxCoeff(); } return e; }
// derivative of the error with respect to each pose (left perturbation), false when a plane is not determined
static bool gradients(const World &w, const std::vector<M4> &x, std::vector<V6> &g, std::vector<int> &n) {
    g.assign(w.T, V6::Zero()); n.assign(w.T, 0); for (auto &pm : w.p) { std::vector<M4> Q(w.T, M4::Zero()); M4 S = M4::Zero(); for (int t = 0; t < w.T; ++t) { for (auto &q : pm[t]) { V4 h; h << lv(q), 1; V4 a = x[t] * h; Q[t] += a * a.transpose(); } S += Q[t]; n[t] += pm[t].size(); } if (S.isZero()) continue; Eigen::SelfAdjointEigenSolver<M4> e(S); if (e.eigenvalues()(1) - e.eigenvalues()(0) < 1e-5L * e.eigenvalues()(3)) return false; V4 v = e.eigenvectors().col(0); for (int t = 0; t < w.T; ++t) for (int i = 0; i < 6; ++i) { V6 u = V6::Zero(); u(i) = 1; g[t](i) += 2 * v.dot(hat6(u) * Q[t] * v); } } return true;
}
static bool valid(Case &c, const std::vector<M4> &x, const std::string &k) { bool okk = true; c.same(dm(MX(x[0])), Eigen::MatrixXd(Eigen::MatrixXd::Identity(4, 4)), "first-pose-moved:" + k); for (size_t t = 0; t < x.size(); ++t) { for (int i = 0; i < 16; ++i) if (!std::isfinite((double)x[t].data()[i])) { c.viol("pose-not-finite:" + k, fmt("time %d ", (int)t) + ms(x[t])); return false; } M3 R = rot(x[t]); c.bound((double)(R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), 1e-9, "pose-not-rotation:" + k); c.bound((double)std::fabs(R.determinant() - 1), 1e-9, "pose-not-rotation:" + k); c.ok(x[t].row(3) == Eigen::Matrix<L, 1, 4>(0, 0, 0, 1), "pose-last-row:" + k); } return okk; }
static void interpolated(Case &c, const std::vector<M4> &x, const std::string &k) { int T = x.size(); M4 last = x[T - 1]; M3 Ro = orth(rot(last)); V3 tl = tra(last); V6 xi = log6(mk(Ro, tl)); L w = xi.head<3>().norm(); if (w > 3.1L) { c.seen("half-turn-not-judged"); return; } for (int t = 0; t < T; ++t) { M4 e = exp6(V6(xi * ((L)t / (T - 1)))); c.bound((double)(e - x[t]).cwiseAbs().maxCoeff(), 1e-7 * (1 + (double)tl.norm()) / (3.1416 - (double)w), "not-interpolated:" + k, [&] { return fmt("time %d of %d ", t, T) + ms(x[t]) + " expected " + ms(e); }); } }
static mrob::SE3 pose6(const V6 &x) { mrob::Mat61 y = dm(MX(x)); return mrob::SE3(y); }
static void evaluate(Case &c, PR &R, const World &w, const std::string &k, double e, double sc) {
    auto x = traj(R, w.T); auto v = R.print_evaluate(); c.ok(v.size() == 13, "evaluation-size"); if (c.nviol) return; c.ok(v[0] == w.p.size(), "evaluation-planes:" + k, fmt("%g", v[0])); c.ok(v[1] == w.T, "evaluation-poses:" + k); c.ok(v[2] == w.total(), "evaluation-points:" + k, fmt("%g expected %d", v[2], w.total())); c.near(v[6], e, 1e-12 * sc, "evaluation-error:" + k); auto y = traj(R, w.T); for (int t = 0; t < w.T; ++t) c.same(dm(MX(y[t])), dm(MX(x[t])), "evaluation-moves-poses"); c.seen("evaluations");
}
static void cloudcheck(Case &c, PR &R, const World &w) { int t = c.r.i(0, w.T - 1); auto pc = R.get_point_cloud(t); auto key = [](const D3 &a) { return std::make_tuple(a(0), a(1), a(2)); }; std::vector<std::tuple<double, double, double>> a, b; for (auto &q : pc) a.push_back(key(q)); for (auto &m : w.p) for (auto &q : m[t]) b.push_back(key(q)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.ok(a == b, "point-cloud-at-time", fmt("%d points, expected %d", (int)a.size(), (int)b.size())); c.ok((int)R.calculate_total_number_points() == w.total(), "total-points"); }
SCENARIO(history, 6) {
    Rng &r = c.r; double noise = r.p(0.3) ? 0 : r.logu(1e-4, 0.1); int M = r.p(0.2) ? r.i(1, 3) : r.p(0.05) ? r.i(13, 40) : r.i(4, 12); World w = world(r, M, false, noise, r.p(0.4) ? r.u(0, 0.5) : 0); PR R; load(r, w, R); for (auto &m : w.p) for (auto &t : m) for (auto &q : t) c.mark(q); std::string lg = fmt("%d planes %d poses noise %.3g:", M, w.T, noise); auto say = [&](const std::string &s) { lg += " " + s; c.note = lg; }; double sc; bool inter = true; // identity trajectory is interpolated
    double alpha = NAN, beta = NAN; bool still = true; if (r.p(0.7)) R.set_alpha_parameter(alpha = r.u(0.05, 1)); if (r.p(0.7)) R.set_beta_parameter(beta = r.u(0, 0.5));
    for (int k = r.i(2, 6); k > 0; --k) {
        int op = r.i(0, 9); auto x = traj(R, w.T); double e0 = (double)error(w, x, sc);
        if (op <= 1) { V6 d; d << lv(unit3(r)) * r.logu(1e-6, 1.0), lv(D3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1))) * 0.3; mrob::SE3 s = r.p(0.7) ? pose6(V6(w.xi + d)) : pose6(V6(lv(twist(r, 2.5, 2)))); say("set_last_pose"); Eigen::MatrixXd s0 = s.T(); R.set_last_pose(s); auto y = traj(R, w.T); if (!valid(c, y, "set-last-pose")) return; c.near(dm(MX(y[w.T - 1])), s0, 1e-9, "last-pose-not-set"); c.near(Eigen::MatrixXd(R.get_last_pose().T()), dm(MX(y[w.T - 1])), 1e-300, "get-last-pose"); interpolated(c, y, "set-last-pose"); inter = true; continue; }
        if (op == 2) { say("reset"); R.reset_solution(); still = true; auto y = traj(R, w.T); for (auto &q : y) c.same(dm(MX(q)), Eigen::MatrixXd(Eigen::MatrixXd::Identity(4, 4)), "reset-not-identity"); e0 = (double)error(w, y, sc); c.near(R.get_current_error(), e0, 1e-12 * sc, "error-after-reset"); inter = true; cloudcheck(c, R, w); continue; }
        if (op == 3) { int m = r.i(0, M - 1); for (int i = r.i(1, 5); i > 0; --i) { int t = r.i(0, w.T - 1); D3 q(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2)); mrob::Mat31 y = q; R.plane_push_back_point(w.id[m], t, y); w.p[m][t].push_back(q); } say("push"); e0 = (double)error(w, x, sc); c.near(R.get_current_error(), e0, 1e-12 * sc, "error-after-adding-points"); cloudcheck(c, R, w); continue; }
        bool bare = false; for (int t = 1; t < w.T; ++t) { int n = 0; for (auto &m : w.p) n += m[t].size(); bare |= n == 0; }
        static const int modes[] = {0, 2, 2, 3, 3, 4, 6, 6, 7, 7}; int mode = modes[r.i(0, 9)]; if (mode == 4 && (M < 4 || bare)) mode = 6; if (mode == 7 && bare) mode = 6; bool single = r.p(0.5); if ((mode == 2 || mode == 3) && r.p(0.8)) single = true; say(std::string(MN[mode]) + (single ? "-single" : "")); std::string nm = MN[mode];
        unsigned ret = R.solve((PR::SolveMode)mode, single); auto y = traj(R, w.T); if (mode == 4) { bool fin = true; for (auto &q : y) for (int i = 0; i < 16; ++i) fin &= std::isfinite((double)q.data()[i]); if (!fin) { c.seen("newton-diverged"); return; } } // a full Newton step may leave every bound on bad starts
        if (mode == 0 && !ret) { c.seen("initialisation-failed"); if (!valid(c, y, nm)) return; inter = false; continue; }
        if (single && (mode == 3 || (mode == 2 && still)) && std::isfinite(alpha)) { std::vector<V6> g; std::vector<int> n; bool okk = gradients(w, x, g, n); if (mode == 3 && okk) { for (int t = 1; t < w.T; ++t) { V6 d = n[t] ? V6(g[t] * (-alpha / n[t] / w.T)) : V6(V6::Zero()); if (d.norm() > 2) continue; M4 e = exp6(d) * x[t]; c.bound((double)(e - y[t]).cwiseAbs().maxCoeff(), 1e-8 * (1 + (double)x[t].cwiseAbs().maxCoeff()) * (1 + (double)d.norm()), "gradient-step:" + nm, [&] { return fmt("time %d ", t) + ms(y[t]) + " expected " + ms(e); }); } c.seen("gradient-steps"); }
            if (mode == 2 && okk && std::isfinite(beta)) { V6 a = V6::Zero(); for (int t = 1; t < w.T; ++t) if (n[t]) a += g[t] * ((L)t / (w.T - 1) / n[t] / w.T); V6 d = a * (-(1 + beta) * alpha); if (d.norm() < 2) { M4 e = exp6(d) * x[w.T - 1]; c.bound((double)(e - y[w.T - 1]).cwiseAbs().maxCoeff(), 1e-8 * (1 + (double)x[w.T - 1].cwiseAbs().maxCoeff()) * (1 + (double)d.norm()), "gradient-step:" + nm, [&] { return ms(y[w.T - 1]) + " expected " + ms(e); }); c.seen("momentum-steps"); } } }
        if (mode == 2) still = false;
        if (!valid(c, y, nm)) return; double e1 = (double)error(w, y, sc); c.near(R.get_current_error(), e1, 1e-12 * sc * (1 + std::fabs((double)y[w.T - 1].cwiseAbs().maxCoeff())), "reported-error:" + nm);
        if (mode == 2 || mode == 4 || mode >= 6) { interpolated(c, y, nm); if (mode >= 6 && inter) c.bound(std::max(0.0, e1 - e0), 1e-11 * sc + 1e-9 * e0, "error-increased:" + nm, [&] { return fmt("from %.17g to %.17g", e0, e1); }); inter = true; } else inter = false;
        if (mode != 0) { evaluate(c, R, w, nm, e1, sc); auto v = R.print_evaluate(); double s2; (void)s2; c.near(v[5], e0, 1e-11 * sc + 1e-300, "evaluation-initial-error:" + nm); c.ok(v[3] >= 1 && v[3] <= (mode >= 4 ? 100 : single ? 1 : 10000), "iteration-limit:" + nm + (single ? ":single" : ""), fmt("%g", v[3])); for (int i = 0; i < 6; ++i) c.ok(std::isfinite(v[7 + i]) && (!i || v[7 + i] >= v[6 + i]), "evaluation-eigenvalues:" + nm); } else evaluate(c, R, w, nm, e1, sc); c.seen(nm);
    }
    std::vector<mrob::SE3> gt; double s = 0; auto x = traj(R, w.T); bool half = false; for (int t = 0; t < w.T; ++t) { gt.push_back(mrob::SE3(mrob::Mat4(dm(MX(w.truth[t]))))); M4 d = x[t] * inv(M4(lm(gt[t].T()))); M3 Ro = orth(rot(d)); V3 td = tra(d); V6 l = log6(mk(Ro, td)); half |= l.head<3>().norm() > 3.1L; s += (double)l.squaredNorm() / w.T; } if (!half) c.near(R.calculate_poses_rmse(gt), std::sqrt(s), 1e-6 * (1 + std::sqrt(s)), "poses-rmse"); cloudcheck(c, R, w); R.print(r.p(0.5));
}
SCENARIO(initialise, 3) { // planes seen through the same physical points: the first guess is exact whenever enough planes are shared with time zero
    Rng &r = c.r; int M = r.i(1, 10); World w = world(r, M, true, 0, r.p(0.6) ? r.u(0, 0.6) : 0); PR R; load(r, w, R); for (auto &m : w.p) for (auto &t : m) for (auto &q : t) c.mark(q); c.note = fmt("%d planes %d poses", M, w.T); bool solvable = true, judged = true; for (int t = 1; t < w.T; ++t) { std::vector<V3> a; for (auto &m : w.p) if (!m[0].empty() && !m[t].empty()) { V3 s = V3::Zero(); for (auto &q : m[0]) s += lv(q); a.push_back(s / (L)m[0].size()); } if (a.size() < 3) { solvable = false; continue; } V3 ce = V3::Zero(); for (auto &q : a) ce += q / (L)a.size(); M3 C = M3::Zero(); for (auto &q : a) C += (q - ce) * (q - ce).transpose(); Eigen::SelfAdjointEigenSolver<M3> e(C); if (!(e.eigenvalues()(1) > 1e-4L * e.eigenvalues()(2))) judged = false; }
    unsigned ret = R.solve(PR::INITIALIZE); auto x = traj(R, w.T); if (!valid(c, x, "initialize")) return; if (!judged) c.skip(); c.ok((ret != 0) == solvable, solvable ? "initialisation-failed" : "unsolvable-initialisation-accepted", fmt("returned %d", ret)); if (ret && solvable) for (int t = 0; t < w.T; ++t) c.near(dm(MX(x[t])), dm(MX(w.truth[t])), 1e-8, "initialisation-wrong"); evaluate(c, R, w, "initialize", (double)({ double s; error(w, x, s); }), 100.0 * w.total() + 1); c.seen(ret ? "initialised" : "not-initialisable");
}
static void recover(Case &c, int mode) {
    Rng &r = c.r; bool dense = r.p(0.3); World w = world(r, r.i(5, 12), false, 0, 0, dense ? 80 : 12); Eigen::Matrix<L, 6, 6> H = Eigen::Matrix<L, 6, 6>::Zero(); for (size_t m = 0; m < w.p.size(); ++m) { V3 n = w.plane[m].head<3>(); for (auto &q : w.p[m][w.T - 1]) { V6 g; V3 p0 = act(w.truth[w.T - 1], V3(lv(q))); g << p0.cross(n), n; H += g * g.transpose(); } } Eigen::SelfAdjointEigenSolver<Eigen::Matrix<L, 6, 6>> es(H); if (!(es.eigenvalues()(0) > 0.02L * es.eigenvalues()(5))) c.skip(); PR R; load(r, w, R); for (auto &m : w.p) for (auto &q : m[w.T - 1]) c.mark(q); V6 d; double far = dense && mode >= 6 ? 0.3 : 0.05; // full Newton steps only promise to converge from close by
    d << lv(unit3(r)) * r.u(0, far), lv(D3(unit3(r))) * r.u(0, far); mrob::SE3 s = pose6(V6(w.xi + d)); R.set_last_pose(s); c.note = fmt("%s %d planes %d poses", MN[mode], (int)w.p.size(), w.T); double sc; double e0 = (double)error(w, traj(R, w.T), sc);
    if (mode >= 6) { double ea, eb, sd; R.solve((PR::SolveMode)mode); ea = (double)error(w, traj(R, w.T), sd); R.solve((PR::SolveMode)mode); eb = (double)error(w, traj(R, w.T), sd); c.bound(ea, 3e-3, std::string("one-solve-leaves-error:") + MN[mode], [&] { return fmt("error %.4g after one solve from %.4g on exact data", ea, e0); }); c.bound(std::max(0.0, ea - eb), 1e-3, std::string("solve-ends-early:") + MN[mode], [&] { return fmt("a second solve improves from %.4g to %.4g", ea, eb); }); c.seen("single-solves"); }
    for (int k = 0; k < 60; ++k) R.solve((PR::SolveMode)mode); auto x = traj(R, w.T); if (!valid(c, x, MN[mode])) return; double e1 = (double)error(w, x, sc), dist = 0; for (int t = 0; t < w.T; ++t) dist = std::max(dist, (double)(x[t] - w.truth[t]).cwiseAbs().maxCoeff()); c.bound(std::max(0.0, e1 - e0), 1e-12 * sc, std::string("error-increased:") + MN[mode]); c.bound(dist, 4e-3, std::string("truth-not-recovered:") + MN[mode], [&] { return fmt("distance %.3g error %.3g from %.3g", dist, e1, e0); }); c.seen(std::string("recovered:") + MN[mode]);
}
SCENARIO(recover_gn, 1) { recover(c, 4); }
SCENARIO(recover_lms, 1) { recover(c, 6); }
SCENARIO(recover_lme, 1) { recover(c, 7); }
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
