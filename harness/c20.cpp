// C20: histories of operations on a plane observed from several poses, against a model that keeps all points.
#include <memory>
#include "ref.hpp"
#include "mrob/plane.hpp"
using namespace ref; using namespace mon;
struct Model {
    std::vector<std::vector<D3>> p; std::shared_ptr<std::vector<mrob::SE3>> tr; std::vector<M4> Q; std::vector<char> sync; double nq = 0; int ops = 0; int total = 0;
    M4 S(int t) const { M4 s = M4::Zero(); for (auto &x : p[t]) { V4 h; h << lv(x), 1; s += h * h.transpose(); } return s; }
    M4 fresh(int t) const { M4 T = lm((*tr)[t].T()); return T * S(t) * T.transpose(); }
    void syncAll() { for (size_t t = 0; t < p.size(); ++t) { Q[t] = fresh((int)t); sync[t] = 1; } }
    M4 sum() const { M4 s = M4::Zero(); for (auto &q : Q) s += q; return s; }
    bool others(int t) const { for (size_t i = 0; i < p.size(); ++i) if ((int)i != t && !sync[i]) return false; return true; }
};
static D3 point(Rng &r, const D4 &pl, double sc, double noise) { D3 n = pl.head<3>(); D3 a = n.unitOrthogonal(), b = n.cross(a); return a * r.u(-sc, sc) + b * r.u(-sc, sc) - n * (pl(3) - noise * r.g()); }
static void eig(Case &c, const M4 &Q, double got, const Eigen::MatrixXd &v, double tol, const std::string &k) {
    Eigen::SelfAdjointEigenSolver<M4> e(Q); L l = e.eigenvalues()(0); c.bound(std::fabs(got - (double)l), tol, "error-not-smallest-eigenvalue:" + k, [&] { return fmt("got %.17g expected %.17g", got, (double)l); }); V4 x = lv(v); c.bound((double)std::fabs(x.norm() - 1), 1e-14, "plane-not-unit:" + k); c.bound((double)(Q * x - x * l).norm(), 4 * tol, "plane-not-eigenvector:" + k, [&] { return ms(v) + " expected " + ms(e.eigenvectors().col(0)); });
}
static void history(Case &c, bool wild) {
    Rng &r = c.r; int T = r.p(0.06) ? r.i(7, 40) : r.i(1, 6); mrob::Plane P(T); Model m; m.p.resize(T); m.Q.assign(T, M4::Zero()); m.sync.assign(T, 0); m.tr = std::make_shared<std::vector<mrob::SE3>>(T); P.set_trajectory(m.tr); double sc = r.p(0.5) ? r.u(0.5, 3) : r.p(0.7) ? r.logu(1e-2, 1e2) : r.logu(1e-4, 1e4), noise = r.p(0.3) ? 0 : r.logu(1e-6, 0.3) * sc; D4 pl; pl << unit3(r), r.u(-2, 2) * sc; std::vector<std::string> log; std::string lg; bool est = false, grad = false; int L_ = r.i(6, wild ? 60 : 25); double amp = 0;
    auto say = [&](const std::string &s) { lg += s + " "; c.note = fmt("%d times scale %.3g noise %.3g: ", T, sc, noise) + (lg.size() > 700 ? "..." + lg.substr(lg.size() - 700) : lg); };
    auto push = [&](int n) { for (int i = 0; i < n; ++i) { int t = r.p(0.05) ? T + r.i(0, 3) : r.i(0, T - 1); D3 x = point(r, pl, sc, noise); mrob::Mat31 y = x; P.push_back_point(y, t); c.same(D3(y), x, "point-modified"); if (t < T) { m.p[t].push_back(x); m.sync[t] = 0; ++m.total; c.mark(x); } } say(fmt("push%d", n)); };
    auto setpose = [&](int t, bool small) { D6 x; if (small) x << unit3(r) * r.logu(1e-6, 0.3), tvec(r, 0.3 * sc); else x = twist(r, 3.1, 3 * sc); (*m.tr)[t] = small ? mrob::SE3(mrob::Mat61(x)) * (*m.tr)[t] : mrob::SE3(mrob::Mat61(x)); m.sync[t] = 0; say(fmt("pose(%d)", t)); };
    auto tol = [&]() { M4 q = m.sum(); amp = std::max(amp, (double)q.cwiseAbs().maxCoeff()); return 5e-14 * (4 + m.ops) * amp + 1e-300; };
    auto counts = [&] { int tot = 0; for (int t = 0; t < T; ++t) { c.ok(P.get_number_points(t) == m.p[t].size(), "points-at-time", fmt("time %d: %d expected %d", t, (int)P.get_number_points(t), (int)m.p[t].size())); tot += m.p[t].size(); auto &g = P.get_points(t); c.ok(g.size() == m.p[t].size(), "stored-points"); for (size_t i = 0; i < std::min(g.size(), m.p[t].size()); ++i) c.same(g[i], m.p[t][i], "stored-point"); } c.ok((int)P.get_total_number_points() == tot, "total-points", fmt("%d expected %d", (int)P.get_total_number_points(), tot)); };
    push(r.p(0.004) ? r.i(1000, 6000) : r.i(T, 12 * T)); for (int t = 0; t < T; ++t) if (r.p(0.8)) setpose(t, false);
    for (int k = 0; k < L_; ++k) switch (r.i(0, 11)) {
        case 0: if (wild || !est) push(r.i(1, 8)); break;
        case 1: setpose(r.i(0, T - 1), r.p(0.6)); break;
        case 2: case 3: { say("estimate"); double l = P.estimate_plane(); m.syncAll(); m.ops = 0; amp = 0; eig(c, m.sum(), l, P.get_plane(), tol(), "estimate"); c.ok(P.get_error() == l, "get-error:estimate", fmt("%.17g returned %.17g", P.get_error(), l)); est = true; c.seen("estimates"); break; }
        case 4: case 5: { if (!est) break; int t = r.i(0, T - 1); if (!m.others(t)) break; bool after = r.p(0.7); if (after) setpose(t, r.p(0.7)); Eigen::MatrixXd v = P.get_plane(); double e0 = P.get_error(); say(fmt("error_incremental(%d)", t)); double l = P.get_error_incremental(t); Model n = m; n.Q[t] = m.fresh(t); M4 Q = n.sum(); m.ops += 1; amp = std::max(amp, (double)Q.cwiseAbs().maxCoeff()); Eigen::SelfAdjointEigenSolver<M4> e(Q); c.near(l, (double)e.eigenvalues()(0), tol(), "incremental-error"); c.same(Eigen::MatrixXd(P.get_plane()), v, "incremental-error-changes-plane"); c.ok(P.get_error() == e0, "incremental-error-changes-error"); c.seen("incremental-errors"); break; }
        case 6: case 7: { if (!est) break; int t = r.i(0, T - 1); if (!m.others(t)) break; if (r.p(0.8)) setpose(t, r.p(0.7)); say(fmt("estimate_incremental(%d)", t)); double l = P.estimate_plane_incrementally(t); m.Q[t] = m.fresh(t); m.sync[t] = 1; m.ops += 2; eig(c, m.sum(), l, P.get_plane(), tol(), "incremental"); c.ok(P.get_error() == l, "get-error:incremental", fmt("%.17g returned %.17g", P.get_error(), l)); c.seen("incremental-estimates"); break; }
        case 8: { if (!est || !m.others(-1)) break; int t = r.i(0, T - 1); say(fmt("gradient(%d)", t)); Eigen::MatrixXd v = P.get_plane(); Eigen::MatrixXd g = P.calculate_gradient(t); V4 x = lv(v); x /= x.norm(); V6 w; for (int i = 0; i < 6; ++i) { V6 u = V6::Zero(); u(i) = 1; M4 G = hat6(u); w(i) = 2 * x.dot(G * m.Q[t] * x); } c.near(g, dm(MX(w)), 20 * tol(), "gradient"); c.same(Eigen::MatrixXd(P.get_plane()), v, "gradient-changes-plane"); grad = true; c.seen("gradients");
            Eigen::SelfAdjointEigenSolver<M4> e(m.sum()); if (r.p(0.2) && e.eigenvalues()(1) - e.eigenvalues()(0) > 1e-2L * e.eigenvalues()(1)) { V6 fd; L h = 1e-6L; for (int i = 0; i < 6; ++i) { V6 u = V6::Zero(); u(i) = h; L f[2]; for (int s = 0; s < 2; ++s) { M4 E = exp6(s ? V6(-u) : u), Q = m.sum() - m.Q[t] + E * m.Q[t] * E.transpose(); Eigen::SelfAdjointEigenSolver<M4> q(Q); f[s] = q.eigenvalues()(0); } fd(i) = (f[0] - f[1]) / (2 * h); } L sc2 = m.sum().cwiseAbs().maxCoeff(), gp = (e.eigenvalues()(1) - e.eigenvalues()(0)); c.near(g, dm(MX(fd)), (double)(1e-10L * sc2 * (1 + sc2 / gp)), "gradient-not-derivative"); c.seen("finite-differences"); } break; }
        case 9: { counts(); break; }
        case 10: { int t = r.i(0, T - 1); if (m.p[t].empty()) break; if (!est) { P.calculate_all_matrices_S(); } say(fmt("mean(%d)", t)); V3 s = V3::Zero(); double mx = 0; for (auto &x : m.p[t]) { s += lv(x); mx = std::max(mx, x.cwiseAbs().maxCoeff()); } c.near(Eigen::MatrixXd(P.get_mean_point(t)), dm(MX(s / (L)m.p[t].size())), 1e-15 * m.p[t].size() * mx + 1e-15 * mx, "mean-point"); c.seen("means"); break; }
        case 11: { int q = r.i(0, 3); if (q == 0 && wild) { say("clear"); P.clear_points(); for (auto &x : m.p) x.clear(); m.sync.assign(T, 0); counts(); push(r.i(T, 8 * T)); est = false; } else if (q == 1) { say("reset"); P.reset(); est = false; } else if (q == 2) { say("S"); P.calculate_all_matrices_S(r.p(0.5)); } else counts(); break; }
    }
    say("estimate"); double l = P.estimate_plane(); m.syncAll(); m.ops = 0; amp = 0; eig(c, m.sum(), l, P.get_plane(), tol(), "estimate"); counts(); (void)grad;
}
SCENARIO(build_then_use, 3) { history(c, false); }
SCENARIO(any_history, 3) { history(c, true); }
SCENARIO(noise_free, 1) { // the plane of noise-free data seen along a known trajectory
    Rng &r = c.r; int T = r.p(0.06) ? r.i(7, 40) : r.i(1, 5); mrob::Plane P(T); auto tr = std::make_shared<std::vector<mrob::SE3>>(T); D4 pl; pl << unit3(r), r.u(-3, 3); double mx = 1; M4 Q = M4::Zero(); int np = 0; for (int t = 0; t < T; ++t) { D6 x = twist(r, 3.1, 3); (*tr)[t] = mrob::SE3(mrob::Mat61(x)); M4 Ti = inv(M4(lm((*tr)[t].T()))); int n = r.i(3, 20); for (int i = 0; i < n; ++i) { D3 g = point(r, pl, 2, 0); mrob::Mat31 y = dm(MX(act(Ti, V3(lv(g))))); mx = std::max(mx, y.cwiseAbs().maxCoeff()); P.push_back_point(y, t); c.mark(y); V4 h; h << lv(g), 1; Q += h * h.transpose(); ++np; } } P.set_trajectory(tr); double e = P.estimate_plane(); c.note = fmt("%d times", T); c.bound(std::fabs(e), 1e-12 * mx * mx * 100, "noise-free-error"); Eigen::MatrixXd v = P.get_plane(); D4 w = pl / pl.norm(); Eigen::SelfAdjointEigenSolver<M4> es(Q); double tv = 1e-11 + 2e-14 * mx * mx * np / (1e-300 + (double)es.eigenvalues()(1)); // an eigenvector moves by the rounding over the gap
     c.bound(std::min((v - w).norm(), (v + w).norm()), tv, "noise-free-plane", [&] { return ms(v) + " expected " + ms(w); }); for (int t = 0; t < T; ++t) c.bound(P.calculate_gradient(t).norm(), 1e-10 * mx * mx * 100, "noise-free-gradient"); c.seen("noise-free");
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
