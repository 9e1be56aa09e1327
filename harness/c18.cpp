// C18: weighted point alignment and GICP: convergence to the weighted optimum, stationarity, invariances.
#include "pcgen.hpp"
#include "mrob/pc_registration.hpp"
using namespace pg; using namespace mon;
static void valid(Case &c, const Eigen::MatrixXd &T, const std::string &k) { M3 R = rot(M4(lm(T))); c.bound((double)(R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), 1e-13, "rotation:" + k); c.bound((double)std::fabs(R.determinant() - 1), 1e-13, "proper-rotation:" + k); c.ok(T(3, 0) == 0 && T(3, 1) == 0 && T(3, 2) == 0 && T(3, 3) == 1, "last-row:" + k); }
struct Prob { MD X, Y, cX, cY; VX w; M4 T; double sc, noise; bool gicp; D3 off = D3::Zero(); };
// gradient (left perturbation) and Gauss-Newton matrix of the objective at T, pair weights taken at T
static L system(const Prob &p, const M4 &T, V6 &g, M6 &H) {
    L e = 0; g.setZero(); H.setZero(); M3 R = rot(T); for (int i = 0; i < p.X.rows(); ++i) { V3 tx = act(T, V3(lv(D3(p.X.row(i))))), r = V3(lv(D3(p.Y.row(i)))) - tx; M3 W = M3::Identity() * p.w(i); if (p.gicp) { M3 S = M3(lm(p.cY.block(3 * i, 0, 3, 3))) + R * M3(lm(p.cX.block(3 * i, 0, 3, 3))) * R.transpose(); W = S.inverse(); } Eigen::Matrix<L, 3, 6> J; J << hat(tx), -M3::Identity(); g += J.transpose() * W * r; H += J.transpose() * W * J; e += r.dot(W * r); } return e;
}
static int call(Rng &r, const Prob &p, mrob::SE3 &T, double tol) { if (tol == 1e-4) return p.gicp ? mrob::PCRegistration::gicp(p.X, p.Y, p.cX, p.cY, T) : mrob::PCRegistration::weighted_point(p.X, p.Y, mrob::MatX1(dm(MX(p.w))), T); mrob::MatX A = p.X, B = p.Y; bool m = r.p(0.5); if (p.gicp) { mrob::MatX u = p.cX, v = p.cY; return m ? mrob::PCRegistration::gicp(A, B, u, v, T, tol) : mrob::PCRegistration::gicp(p.X, p.Y, p.cX, p.cY, T, tol); } mrob::MatX1 w = dm(MX(p.w)); return m ? mrob::PCRegistration::weighted_point(A, B, w, T, tol) : mrob::PCRegistration::weighted_point(p.X, p.Y, w, T, tol); }
static D6 info(const Prob &p0, const M4 &T0, L &cond, L &smin) { V6 g; M6 H; Prob p = p0; M4 T = T0; p.Y.rowwise() -= p.off.transpose(); T.topRightCorner<3, 1>() -= lv(p.off); system(p, T, g, H); VX d = H.diagonal().cwiseSqrt().cwiseInverse(); MX S = d.asDiagonal() * MX(H) * d.asDiagonal(); Eigen::SelfAdjointEigenSolver<MX> e(S); cond = e.eigenvalues()(5) / e.eigenvalues()(0); smin = e.eigenvalues()(0); return dm(MX(d)); }
static Eigen::MatrixXd spdm(Rng &r, double s, double lo) { DM3 R = rotm(r); D3 d; for (int i = 0; i < 3; ++i) d(i) = s * s * r.logu(lo, 1); return R * d.asDiagonal() * R.transpose(); }
static Prob problem(Case &c, bool gicp, double noise, bool far = false) {
    Rng &r = c.r; Prob p; p.gicp = gicp; p.noise = noise; bool huge = r.p(c.thorough ? 0.01 : 0.003); p.X = cloud(r, huge ? (r.p(0.5) ? BLOB : SPHERE) : r.i(0, NSHAPES - 1), huge ? 5000 : r.p(0.1) ? 80 : 12); p.sc = r.p(0.5) ? 1 : r.logu(0.05, 50); p.X *= p.sc; p.X = (p.X * rotm(r).transpose()).eval(); p.X.rowwise() += (D3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * p.sc * (r.p(0.5) ? 0.5 : 3)).transpose(); int n = p.X.rows();
    p.T = mk(exp3(V3(lv(rvec(r)))), V3(lv(tvec(r, 3)))); p.Y = apply(p.T, p.X); for (int i = 0; i < p.Y.size(); ++i) p.Y.data()[i] += noise * p.sc * r.g(); p.w = VX(n); bool vary = r.p(0.8); double ws = r.p(0.5) ? 1 : r.logu(1e-4, 1e4); for (int i = 0; i < n; ++i) p.w(i) = vary ? ws * r.logu(0.05, 1) : ws;
    if (gicp) { p.cX.resize(3 * n, 3); p.cY.resize(3 * n, 3); double s = r.logu(1e-3, 1); bool zx = r.p(0.15), zy = !zx && r.p(0.1); for (int i = 0; i < n; ++i) { p.cX.block(3 * i, 0, 3, 3) = zx ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(3, 3)) : spdm(r, s, 0.01); p.cY.block(3 * i, 0, 3, 3) = zy ? Eigen::MatrixXd(Eigen::MatrixXd::Zero(3, 3)) : spdm(r, s, 0.01); } }
    if (far) { p.off = unit3(r) * r.logu(30, 3000); p.Y.rowwise() += p.off.transpose(); p.T.topRightCorner<3, 1>() += lv(p.off); } // a map far from the sensor frame
    c.mark(p.X); c.mark(p.Y); c.note = fmt("%s n %d scale %.3g noise %.3g", gicp ? "gicp" : "weighted", n, p.sc, noise); return p;
}
static mrob::SE3 near_(Rng &r, const Prob &p, double a, double b) { D6 d; d << unit3(r) * a * r.u(), unit3(r) * b * p.sc * r.u(); V3 cx = lv(D3(p.X.colwise().mean())); V3 cy = act(p.T, cx); M3 E = exp3(V3(lv(D3(d.head<3>())))); M3 R = E * rot(p.T); V3 t = cy + V3(lv(D3(d.tail<3>()))) - R * cx; return mrob::SE3(mrob::Mat4(dm(mk(R, t)))); }
static void solve(Case &c, bool gicp) {
    Rng &r = c.r; double noise = r.p(0.35) ? 0 : r.logu(1e-6, 0.03); bool far = r.p(0.2); Prob p = problem(c, gicp, noise, far); int n = p.X.rows(); std::string nm = gicp ? "gicp" : "weighted"; L cond, smin; info(p, p.T, cond, smin); if (!(cond < 1e4L)) c.skip();
    double tol = r.p(0.3) ? 1e-4 : r.logu(1e-11, 1e-2); double big = (double)p.X.cwiseAbs().maxCoeff() + (double)p.Y.cwiseAbs().maxCoeff(); if (far) { tol = r.logu(1e-3, 1) * std::min(1e-2, 0.1 / big); tol = std::max(tol, 1e-13 * (1 + big) * (1 + big) * (double)cond / std::min(1.0, p.sc)); } c.mark(tol); c.note += fmt(" cond %.3g tol %.3g", (double)cond, tol); mrob::SE3 S = near_(r, p, 0.2, 0.1), T = S; Prob q = p; int it = call(r, p, T, tol); c.ok(it >= 1 && it <= 20, "iteration-limit:" + nm, fmt("%d", it)); Eigen::MatrixXd G = T.T(); valid(c, G, nm); M4 g = lm(G); L cd = cond;
    V6 gr; M6 H; L e1 = system(p, g, gr, H); V6 step = H.ldlt().solve(gr); (void)e1; double len = (double)p.X.cwiseAbs().maxCoeff() + (double)p.Y.cwiseAbs().maxCoeff(); double eff = noise * std::sqrt((double)cond); /* noise against the thinnest extent of the cloud: Gauss-Newton converges fast when small */ double rnd = (far ? 1e-15 / std::min(1.0, p.sc) : 1e-14) * (1 + len) * (1 + len) * (double)cd + (far ? tol * tol * (1 + len) : 0); if (far) { c.seen("far:" + nm); }
    // bounded progress: from this close the remaining step is below the requested tolerance unless convergence is slow (large residuals)
    if (eff <= (gicp ? 0.04 : 0.1)) { c.ok(it < 20, "not-converged:" + nm, fmt("%d iterations", it)); c.bound((double)step.norm(), tol + rnd, "not-stationary:" + nm, [&] { return fmt("after %d iterations the gradient asks for a step of %.3g", it, (double)step.norm()) + ms(G); }); }
    else { c.seen("large-residual:" + nm); return; }
    if (noise == 0) { c.near(G, dm(MX(p.T)), (tol * tol * 10 + 1e-14 * (double)cd) * (1 + len) + (tol < 1e-3 ? 0.0 : tol * (1 + len)), "truth-not-recovered:" + nm); c.seen("noise-free"); }
    if (!gicp) { L gap; M4 best = horn(p.X, p.Y, p.w, gap); V6 a; M6 b; L e0 = system(p, best, a, b), e = system(p, g, a, b); c.bound((double)std::max<L>(0, e - e0), (double)(1e-12L * e0 + p.w.sum() * std::pow((tol + rnd) * (1 + len), 2) * 100 + 1e-22L * p.w.sum() * len * len), "not-weighted-optimum:" + nm, [&] { return fmt("objective %.17g, optimum %.17g", (double)e, (double)e0); }); }
    // tighter tolerance
    if (eff <= (gicp ? 0.04 : 0.1)) { mrob::SE3 U = S; call(r, p, U, tol * 1e-3); V6 a; M6 b; L eu = system(p, M4(lm(U.T())), a, b), e = system(p, g, a, b); if (!gicp) c.bound((double)std::max<L>(0, eu - e), (double)(1e-12L * e + 1e-20L * p.w.sum() * len * len * (1 + len) * (1 + len)), "tighter-tolerance-worse:" + nm, [&] { return fmt("%.17g then %.17g", (double)e, (double)eu); });
        M6 H2; V6 g2; system(p, M4(lm(U.T())), g2, H2); c.bound((double)H2.ldlt().solve(g2).norm(), 1e-3 * tol + rnd, "not-stationary:" + nm, [&] { return std::string("tighter tolerance"); }); }
    (void)n; c.seen(nm); c.seen(fmt("%s-iterations", nm.c_str()), it);
}
SCENARIO(weighted, 4) { solve(c, false); }
SCENARIO(gicp, 4) { solve(c, true); }
SCENARIO(relations, 3) { // scaling, zero weights, order of pairs
    Rng &r = c.r; bool gi = r.p(0.5); Prob p = problem(c, gi, r.logu(1e-6, 0.01)); int n = p.X.rows(); std::string nm = gi ? "gicp" : "weighted"; L cond, smin; info(p, p.T, cond, smin); if (!(cond < 1e4L)) c.skip(); mrob::SE3 S = near_(r, p, 0.1, 0.05), A = S; call(r, p, A, 1e-10); double len = (double)p.X.cwiseAbs().maxCoeff() + (double)p.Y.cwiseAbs().maxCoeff(), tol = (1e-9 + 1e-13 * (double)cond) * (1 + len) * (1 + len); 
    { Prob q = p; double f = r.logu(1e-3, 1e3); q.w *= f; if (gi) { q.cX *= f; q.cY *= f; } mrob::SE3 B = S; call(r, q, B, 1e-10); c.near(Eigen::MatrixXd(B.T()), Eigen::MatrixXd(A.T()), tol, "scale-dependent:" + nm); }
    { std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; r.shuffle(o); Prob q = p; for (int i = 0; i < n; ++i) { q.X.row(i) = p.X.row(o[i]); q.Y.row(i) = p.Y.row(o[i]); q.w(i) = p.w(o[i]); if (gi) { q.cX.middleRows(3 * i, 3) = p.cX.middleRows(3 * o[i], 3); q.cY.middleRows(3 * i, 3) = p.cY.middleRows(3 * o[i], 3); } } mrob::SE3 B = S; call(r, q, B, 1e-10); c.near(Eigen::MatrixXd(B.T()), Eigen::MatrixXd(A.T()), tol, "order-dependent:" + nm); }
    if (!gi) { Prob q = p; int k = r.i(1, 4); q.X.conservativeResize(n + k, 3); q.Y.conservativeResize(n + k, 3); q.w.conservativeResize(n + k); for (int i = 0; i < k; ++i) { int at = r.i(0, n + i); for (int j = n + i; j > at; --j) { q.X.row(j) = q.X.row(j - 1).eval(); q.Y.row(j) = q.Y.row(j - 1).eval(); q.w(j) = q.w(j - 1); } q.X.row(at) << r.u(-9, 9), r.u(-9, 9), r.u(-9, 9); q.Y.row(at) << r.u(-9, 9), r.u(-9, 9), r.u(-9, 9); q.w(at) = 0; } mrob::SE3 B = S; call(r, q, B, 1e-10); c.near(Eigen::MatrixXd(B.T()), Eigen::MatrixXd(A.T()), tol, "zero-weight-counts"); // integer weight = repetition
        Prob d = p; for (int i = 0; i < n; ++i) { d.w(i) = r.i(1, 3); } Prob e = d; std::vector<int> ix; for (int i = 0; i < n; ++i) for (int k2 = 0; k2 < (int)d.w(i); ++k2) ix.push_back(i); e.X.resize(ix.size(), 3); e.Y.resize(ix.size(), 3); e.w = VX::Ones(ix.size()); for (size_t i = 0; i < ix.size(); ++i) { e.X.row(i) = d.X.row(ix[i]); e.Y.row(i) = d.Y.row(ix[i]); } mrob::SE3 D = S, E = S; call(r, d, D, 1e-10); call(r, e, E, 1e-10); c.near(Eigen::MatrixXd(D.T()), Eigen::MatrixXd(E.T()), tol, "weight-not-repetition"); }
    c.seen("relations:" + nm);
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
