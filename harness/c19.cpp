// C19: plane, normal and centroid estimation against a long-double eigen decomposition, and equivariance.
#include "pcgen.hpp"
#include "mrob/estimate_plane.hpp"
using namespace pg; using namespace mon;
static Eigen::MatrixXd plane(Rng &r, const MD &X) { if (r.p(0.5)) { mrob::MatX A = X; return mrob::estimate_plane(A); } if (r.p(0.5)) return mrob::estimate_plane(X); mrob::MatX A = mrob::MatX::Constant(X.rows() + 2, 5, NAN); A.block(1, 1, X.rows(), 3) = X; return mrob::estimate_plane(A.block(1, 1, X.rows(), 3)); }
struct Fit { V3 c, n; L l[3], ext, off; };
static Fit fit(const MD &X) { Fit f; MX x = lm(X); int n = x.rows(); f.c = x.colwise().sum().transpose() / (L)n; M3 C = M3::Zero(); f.ext = f.off = 0; for (int i = 0; i < n; ++i) { V3 q = V3(x.row(i)) - f.c; C += q * q.transpose(); f.ext = std::max(f.ext, q.norm()); f.off = std::max<L>(f.off, x.row(i).norm()); } Eigen::SelfAdjointEigenSolver<M3> e(C); f.n = e.eigenvectors().col(0); for (int i = 0; i < 3; ++i) f.l[i] = e.eigenvalues()(i); return f; }
static MD points(Case &c, std::string &nm, double &noise) {
    Rng &r = c.r; int sh = r.i(0, NSHAPES - 1); nm = SN[sh]; MD X = cloud(r, sh, r.p(c.thorough ? 0.02 : 0.004) ? 20000 : r.p(0.2) ? 200 : 12); double sc = r.p(0.4) ? 1 : r.logu(1e-6, 1e6), K = r.p(0.3) ? 0 : r.logu(1e-2, 1e4); noise = 0; if (r.p(0.5)) { X.col(2) *= r.p(0.5) ? 0 : r.logu(1e-6, 1); } if (r.p(0.4)) { noise = r.logu(1e-8, 0.1); for (int i = 0; i < X.size(); ++i) X.data()[i] += noise * r.g(); } X *= sc; if (r.p(0.8)) X = (X * rotm(r).transpose()).eval(); X.rowwise() += (D3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * sc * K).transpose(); c.mark(X); c.note = fmt("%s n %d scale %.3g offset %.3g noise %.3g", nm.c_str(), (int)X.rows(), sc, K, noise); return X;
}
SCENARIO(estimate, 6) {
    Rng &r = c.r; std::string nm; double noise; MD X = points(c, nm, noise), X0 = X; Fit f = fit(X); if (!(f.l[1] > 1e-6L * f.l[2]) || f.off / f.ext > 1e6L) c.skip(); int n = X.rows(); Eigen::MatrixXd p = plane(r, X), nv = mrob::estimate_normal(X), ce = mrob::estimate_centroid(X); c.same(X, X0, "inputs-modified"); for (int i = 0; i < 4; ++i) c.ok(std::isfinite(p(i)), "not-finite:" + nm, ms(p)); if (c.nviol) return;
    double eo = 1e-16 * (10 + n) * (double)f.off; /* summation error grows with n */ c.near(ce, dm(MX(f.c)), 10 * eo, "centroid"); c.near(nv, Eigen::MatrixXd(p.topRows(3)), 0.0 + 1e-300, "normal-differs-from-plane"); V3 a(p(0), p(1), p(2)); c.bound((double)std::fabs(a.norm() - 1), 1e-14, "normal-not-unit:" + nm); c.bound((double)std::fabs(a.dot(f.c) + p(3)), 20 * eo, "not-through-centroid:" + nm, [&] { return ms(p); });
    auto ssq = [&](const V3 &m, L d0) { L s = 0; for (int i = 0; i < n; ++i) { L d = m.dot(V3(lv(D3(X.row(i)))) - f.c) + d0; s += d * d; } return s; }; L best = ssq(f.n, 0), s = ssq(a / a.norm(), a.dot(f.c) + p(3)), rel = 1e-16L * (10 + n) * (1 + f.off / f.ext), gap = f.l[1] - f.l[0], sq = rel * f.l[2]; // excess of the optimum caused by a backward-stable solution
    c.bound((double)std::max<L>(0, s - best), (double)(std::min<L>(20 * sq, 400 * sq * sq / std::max<L>(gap, 1e-300L)) + n * std::pow(20 * eo, 2) + 1e-15L * best + 1e-17L * std::sqrt(best * n) * f.ext), "not-optimal:" + nm, [&] { return fmt("sum of squares %.17g optimum %.17g ", (double)s, (double)best) + ms(p) + fmt(" eigenvalues %.6g %.6g %.6g", (double)f.l[0], (double)f.l[1], (double)f.l[2]); });
    if (gap > 100 * sq) { L e = std::min((a - f.n).norm(), (a + f.n).norm()); c.bound((double)e, (double)(20 * sq / gap + 3e-15L), "normal:" + nm, [&] { return ms(p) + " expected normal " + ms(f.n); }); c.seen("normal-determined"); }
    c.seen(nm);
}
SCENARIO(relations, 3) { // order, duplication, rigid motion
    Rng &r = c.r; std::string nm; double noise; MD X = points(c, nm, noise); Fit f = fit(X); if (!(f.l[1] > 1e-5L * f.l[2]) || f.off / f.ext > 1e4L || f.l[1] - f.l[0] < 1e-5L * f.l[2]) c.skip(); int n = X.rows(); L sq = 1e-16L * (10 + n) * (1 + f.off / f.ext) * f.l[2] / (f.l[1] - f.l[0]); double tol = (double)(40 * sq) + 1e-14; Eigen::MatrixXd p = plane(r, X); auto close = [&](const Eigen::MatrixXd &q, const Eigen::MatrixXd &w, L off, const std::string &k) { double e = std::min((q - w).topRows(3).norm(), (q + w).topRows(3).norm()); c.bound(e, tol, k + ":normal", [&] { return ms(q) + " expected " + ms(w); }); double s = q.topRows(3).col(0).dot(w.topRows(3).col(0)) < 0 ? -1 : 1; c.bound(std::fabs(q(3) - s * w(3)), (tol * 2) * (double)off, k + ":distance"); };
    MD P(n, 3), D(2 * n, 3); std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; r.shuffle(o); for (int i = 0; i < n; ++i) P.row(i) = X.row(o[i]); D << X, P; close(plane(r, P), p, f.off, "order-dependent"); close(plane(r, D), p, f.off, "duplication-dependent");
    M4 T = mk(exp3(V3(lv(rvec(r)))), V3(lv(D3(tvec(r, (double)(f.off)))))); MD Y = apply(T, X); V3 a = rot(T) * V3(p(0), p(1), p(2)); V4 w; w << a, p(3) - a.dot(tra(T)); L off = f.off + tra(T).norm(); tol *= 4; close(plane(r, Y), dm(MX(w)), off, "not-equivariant"); double k = r.logu(1e-3, 1e3); MD Z = X * k; Eigen::MatrixXd q = p; q(3) *= k; close(plane(r, Z), q, f.off * k, "scale-dependent"); c.seen("relations");
}
SCENARIO(exact, 2) { // exactly representable coplanar sets
    Rng &r = c.r; int n = r.i(3, 30), ax = r.i(0, 2); double z = r.i(-8, 8); MD X(n, 3); for (int i = 0; i < n; ++i) { X(i, ax) = z; X(i, (ax + 1) % 3) = r.i(-20, 20); X(i, (ax + 2) % 3) = r.i(-20, 20); } c.mark(X); Fit f = fit(X); if (f.l[1] < 1e-3L * f.l[2]) c.skip(); Eigen::MatrixXd p = plane(r, X); for (int i = 0; i < n; ++i) c.bound(std::fabs(p(0) * X(i, 0) + p(1) * X(i, 1) + p(2) * X(i, 2) + p(3)), 1e-11, "coplanar-residual", [&] { return ms(p); }); c.bound(std::fabs(std::fabs(p(ax)) - 1), 1e-14, "coplanar-normal"); c.seen("exact");
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
