// C17: closed-form alignment against Horn's method in long double, the truth, and degenerate sets.
#include "pcgen.hpp"
#include "mrob/pc_registration.hpp"
using namespace pg; using namespace mon;
static void valid(Case &c, const Eigen::MatrixXd &T, const std::string &k) { M3 R = rot(M4(lm(T))); c.bound((double)(R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), 1e-13, "rotation:" + k); c.bound((double)std::fabs(R.determinant() - 1), 1e-13, "proper-rotation:" + k); c.ok(T(3, 0) == 0 && T(3, 1) == 0 && T(3, 2) == 0 && T(3, 3) == 1, "last-row:" + k); }
static int call(Rng &r, const MD &X, const MD &Y, mrob::SE3 &T) { // either storage order, and blocks of larger arrays
    switch (r.i(0, 2)) { case 0: return mrob::PCRegistration::arun(X, Y, T); case 1: { mrob::MatX A = X, B = Y; return mrob::PCRegistration::arun(A, B, T); } default: { mrob::MatX A = mrob::MatX::Constant(X.rows() + 2, 5, NAN), B = mrob::MatX::Constant(X.rows() + 1, 4, NAN); A.block(1, 1, X.rows(), 3) = X; B.block(0, 1, X.rows(), 3) = Y; return mrob::PCRegistration::arun(A.block(1, 1, X.rows(), 3), B.block(0, 1, X.rows(), 3), T); } }
}
SCENARIO(align, 8) {
    Rng &r = c.r; int sh = r.i(0, NSHAPES - 1); MD X = cloud(r, sh, r.p(0.004) ? 20000 : r.p(0.02) ? 1500 : r.p(0.2) ? 100 : 10); int n = X.rows(); double sc = r.p(0.4) ? 1 : r.logu(1e-6, 1e6), K = r.p(0.3) ? 0 : r.logu(1e-2, 1e3); X *= sc; if (r.p(0.7)) X = (X * rotm(r).transpose()).eval(); X.rowwise() += (D3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * sc * K).transpose();
    D3 w = rvec(r); M3 R = exp3(V3(lv(w))); V3 t = lv(tvec(r, 1)) * (L)(sc * (r.p(0.5) ? 1 : K)); M4 Tt = mk(R, t); int kind = r.i(0, 3); double noise = 0; MD Y;
    if (kind == 2) { MD Z = X; int a = r.i(0, 2); Z.col(a) *= -1; Y = apply(Tt, Z); } else Y = apply(Tt, X);
    if (kind == 1 || kind == 3 || (kind == 2 && r.p(0.5))) { noise = sc * (kind == 3 ? r.u(0.1, 2) : r.logu(1e-9, 1e-1)); for (int i = 0; i < Y.size(); ++i) Y.data()[i] += noise * r.g(); }
    c.mark(X); c.mark(Y); c.note = fmt("%s n %d scale %.3g offset %.3g kind %d noise %.3g", SN[sh], n, sc, K, kind, noise); VX o = VX::Ones(n); V3 cx, cy; M3 H = cross(X, Y, o, cx, cy); Eigen::JacobiSVD<Eigen::Matrix<L, -1, -1>> sv(MX(H), Eigen::ComputeFullU | Eigen::ComputeFullV); auto s = sv.singularValues(); M3 U = sv.matrixU(), V = sv.matrixV(); L sg = (V * U.transpose()).determinant() < 0 ? -1 : 1;
    L ext = 0, off = 0; for (int i = 0; i < n; ++i) { ext = std::max<L>({ext, (V3(lv(D3(X.row(i)))) - cx).norm(), (V3(lv(D3(Y.row(i)))) - cy).norm()}); off = std::max<L>({off, lv(D3(X.row(i))).norm(), lv(D3(Y.row(i))).norm()}); }
    if (!(s(1) > 3e-7L * s(0)) || !(s(1) > 1e-6L * ext * ext * n) || off / ext > 1e5L) c.skip(); // collinear band
    D6 start = twist(r, 3.0, 5); mrob::SE3 T{mrob::Mat61(start)}; MD X0 = X, Y0 = Y; int ok = call(r, X, Y, T); std::string nm = SN[sh]; c.same(X, X0, "inputs-modified"); c.same(Y, Y0, "inputs-modified"); c.ok(ok == 1, "solvable-set-rejected:" + nm, "singular values " + ms(s)); if (ok != 1) return; Eigen::MatrixXd G = T.T(); valid(c, G, nm); M4 g = lm(G); L gap; M4 best = horn(X, Y, o, gap); (void)gap;
    L en = 1e-16L * (10 + n), rel = en * (1 + off / ext), cond = s(0) / (s(1) + sg * s(2)); M3 Ro = orth(rot(g)); V3 to = tra(g) + (rot(g) - Ro) * cx; L e1 = sse(mk(Ro, to), X, Y, o), e0 = sse(best, X, Y, o), fl = s(1) + sg * s(2);
    c.bound((double)std::max<L>(0, e1 - e0), (double)(100 * rel * rel * s(0) * s(0) / std::max<L>(fl, rel * s(0)) + n * std::pow(20 * en * off, 2) + 1e-16L * (e0 + std::sqrt(n * e0) * off)), "not-optimal:" + nm, [&] { return fmt("sum of squares %.17g, optimum %.17g ", (double)e1, (double)e0) + ms(G); });
    if (kind == 0 || (noise == 0 && kind == 1)) { c.bound((double)(rot(g) - R).cwiseAbs().maxCoeff(), (double)(10 * rel * cond), "rotation-not-recovered:" + nm, [&] { return ms(G) + " truth " + ms(dm(MX(Tt))); }); V3 dc = act(g, cx) - act(Tt, cx); c.bound((double)dc.cwiseAbs().maxCoeff(), (double)(10 * en * off), "translation-not-recovered:" + nm); }
    c.bound((double)(act(g, cx) - cy).cwiseAbs().maxCoeff(), (double)(20 * en * off), "centroids-not-aligned:" + nm); c.seen(nm); c.seen(fmt("kind%d", kind));
}
SCENARIO(degenerate, 3) { // collinear, coincident or too few points: no rotation is determined
    Rng &r = c.r; int kind = r.i(0, 3), n = kind == 3 ? r.i(1, 2) : r.i(3, r.p(0.1) ? 200 : 12); double sc = r.p(0.4) ? 1 : r.logu(1e-6, 1e6), K = r.p(0.4) ? 0 : r.logu(1e-2, 1e2); D3 u = unit3(r), p = D3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * K * sc; MD X(n, 3); for (int i = 0; i < n; ++i) { double a = kind == 1 ? 0 : kind == 2 ? r.i(-3, 3) : r.u(-1, 1); X.row(i) = (p + u * a * sc).transpose(); }
    M4 Tt = mk(exp3(V3(lv(rvec(r)))), V3(lv(D3(tvec(r, 1) * sc)))); MD Y = apply(Tt, X); if (r.p(0.2)) std::swap(X, Y); if (kind != 3 && kind != 1 && r.p(0.3)) { for (int i = 0; i < X.size(); ++i) X.data()[i] = sc * r.u(-1, 1); } c.mark(X); c.mark(Y); c.note = fmt("degenerate kind %d n %d scale %.3g offset %.3g", kind, n, sc, K); D6 start = twist(r, 3.0, 5); mrob::SE3 T{mrob::Mat61(start)}; Eigen::MatrixXd before = T.T(); int ok = call(r, X, Y, T); const char *KN[] = {"collinear", "coincident", "repeated", "too-few"}; c.ok(ok == 0, std::string("degenerate-accepted:") + KN[kind], ms(X)); if (!ok) c.same(Eigen::MatrixXd(T.T()), before, std::string("output-touched-on-failure:") + KN[kind]); c.seen(KN[kind]);
}
SCENARIO(repeat, 1) { // relations between calls: order and duplication of the pairs, exchanging the clouds
    Rng &r = c.r; MD X = cloud(r, r.p(0.5) ? BLOB : PLANAR, 20), Y = apply(mk(exp3(V3(lv(rvec(r)))), V3(lv(tvec(r, 2)))), X); int n = X.rows(); for (int i = 0; i < Y.size(); ++i) Y.data()[i] += 0.02 * r.g(); c.mark(X); c.mark(Y); V3 cx, cy; M3 H = cross(X, Y, VX::Ones(n), cx, cy); Eigen::JacobiSVD<Eigen::Matrix<L, -1, -1>> sv{MX(H)}; if (sv.singularValues()(1) < 0.05L * sv.singularValues()(0)) c.skip();
    mrob::SE3 A, B, D, E; int a = call(r, X, Y, A); std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); MD Xp(n, 3), Yp(n, 3), X2(2 * n, 3), Y2(2 * n, 3); for (int i = 0; i < n; ++i) { Xp.row(i) = X.row(p[i]); Yp.row(i) = Y.row(p[i]); } X2 << X, Xp; Y2 << Y, Yp; int b = call(r, Xp, Yp, B), d = call(r, X2, Y2, D), e = call(r, Y, X, E); c.ok(a && b && d && e, "solvable-set-rejected:pairs"); c.near(Eigen::MatrixXd(B.T()), Eigen::MatrixXd(A.T()), 1e-12, "order-dependent"); c.near(Eigen::MatrixXd(D.T()), Eigen::MatrixXd(A.T()), 1e-12, "duplication-dependent"); c.near(dm(MX(inv(M4(lm(E.T()))))), Eigen::MatrixXd(A.T()), 1e-12, "exchange-not-inverse"); c.seen("relations");
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
