// C13: robust weights, read from the factors and from the assembled weight matrix.
#include "graphgen.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS;
static const char *KN[] = {"quadratic", "huber", "cauchy", "mcclure", "ransac"};
SCENARIO(weight_function, 3) {
    Rng &r = c.r; int k = r.i(0, 4); double u1 = r.p(0.3) ? 1 + r.sgn() * r.logu(1e-16, 1) : r.p(0.1) ? 0 : r.logu(1e-9, 1e9), u2 = r.p(0.3) ? u1 * (1 + r.logu(1e-16, 1)) : r.logu(1e-9, 1e9); if (u1 < 0) u1 = 0; c.mark(u1); c.mark(u2); c.mark((double)k); c.note = fmt("%s u=%.17g u'=%.17g", KN[k], u1, u2);
    Spec s; NodeS n; n.k = P2; n.x = MX::Zero(3, 1); FacS f; f.k = F1P2; f.a = 0; f.b = -1; f.z = n.x; f.W = MX::Identity(3, 3); f.robust = k; NP nd = mknode(n); FP F = mkfac(f, nd, NP());
    double w1 = F->evaluate_robust_weight(u1), w2 = F->evaluate_robust_weight(u2), w1b = F->evaluate_robust_weight(u1); c.ok(w1 == w1b, "weight-depends-on-history", fmt("%.17g then %.17g", w1, w1b));
    for (int q = 0; q < 2; ++q) { double u = q ? u2 : u1, w = q ? w2 : w1, e = (double)weight(k, u); c.bound(std::fabs(w - e), 1e-14 * e + (e == 0 ? 1e-300 : 0), std::string("weight:") + KN[k], [&] { return fmt("u=%.17g got %.17g expected %.17g", u, w, e); }); c.ok(w >= 0 && w <= 1 && (k == 4 || w > 0), std::string("weight-range:") + KN[k], fmt("%.17g", w)); }
    if (u1 <= u2) c.ok(w1 >= w2 * (1 - 1e-14), std::string("weight-increases:") + KN[k]); else c.ok(w2 >= w1 * (1 - 1e-14), std::string("weight-increases:") + KN[k]); c.seen("weights");
}
static void weighted(Case &c, int mode) { // mixed kernels in one graph, several solves
    Rng &r = c.r; Opt o; o.mode = mode; o.noise = r.logu(1e-4, 1); o.init = r.logu(1e-4, 0.5); o.wscale = 2.5; o.maxposes = c.thorough && r.p(0.1) ? 15 : 6; o.spread(r, c.thorough, 0.002); Spec s = gen(r, o); for (auto &f : s.f) f.robust = r.i(0, 4); Spec q = s; for (auto &f : q.f) f.robust = 0; auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto B = build<GS>(s, ops), Q = build<GS>(q, ops); std::vector<int> qid(s.f.size()); for (size_t j = 0; j < s.f.size(); ++j) c.ok(B.fid[j] == Q.fid[j], "ids"); (void)qid;
    for (int t = 0, n = r.i(1, 4); t < n; ++t) {
        auto x = states(B); if (!finite(x)) return; for (size_t i = 0; i < s.n.size(); ++i) Q.n[i]->set_state(dm(x[i])); if (t == 0) { bool same = true; auto xq = states(Q); for (size_t i = 0; i < x.size(); ++i) same &= x[i] == xq[i]; if (!same) for (size_t i = 0; i < s.n.size(); ++i) B.n[i]->set_state(state(Q.n[i])); } bool ask = r.p(0.5); double cq = Q.g->chi2(true); mrob::MatX1 aq = Q.g->get_chi2_array(), ar = aq; /* half of the solves are not preceded by a query: the weight must be of the current state either way */ if (ask) { double cb = B.g->chi2(true); c.near(cb, cq, 1e-12 * cq, "chi2-is-weighted"); ar = B.g->get_chi2_array(); c.near(ar, aq, 1e-12 * (1e-300 + aq.cwiseAbs().maxCoeff()), "factor-chi2-is-weighted"); } else c.seen("solves-without-a-query");
        double lam = r.logu(1e-3, 1e2); B.g->solve(GS::LM, 1, lam, 1e-9); Eigen::MatrixXd W(mrob::SMatCol(B.g->get_W_matrix())), A(mrob::SMatCol(B.g->get_adjacency_matrix())), I(mrob::SMatCol(B.g->get_information_matrix())); int p = 0;
        for (int j : B.forder) { auto &f = s.f[j]; int m = fdim(f.k); double u = std::sqrt(ar(B.fid[j])); bool jump = f.robust == 4 && std::fabs(u - 1) < 1e-9; double w = (double)weight(f.robust, u); if (!jump) for (int a = 0; a < m; ++a) for (int b = a; b < m; ++b) c.bound(std::fabs(W(p + a, p + b) - w * (double)f.W(a, b)), 1e-12 * std::fabs(w * (double)f.W(a, b)) + 1e-300, std::string("factor-weight:") + KN[f.robust], [&] { return fmt("factor %d %s u=%.17g entry %d,%d got %.17g information %.17g expected weight %.17g", j, FKN[f.k], u, a, b, W(p + a, p + b), (double)f.W(a, b), w); }); p += m; c.seen(std::string(KN[f.robust]) + (u < 1 ? ":below" : ":above")); }
        for (int a = 0; a < W.rows(); ++a) for (int b = 0; b < a; ++b) W(a, b) = W(b, a); Eigen::MatrixXd E = A.transpose() * W * A; E.diagonal().array() += lam; Eigen::MatrixXd S = A.cwiseAbs().transpose() * W.cwiseAbs() * A.cwiseAbs(); S.diagonal().array() += lam; for (int a = 0; a < E.rows(); ++a) for (int b = 0; b < E.cols(); ++b) c.bound(std::fabs(I(a, b) - E(a, b)), 1e-12 * S(a, b) + 1e-300, "weight-not-in-system"); c.seen("systems");
        if (r.p(0.3)) { for (size_t i = 0; i < s.n.size(); ++i) if (!s.n[i].anchor && r.p(0.5)) { mrob::MatX1 d = dm(MX(gauss(r, ndim(s.n[i].k), 0.3))); B.n[i]->update(d); } }
    }
}
SCENARIO(weights_2d, 3) { weighted(c, 0); }
SCENARIO(weights_3d, 3) { weighted(c, 1); }
// outliers: robust estimate closer to the truth than the quadratic one
SCENARIO(outlier_priors, 2) {
    Rng &r = c.r; bool d3 = r.p(0.5); int N = r.i(8, 20), K = r.i(1, 2), k = r.i(1, 3); double w = r.logu(1, 1e3), sg = 0.3 / std::sqrt(w) / 3, mag_ = r.u(1, 2); MX tr = d3 ? MX(lm(pose(r, 1.0, 2))) : MX(VX::Zero(3)); if (!d3) { tr(0) = r.u(-5, 5); tr(1) = r.u(-5, 5); tr(2) = r.u(-1, 1); tr = dbl(tr); } w = std::max(w, 400 / mag_ / mag_); sg = 0.1 / std::sqrt(w);
    auto solve_ = [&](int kern, uint64_t seed) { Rng q(seed, 1); mrob::FGraphSolve g; NodeS n; n.k = d3 ? P3 : P2; n.x = tr; NP nd = mknode(n); g.add_node(nd); D3 u = unit3(q); for (int i = 0; i < N + K; ++i) { FacS f; f.k = d3 ? F1P3 : F1P2; f.a = 0; f.b = -1; f.W = MX::Identity(d3 ? 6 : 3, d3 ? 6 : 3) * w; f.W = dbl(f.W); f.robust = kern; VX e = gauss(q, d3 ? 6 : 3, sg); if (i % (N / 2 + 1) == 0 && i / (N / 2 + 1) < K) { if (d3) { e(3) += u(0) * mag_; e(4) += u(1) * mag_; e(5) += u(2) * mag_; } else { e(0) += mag_ * 0.8; e(1) += mag_ * 0.6; } } f.z = d3 ? MX(dbl(exp6(V6(e)) * m4(tr))) : dbl(MX(tr + e)); FP F = mkfac(f, nd, NP()); g.add_factor(F); } for (int t = 0; t < 40; ++t) g.solve(GS::GN); return (double)nodeerr(n.k, lm(nd->get_state()), tr); };
    uint64_t sd = r.next(); c.mark((double)sd); double eq = solve_(0, sd), er = solve_(k, sd); c.note = fmt("%s %s: %d inliers %d outliers of %.3g information %.3g: quadratic error %.4g robust %.4g", d3 ? "3-D" : "2-D", KN[k], N, K, mag_, w, eq, er); c.ok(er < eq, "robust-not-better", c.note); c.seen("outlier-problems");
}
SCENARIO(outlier_loop, 2) { // one wrong loop closure in a redundant chain
    Rng &r = c.r; int k = r.i(2, 3), n = r.i(4, 6); Opt o; Spec s; for (int i = 0; i < n; ++i) { NodeS q; q.k = P2; VX x(3); x << 2.0 * i, r.u(-1, 1), r.u(-0.5, 0.5); q.truth = q.x = dbl(x); q.anchor = i == 0; s.n.push_back(q); }
    auto add = [&](int a, int b) { FacS f; f.k = F2P2; f.a = a; f.b = b; f.W = MX::Identity(3, 3) * 100; f.z = dbl(perfect(f, s.n[a].truth, s.n[b].truth)); s.f.push_back(f); }; for (int i = 1; i < n; ++i) add(i - 1, i); for (int i = 2; i < n; ++i) add(i - 2, i); add(0, n - 1); auto &bad = s.f.back(); bad.z(0) += r.sgn() * r.u(2, 4); bad.z(1) += r.sgn() * r.u(2, 4); bad.z = dbl(bad.z);
    auto run = [&](int kern) { Spec q = s; for (auto &f : q.f) f.robust = kern; Rng q1(1, 1); auto B = build<GS>(q, creation(q, q1, 0)); for (int t = 0; t < 60; ++t) B.g->solve(GS::GN); double e = 0; auto z = states(B); for (int i = 0; i < n; ++i) e = std::max(e, (double)nodeerr(P2, z[i], s.n[i].truth)); return e; };
    gg::mark(c, s); double eq = run(0), er = run(k); c.note = fmt("%s chain of %d: quadratic error %.4g robust %.4g", KN[k], n, eq, er); c.ok(er < eq, "robust-not-better", c.note); c.seen("outlier-problems");
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
