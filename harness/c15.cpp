// C15: dense graph solver against the reference normal equations and against the sparse solver (public interface only).
#include "graphgen.hpp"
#include "trace.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS; typedef mrob::FGraphSolveDense GD;
static const char *MN[] = {"newton", "lm-spherical", "lm-elliptical"};
static Spec problem(Case &c, double init, bool scaled = true) { Rng &r = c.r; Opt o; o.noise = r.p(0.2) ? 0 : r.logu(1e-4, 0.2); o.init = init; o.anchors = 0.4; o.wscale = 1.5; o.maxposes = c.thorough && r.p(0.1) ? 12 : 5; o.spread(r, c.thorough, 0.002); if (!scaled) o.wall = 1; if (r.p(0.015)) o.busy = r.i(40, 300); return gen(r, o); }
SCENARIO(one_iteration, 6) {
    Rng &r = c.r; Spec s = problem(c, r.p(0.1) ? 0 : r.logu(1e-4, 0.3)); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); auto B = build<GD>(s, ops); int m = r.i(0, 2); double lam = r.logu(1e-6, 1e4); c.mark(lam); c.note = fmt("%s lambda %.6g ", MN[m], lam) + desc(s);
    auto x = states(B); if (margin(s, x) < 1e-3L) c.skip(); Sys y = assemble(s, x, B.norder, B.forder, false); double e0 = B.g->calculate_error(); L wm = 0; for (auto &f : s.f) wm = std::max(wm, f.W.cwiseAbs().maxCoeff()); c.near(e0, (double)y.chi2, 1e-9 * (double)y.chi2 + 1e-18 * (double)wm * s.f.size() * 100, "error-is-sum-of-chi2"); for (size_t i = 0; i < s.n.size(); ++i) c.same(state(B.n[i]), dm(x[i]), "error-changes-state");
    MX H = y.H; for (int i = 0; i < y.N; ++i) { if (m == 1) H(i, i) += lam; if (m == 2) H(i, i) *= 1 + lam; } Step st = solve(H, y.b); if (!(st.cond < 1e7L) || st.dx.cwiseAbs().maxCoeff() > 50) { c.seen("not-judged"); return; } auto want = stepped(s, x, y, st.dx); L c1 = refchi2(s, want);
    VX e(st.dx.size()); for (int i = 0; i < e.size(); ++i) e(i) = 1e-9L * (1 + 1e-2L / margin(s, x)) * st.cond * (st.sn + 1e-3L * std::sqrt(y.chi2)) / st.D(i); L es = 0; for (size_t i = 0; i < s.n.size(); ++i) if (y.col[i] >= 0) es = std::max<L>(es, stepsens(s, x, y, e, st.dx, (int)i)); L de = 1e-6L * y.chi2 + wm * es * es * 100 + std::sqrt(wm * c1) * es * 100 + 1e-18L * wm;
    int it = (int)B.g->solve((mrob::Optimizer::optimMethod)m, 1, lam); c.ok(it >= 0 && it <= 1, "iterations"); if (m && (std::fabs(c1 - y.chi2) < de || margin(s, want) < 1e-6L)) { c.seen("ambiguous"); return; } bool acc = m == 0 || c1 < y.chi2;
    for (size_t i = 0; i < s.n.size(); ++i) { MX z = lm(B.n[i]->get_state()); if (s.n[i].anchor) { c.same(dm(z), dm(x[i]), "anchor-moved"); continue; }
        if (!acc) { c.bound((double)nodeerr(s.n[i].k, z, x[i]), s.n[i].k == P2 ? 1e-14 * (1 + (double)x[i].cwiseAbs().maxCoeff()) : 1e-300, "rejected-step-not-undone:" + std::string(NKN[s.n[i].k])); continue; }
        double tol = 1e-12 * (1 + (double)want[i].cwiseAbs().maxCoeff() + (double)x[i].cwiseAbs().maxCoeff()) + stepsens(s, x, y, e, st.dx, i); if (s.n[i].k == P3) tol += logtol(gapof(want[i])) * (1 + (double)want[i].cwiseAbs().maxCoeff()); if (s.n[i].k == PL) { V3 n = x[i].topRows(3) - st.dx.segment(y.col[i], 3); tol *= 1 + 1 / (double)n.squaredNorm(); }
        c.bound((double)nodeerr(s.n[i].k, z, want[i]), tol, std::string("dense-step:") + MN[m] + ":" + NKN[s.n[i].k], [&] { return fmt("node %d got ", (int)i) + ms(dm(z)) + " expected " + ms(dm(want[i])) + " from " + ms(dm(x[i])); }); }
    c.seen(std::string(MN[m]) + (acc ? ":step" : ":rejected"));
}
SCENARIO(same_optimum, 4) { // dense modes and the sparse solver from the same start, near the truth
    Rng &r = c.r; Spec s = problem(c, r.logu(1e-4, 1e-2), false); for (auto &n : s.n) if (n.anchor) n.x = n.truth; if (r.p(0.5)) for (auto &f : s.f) { static const MX none; f.z = perfect(f, s.n[f.a].truth, f.b >= 0 ? s.n[f.b].truth : none); if (f.k == FPPL && f.z(3) < 0) f.z = -f.z; f.z = dbl(f.z); } auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); int m = r.i(0, 2); c.note = std::string(MN[m]) + " " + desc(s); auto B = build<GD>(s, ops), F = build<GD>(s, ops); auto S = build<GS>(s, ops); auto x = states(B);
    std::vector<MX> tr; for (auto &n : s.n) tr.push_back(n.truth); if (margin(s, tr) < 0.02L || margin(s, x) < 0.02L) c.skip(); Sys y = assemble(s, x, B.norder, B.forder, false); Step st = solve(y.H, y.b); if (!(st.cond < 1e5L) || st.dx.cwiseAbs().maxCoeff() > 0.1L || refchi2(s, stepped(s, x, y, st.dx)) > y.chi2) c.skip();
    for (int t = 0; t < 30; ++t) S.g->solve(GS::GN); double best = S.g->chi2(); int lim = 100; int it = (int)B.g->solve((mrob::Optimizer::optimMethod)m, lim, 1e-6); c.ok(it <= lim, "iterations", fmt("%d", it)); double got = B.g->calculate_error(); c.bound(std::max(0.0, got - best), 2e-3 + 1e-2 * best, std::string("dense-optimum:") + MN[m], [&] { return fmt("dense %.9g sparse %.9g", got, best); });
    // noise free: repeated solves reach the same states
    for (int t = 0; t < 30; ++t) B.g->solve((mrob::Optimizer::optimMethod)m, 20, 1e-9); got = B.g->calculate_error(); auto a = states(B), b = states(S); double sx = 1; for (auto &q : b) sx = std::max(sx, (double)q.cwiseAbs().maxCoeff()); if (best < 1e-9) for (size_t i = 0; i < s.n.size(); ++i) c.bound((double)nodeerr(s.n[i].k, a[i], b[i]), 1e-5 * sx, std::string("dense-estimate:") + MN[m] + ":" + NKN[s.n[i].k], [&] { return ms(dm(a[i])) + " sparse " + ms(dm(b[i])); }); c.seen(std::string("optima:") + MN[m]);
}
SCENARIO(monotone, 2) { // LM modes from bad starts, with few iterations
    Rng &r = c.r; Spec s = problem(c, r.logu(0.3, 5)); if (r.p(0.3)) { std::vector<FacS> f; for (auto &q : s.f) if (r.p(0.7)) f.push_back(q); if (!f.empty()) s.f = f; } auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); auto B = build<GD>(s, ops); auto x = states(B);
    bool ellip = false; for (int t = r.i(1, 3); t > 0; --t) { int m = r.i(1, 2), n = r.i(1, 12); ellip |= m == 2; double lam = r.logu(1e-9, 1e4), e0 = B.g->calculate_error(); if (!std::isfinite(e0)) return; c.note = fmt("%s %d iterations lambda %.6g from %.17g ", MN[m], n, lam, e0) + desc(s); int it = (int)B.g->solve((mrob::Optimizer::optimMethod)m, n, lam); c.ok(it <= n && it >= 1, "iterations", fmt("%d of %d", it, n)); double e1 = B.g->calculate_error(); c.bound(e1 > e0 ? e1 - e0 : e1 == e1 ? 0 : NAN, 1e-9 * e0 + 1e-12, std::string("error-increased:") + MN[m], [&] { return fmt("from %.17g to %.17g", e0, e1); }); auto z = states(B); std::set<int> used; for (auto &q : s.f) { used.insert(q.a); if (q.b >= 0) used.insert(q.b); } for (size_t i = 0; i < z.size(); ++i) if (!ellip || used.count((int)i)) { std::vector<MX> one{z[i]}; c.ok(finite(one, 1e300L), "states-not-finite"); } /* elliptical damping leaves nodes without factors singular: not judged */ for (size_t i = 0; i < s.n.size(); ++i) if (s.n[i].anchor) c.same(dm(z[i]), dm(x[i]), "anchor-moved"); c.seen("solves"); }
}
// user-defined factors of arity 1..4 on landmarks: linear, so the optimum is known in closed form
struct Linear : mrob::Factor {
    mrob::MatX C, W; mrob::MatX1 z, r; mrob::MatX J; std::vector<std::shared_ptr<mrob::Node>> n;
    Linear(std::vector<NP> nodes, const Eigen::MatrixXd &coef, const Eigen::VectorXd &obs, const Eigen::MatrixXd &w) : Factor((mrob::uint_t)obs.size(), (mrob::uint_t)coef.cols()), C(coef), W(w), z(obs), n(nodes) { neighbourNodes_ = nodes; r = mrob::MatX1::Zero(obs.size()); J = C; }
    void evaluate_residuals() override { Eigen::VectorXd x(C.cols()); int q = 0; for (auto &m : n) { x.segment(q, m->get_dim()) = m->get_state(); q += m->get_dim(); } r = C * x - z; }
    void evaluate_jacobians() override { J = C; }
    void evaluate_chi2() override { chi2_ = 0.5 * r.dot(W * r); }
    const Eigen::Ref<const mrob::MatX> get_obs() const override { return z; } const Eigen::Ref<const mrob::MatX1> get_residual() const override { return r; } const Eigen::Ref<const mrob::MatX> get_information_matrix() const override { return W; } const Eigen::Ref<const mrob::MatX> get_jacobian() const override { return J; }
};
template <class G> static std::vector<NP> linear_graph(G &g, Rng r, MX &A, VX &b, std::vector<int> &dims, std::vector<char> &anch, std::vector<Eigen::MatrixXd> &start) {
    std::vector<NP> nodes; int nn = r.p(0.03) ? r.i(20, 60) : r.i(2, 6); dims.clear(); anch.clear(); start.clear(); for (int i = 0; i < nn; ++i) { NodeS s; s.k = r.p(0.5) ? L2 : L3; s.anchor = i && r.p(0.3); VX x(ndim(s.k)); for (int j = 0; j < x.size(); ++j) x(j) = r.u(-5, 5); s.x = dbl(x); NP n = mknode(s); g.add_node(n); nodes.push_back(n); dims.push_back(ndim(s.k)); anch.push_back(s.anchor); start.push_back(state(n)); }
    std::vector<int> col(nn, -1); int N = 0; for (int i = 0; i < nn; ++i) if (!anch[i]) { col[i] = N; N += dims[i]; } A = MX::Zero(N, N); b = VX::Zero(N);
    auto fac = [&](std::vector<int> ids) { int d = r.i(1, 4), D = 0; for (int i : ids) D += dims[i]; Eigen::MatrixXd C(d, D); for (int i = 0; i < C.size(); ++i) C.data()[i] = r.g(); if (ids.size() == 1) { d = dims[ids[0]]; C = Eigen::MatrixXd::Identity(d, d); } Eigen::VectorXd z(d); for (int i = 0; i < d; ++i) z(i) = 3 * r.g(); Eigen::MatrixXd W = dm(spd(r, d, 1)); std::vector<NP> ns; for (int i : ids) ns.push_back(nodes[i]); FP f = std::make_shared<Linear>(ns, C, z, W); g.add_factor(f);
        MX Jl = MX::Zero(d, N), Cl = lm(C); VX off = -lv(z); int q = 0; for (int i : ids) { if (col[i] >= 0) Jl.block(0, col[i], d, dims[i]) = Cl.block(0, q, d, dims[i]); else off += Cl.block(0, q, d, dims[i]) * lv(start[i]); q += dims[i]; } A += Jl.transpose() * lm(W) * Jl; b += Jl.transpose() * lm(W) * off; };
    for (int i = 0; i < nn; ++i) if (!anch[i]) fac({i}); for (int k = r.p(0.06) ? r.i(60, 250) : r.i(2, 8); k > 0; --k) { int ar = std::min(nn, r.i(2, 4)); std::set<int> q; while ((int)q.size() < ar) q.insert(r.i(0, nn - 1)); fac(std::vector<int>(q.begin(), q.end())); } return nodes;
}
// the whole solve as a trace of node updates
SCENARIO(trace, 4) {
    Rng &r = c.r; Opt o; o.noise = r.p(0.2) ? 0 : r.logu(1e-4, 0.3); o.init = r.p(0.3) ? r.logu(1e-4, 0.05) : r.logu(0.05, 3); o.anchors = 0.4; o.wscale = 1; o.kernels = r.p(0.3); o.maxposes = c.thorough && r.p(0.1) ? 12 : 5; if (r.p(0.015)) o.busy = r.i(40, 300); Spec s = gen(r, o); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); Tap t; auto B = buildtapped<GD>(s, ops, t); int m = r.i(0, 2), n = m ? r.i(1, 15) : r.i(1, 6); double lam = r.p(0.3) ? 1e-6 : r.logu(1e-9, 1e2); c.note = fmt("%s %d iterations lambda %.6g ", MN[m], n, lam) + desc(s);
    auto x0 = states(B); t.nodes = &B.n; t.armed = true; int it = (int)B.g->solve((mrob::Optimizer::optimMethod)m, n, lam); c.ok(it == (int)t.steps.size(), "reported-iterations", fmt("%d reported, %d steps", it, (int)t.steps.size())); t.armed = false; tracecheck(c, s, B, t, m == 0 ? NONE : m == 1 ? SPHERE : ELLIPSE, lam, 1e-4, n, false, x0, std::string("trace:") + MN[m]);
}
SCENARIO(any_arity, 3) {
    Rng &r = c.r; uint64_t sd = r.next(); c.mark((double)sd); MX A; VX b; std::vector<int> d; std::vector<char> an; std::vector<Eigen::MatrixXd> st; GD g; auto n = linear_graph(g, Rng(sd, 3), A, b, d, an, st); GS gs; auto ns = linear_graph(gs, Rng(sd, 3), A, b, d, an, st); VX x = -A.ldlt().solve(b); c.note = fmt("%d nodes %d factors", (int)n.size(), (int)g.number_factors());
    int m = r.i(0, 2); int it = (int)g.solve((mrob::Optimizer::optimMethod)m, m ? 60 : 2, 1e-9); c.ok(it <= (m ? 60 : 2), "iterations"); gs.solve(GS::GN); int q = 0; for (size_t i = 0; i < n.size(); ++i) if (!an[i]) { VX e = x.segment(q, d[i]); q += d[i]; c.near(state(n[i]), dm(MX(e)), 1e-5 * (1 + (double)x.cwiseAbs().maxCoeff()), std::string("arity-optimum:") + MN[m]); c.near(state(ns[i]), dm(MX(e)), 1e-8 * (1 + (double)x.cwiseAbs().maxCoeff()), "arity-optimum:sparse"); } else { c.same(state(n[i]), st[i], "anchor-moved"); c.same(state(ns[i]), st[i], "anchor-moved"); } c.seen("linear-graphs");
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
