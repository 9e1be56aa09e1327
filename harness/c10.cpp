// C10: anchored nodes: bit-for-bit constant under any solve history, and equivalent to known constants.
#include "graphgen.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS; typedef mrob::FGraphSolveDense GD;
static Spec anchored(Case &c, bool kernels) {
    Rng &r = c.r; Opt o; o.noise = r.p(0.2) ? 0 : r.logu(1e-4, 0.3); o.init = r.p(0.1) ? 0 : r.logu(1e-3, 0.5); o.kernels = kernels && r.p(0.4); o.anchors = 0.6; o.spread(r, c.thorough); Spec s = gen(r, o);
    int free = 0; for (auto &n : s.n) { if (r.p(0.3)) n.anchor = true; free += !n.anchor; } if (!free) s.n[r.i(0, (int)s.n.size() - 1)].anchor = false; bool any = false; for (auto &n : s.n) any |= n.anchor; if (!any && s.n.size() > 1) s.n[r.i(0, (int)s.n.size() - 1)].anchor = true;
    free = 0; for (auto &n : s.n) free += !n.anchor; if (!free) s.n[0].anchor = false;
    for (auto &n : s.n) if (n.anchor && n.k == P2 && r.p(0.3)) n.x(2) = r.u(-20, 20), n.x = dbl(n.x);       // a heading outside the range must stay as given
    return s;
}
static void fixed_anchors(Case &c, const Spec &s, const std::vector<Eigen::MatrixXd> &x0, const std::vector<NP> &n, const char *when) {
    for (size_t i = 0; i < s.n.size(); ++i) if (s.n[i].anchor) { Eigen::MatrixXd x = state(n[i]); c.ok(x.size() == x0[i].size() && memcmp(x.data(), x0[i].data(), sizeof(double) * x.size()) == 0, "anchor-moved:" + std::string(NKN[s.n[i].k]), std::string(when) + " got " + ms(x) + " was " + ms(x0[i])); c.seen("anchor-states"); }
}
SCENARIO(never_move, 4) { // any sequence of solves by any method
    Rng &r = c.r; Spec s = anchored(c, true); if (r.p(0.3)) { std::vector<FacS> f; for (auto &q : s.f) if (r.p(0.7)) f.push_back(q); if (!f.empty()) s.f = f; } auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto B = build<GS>(s, ops); std::vector<Eigen::MatrixXd> x0; for (auto &n : B.n) x0.push_back(state(n));
    for (size_t i = 0; i < s.n.size(); ++i) c.ok(B.n[i]->get_node_mode() == (s.n[i].anchor ? mrob::Node::ANCHOR : mrob::Node::STANDARD), "node-mode");
    for (int k = r.i(1, 5); k > 0; --k) { if (r.p(0.5)) B.g->solve(GS::GN); else B.g->solve(GS::LM, r.i(1, 10), r.logu(1e-9, 1e3), r.logu(1e-9, 1)); fixed_anchors(c, s, x0, B.n, "sparse"); auto e = B.g->get_estimated_state(); for (size_t i = 0; i < s.n.size(); ++i) if (s.n[i].anchor) c.same(e.at(B.nid[i]), x0[i], "anchor-estimate"); if (!finite(states(B))) break; }
    auto D = build<GD>(s, ops); std::vector<Eigen::MatrixXd> d0; for (auto &n : D.n) d0.push_back(state(n)); D.g->solve((mrob::Optimizer::optimMethod)r.i(0, 2), r.i(1, 6), r.logu(1e-6, 1)); fixed_anchors(c, s, d0, D.n, "dense");
}
SCENARIO(known_constant, 5) { // same graph with all nodes free: the anchored system is the one without the anchored columns
    Rng &r = c.r; Spec s = anchored(c, true), f = s; for (auto &n : f.n) n.anchor = false; auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto A = build<GS>(s, ops), F = build<GS>(f, ops); auto x = states(A); double wx = 0; for (auto &q : s.f) wx = std::max(wx, (double)q.W.cwiseAbs().maxCoeff()); double lam = r.logu(1e-6, 1) * std::min(1.0, wx); if (margin(s, x) < 1e-5L) c.skip();
    auto ch = A.g->chi2(); c.near(ch, F.g->chi2(), 1e-14 * ch, "anchor-changes-chi2"); c.same(A.g->get_chi2_array(), F.g->get_chi2_array(), "anchor-changes-factor-chi2");
    A.g->solve(GS::GN); F.g->solve(GS::LM, 1, lam, 1e-3);
    Sys ya; ya.col.assign(s.n.size(), -1); std::vector<int> keep; { int q = 0; for (int i : F.norder) { int d = ndim(s.n[i].k); if (!s.n[i].anchor) { ya.col[i] = (int)keep.size(); for (int j = 0; j < d; ++j) keep.push_back(q + j); } q += d; } }
    Eigen::MatrixXd LA(mrob::SMatCol(A.g->get_information_matrix())), LF(mrob::SMatCol(F.g->get_information_matrix())), AA(mrob::SMatCol(A.g->get_adjacency_matrix())), AF(mrob::SMatCol(F.g->get_adjacency_matrix())); mrob::MatX1 bA = A.g->get_vector_b(), bF = F.g->get_vector_b(); int n = (int)keep.size();
    c.ok(LA.rows() == n && LA.cols() == n && bA.size() == n && AA.cols() == n && (int)A.g->get_dimension_state() == n, "anchored-system-size", fmt("%d expected %d", (int)LA.rows(), n)); if (c.nviol) return; LF.diagonal().array() -= lam;
    double wl = LF.cwiseAbs().maxCoeff() + lam; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) c.bound(std::fabs(LA(i, j) - LF(keep[i], keep[j])), 1e-12 * wl, "anchored-information-matrix"); c.bound(std::fabs(bA(i) - bF(keep[i])), 1e-12 * (std::fabs(bF(keep[i])) + std::sqrt(wl * (ch + 1e-300))), "anchored-right-hand-side"); }
    c.ok(AA.rows() == AF.rows(), "anchored-rows"); if (AA.rows() == AF.rows()) for (int j = 0; j < n; ++j) c.near(AA.col(j), AF.col(keep[j]), 1e-12 * (1 + AF.col(keep[j]).cwiseAbs().maxCoeff()), "anchored-adjacency");
    c.near(Eigen::MatrixXd(mrob::SMatCol(A.g->get_W_matrix())), Eigen::MatrixXd(mrob::SMatCol(F.g->get_W_matrix())), 1e-12 * wl, "anchor-changes-weights"); c.seen("reduced-systems");
    // every remaining node gets its own update
    MX H(n, n); VX b(n); for (int i = 0; i < n; ++i) { b(i) = bF(keep[i]); for (int j = 0; j < n; ++j) H(i, j) = LF(keep[i], keep[j]); } Step st = solve(H, b); if (!(st.cond < 1e6L) || lam > 1e3 * wl || lam > 1e4 * (double)H.diagonal().minCoeff()) /* subtracting the damping cancels */ { c.seen("ill-conditioned"); return; } auto want = stepped(s, x, ya, st.dx), z = states(A);
    for (size_t i = 0; i < s.n.size(); ++i) if (!s.n[i].anchor) { double tol = 1e-9 * (1 + (double)(want[i].cwiseAbs().maxCoeff() + x[i].cwiseAbs().maxCoeff()) + (double)st.dx.cwiseAbs().maxCoeff()) * (1 + (double)st.cond * 1e-3); if (s.n[i].k == P3) tol += logtol(gapof(want[i])) * (1 + (double)want[i].cwiseAbs().maxCoeff()); if (s.n[i].k == PL) { V3 q = x[i].topRows(3) - st.dx.segment(ya.col[i], 3); tol *= 1 + 1 / (double)q.squaredNorm(); } c.bound((double)nodeerr(s.n[i].k, z[i], want[i]), tol, "update-with-anchors:" + std::string(NKN[s.n[i].k]), [&] { return fmt("node %d ", (int)i) + ms(dm(z[i])) + " expected " + ms(dm(want[i])) + " from " + ms(dm(x[i])); }); c.seen("updates"); }
}
SCENARIO(truth_with_anchors, 2) { // noise-free: anchored landmarks and poses pin the solution at the truth
    Rng &r = c.r; Opt o; o.noise = 0; o.init = r.logu(1e-4, 1e-2); o.anchors = 0.7; o.angle = 3; Spec s = gen(r, o); for (auto &n : s.n) if (n.anchor) n.x = n.truth; auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto B = build<GS>(s, ops); auto x0 = states(B); std::vector<MX> tr; for (auto &n : s.n) tr.push_back(n.truth); if (margin(s, tr) < 0.02L || margin(s, x0) < 1e-3L) c.skip(); Sys y = assemble(s, tr, B.norder, B.forder); Step st = solve(y.H, y.b); if (!(st.cond < 1e5L)) c.skip(); { Sys yi = assemble(s, x0, B.norder, B.forder); if (!(solve(yi.H, yi.b).dx.cwiseAbs().maxCoeff() < 0.1L)) c.skip(); }
    bool lm = r.p(0.5); for (int k = 0; k < 12; ++k) if (lm) B.g->solve(GS::LM, 30, 1e-9, 1e-16); else B.g->solve(GS::GN); auto z = states(B); for (size_t i = 0; i < s.n.size(); ++i) c.bound((double)nodeerr(s.n[i].k, z[i], s.n[i].truth), 1e-5, "truth-with-anchors:" + std::string(NKN[s.n[i].k]) + (lm ? ":lm" : ":gn")); c.seen("recoveries");
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
