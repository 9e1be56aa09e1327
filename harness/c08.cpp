// C08: Gauss-Newton steps against the reference normal equations; convergence on well-posed graphs.
#include "biggraph.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS;
static void chk(Case &c, const Spec &s, const std::vector<MX> &got, const std::vector<MX> &want, const std::vector<MX> &x, const Sys &y, const VX &e, const VX &dx, double extra, const std::string &key) {
    for (size_t i = 0; i < s.n.size(); ++i) {
        if (s.n[i].anchor) { c.same(dm(got[i]), dm(x[i]), "anchor-moved"); continue; }
        double tol = 1e-13 * (1 + (double)want[i].cwiseAbs().maxCoeff() + (double)x[i].cwiseAbs().maxCoeff()) + stepsens(s, x, y, e, dx, i) + extra; if (s.n[i].k == P3) tol += 3 * logtol(gapof(want[i])) * (1 + (double)want[i].cwiseAbs().maxCoeff()); if (s.n[i].k == PL) { V3 n = x[i].topRows(3) - dx.segment(y.col[i], 3); double q = (double)n.norm(); tol *= 1 + 1 / (q * q); }
        if (s.n[i].k == P2) tol += 1e-15 * std::fabs((double)dx(y.col[i] + 2));
        c.bound((double)nodeerr(s.n[i].k, got[i], want[i]), tol, key + ":" + NKN[s.n[i].k], [&] { return fmt("node %d ", (int)i) + "got " + ms(dm(got[i])) + " expected " + ms(dm(want[i])) + " from " + ms(dm(x[i])); });
    }
}
static void step(Case &c, int mode) {
    Rng &r = c.r; Opt o; o.mode = mode; o.noise = r.p(0.3) ? 0 : r.logu(1e-4, 0.2); o.init = r.p(0.2) ? 0 : r.logu(1e-4, 0.2); o.kernels = r.p(0.5); if (c.thorough && r.p(0.05)) o.maxposes = 15; o.spread(r, c.thorough);
    Spec s = gen(r, o); double shift = 0; // the whole graph displaced: one step of thousands of metres
    if (r.p(0.15)) { bool free = true; for (auto &n : s.n) free &= !n.anchor && n.k != PL; if (free) { shift = r.logu(50, 1e5); D3 d = unit3(r) * shift; for (auto &n : s.n) { if (n.k == P3) n.x.topRightCorner(3, 1) += lv(d); else n.x.topRows(n.k == L3 ? 3 : 2) += lv(d).topRows(n.k == L3 ? 3 : 2); n.x = dbl(n.x); } c.seen("displaced"); } }
    auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto B = build<GS>(s, ops);
    int rounds = r.i(1, 3); for (int t = 0; t < rounds; ++t) {
        auto x = states(B); if (margin(s, x) < 1e-3L) { c.seen("near-singular-point"); return; } Sys y = assemble(s, x, B.norder, B.forder); Step st = solve(y.H, y.b); if (!(st.cond < 1e7L)) { c.seen("ill-conditioned"); return; } L big = st.dx.cwiseAbs().maxCoeff(); if (big > 50 + 4 * shift) { c.seen("long-step"); return; }
        if (r.p(0.3)) { B.g->chi2(r.p(0.5)); B.g->get_chi2_array(); B.g->get_estimated_state(); }
        B.g->solve(GS::GN); auto z = states(B);
        // 1) from the reference system
        auto want = stepped(s, x, y, st.dx); VX e(st.dx.size()); L gap = 1e-2L / margin(s, x); for (int i = 0; i < e.size(); ++i) e(i) = 1e-9L * (1 + gap) * st.cond * (st.sn + std::sqrt(y.chi2) * 1e-3L) / st.D(i) ;
        if (big > 50) c.seen("long-steps-judged"); chk(c, s, z, want, x, y, e, st.dx, 1e-11 * shift, "gauss-newton-step");
        // 2) from the exposed system, tightly
        MX H = lm(Eigen::MatrixXd(mrob::SMatCol(B.g->get_information_matrix()))); VX b = lv(mrob::MatX1(B.g->get_vector_b())); Step s2 = solve(H, b); auto w2 = stepped(s, x, y, s2.dx); for (int i = 0; i < e.size(); ++i) e(i) = 1e-13L * s2.cond * s2.sn / s2.D(i); chk(c, s, z, w2, x, y, e, s2.dx, 1e-11 * shift, "step-of-exposed-system");
        c.ok((int)B.g->number_nodes() == (int)s.n.size(), "node-count"); c.seen("steps"); auto est = B.g->get_estimated_state(); for (size_t i = 0; i < s.n.size(); ++i) c.same(Eigen::MatrixXd(est.at(B.nid[i])), state(B.n[i]), "estimated-state-order");
    }
}
SCENARIO(step_2d, 3) { step(c, 0); }
SCENARIO(step_3d, 3) { step(c, 1); }
SCENARIO(step_mixed, 2) { step(c, 2); }

static void converge(Case &c, double noise, bool kernels) {
    Rng &r = c.r; Opt o; o.noise = noise; o.init = r.logu(1e-4, 1e-2); o.kernels = kernels; o.wscale = noise > 0 ? 1 : 2; o.angle = 3.0; if (r.p(0.004)) { o.maxposes = 30; o.maxland = 8; } Spec s = gen(r, o); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto B = build<GS>(s, ops);
    auto x0 = states(B); std::vector<MX> tr; for (auto &n : s.n) tr.push_back(n.truth); if (margin(s, x0) < 1e-3L || margin(s, tr) < 0.02L) c.skip(); Sys y0 = assemble(s, tr, B.norder, B.forder); Step st0 = solve(y0.H, y0.b); if (!(st0.cond < 1e6L)) c.skip();
    // the initial error of every relative quantity must be small: the graph may amplify perturbations
    { Sys yi = assemble(s, x0, B.norder, B.forder); Step si = solve(yi.H, yi.b); if (!(si.dx.cwiseAbs().maxCoeff() < 0.1L)) c.skip(); }
    std::vector<MX> prev; double mv = 0; int it = 0; for (; it < 60; ++it) { prev = states(B); B.g->solve(GS::GN); auto z = states(B); mv = 0; for (size_t i = 0; i < s.n.size(); ++i) mv = std::max(mv, (double)nodeerr(s.n[i].k, z[i], prev[i])); if (mv < 1e-11 && it >= 3) break; }
    auto z = states(B); double sx = 1; for (auto &m : z) sx = std::max(sx, (double)m.cwiseAbs().maxCoeff()); c.ok(finite(z), "converged-states-finite"); c.seen("converged-in-steps", it + 1); c.seen("convergence-runs");
    if (noise == 0) {
        for (size_t i = 0; i < s.n.size(); ++i) c.bound((double)nodeerr(s.n[i].k, z[i], s.n[i].truth), 1e-12 * sx * (double)std::sqrt(st0.cond) * (1 + 100 * (s.n[i].k == P3 ? logtol(gapof(s.n[i].truth)) / 1e-13 * 1e-2 : 0)) , "converges-to-truth:" + std::string(NKN[s.n[i].k]), [&] { return fmt("node %d after %d steps got ", (int)i, it) + ms(dm(z[i])) + " truth " + ms(dm(s.n[i].truth)); });
        double wm = 0; for (auto &f : s.f) wm = std::max(wm, (double)f.W.cwiseAbs().maxCoeff()); c.bound(B.g->chi2(), 1e-18 * wm * sx * sx * s.f.size(), "converged-chi2-zero"); c.seen("exact-recoveries");
    } else {
        c.bound(mv, 1e-7 * sx, "converges-with-noise", [&] { return fmt("still moving by %.3g after %d steps", mv, it); });
        if (margin(s, z) < 1e-3L) return; Sys y = assemble(s, z, B.norder, B.forder); Step st = solve(y.H, y.b); if (!(st.cond < 1e7L)) return; auto w = stepped(s, z, y, st.dx);
        for (size_t i = 0; i < s.n.size(); ++i) c.bound((double)nodeerr(s.n[i].k, w[i], z[i]), 1e-6 * sx, "stationary-with-noise:" + std::string(NKN[s.n[i].k])); c.seen("stationary-points");
    }
}
SCENARIO(converge_exact, 2) { converge(c, 0, c.r.p(0.3)); }
SCENARIO(converge_noise, 1) { converge(c, c.r.logu(1e-4, 1e-2), false); }
SCENARIO(big, 1) { // a few graphs of hundreds to thousands of nodes among small ones
    Rng &r = c.r; bool d3 = r.p(0.5); int N = r.p(c.thorough ? 0.1 : 0.03) ? r.i(80, d3 ? 400 : 1000) : r.i(2, 40); double noise = r.p(0.4) ? 0 : r.logu(1e-4, 3e-2); Spec s = bigspec(r, N, d3, noise, r.logu(1e-4, 3e-2), r.p(0.3)); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); auto B = build<GS>(s, ops); c.note = fmt("%s %d nodes %d factors noise %.3g", d3 ? "3-D" : "2-D", (int)s.n.size(), (int)s.f.size(), noise);
    for (int t = r.i(1, 3); t > 0; --t) { auto x = states(B); if (!finite(x, 1e5L) || margin(s, x) < 1e-3L) { c.seen("near-singular-point"); return; } double c0 = B.g->chi2(); c.near(c0, (double)refchi2(s, x), 1e-6 * c0 + 1e-9, "big:chi2"); B.g->solve(GS::GN); auto z = states(B); if (!finite(z, 1e5L)) { c.seen("diverged"); return; } bigjudge(c, s, B, x, z, 0, "big"); if (c.nviol) return; }
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
