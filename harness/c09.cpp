// C09: Levenberg-Marquardt: monotone, bounded, exact rollback, consistent reports, requested damping.
#include "biggraph.hpp"
#include "trace.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS;
// counts linearisations: bounded-progress monitor of the iteration limit
struct Counting : mrob::Factor1Pose2d { int n = 0; using Factor1Pose2d::Factor1Pose2d; void evaluate_jacobians() override { ++n; Factor1Pose2d::evaluate_jacobians(); } };
static bool stable(const Spec &s, const std::vector<MX> &x) { for (auto &f : s.f) if (f.k == FPL2 && std::hypot(x[f.b](0) - x[f.a](0), x[f.b](1) - x[f.a](1)) < 2.5e-3L) return false; /* coinciding pose and landmark: see C05 */ return margin(s, x) > 1e-6L; }
// comparable chi2 tolerance: rounding of the residuals
static double ctol(const Spec &s, const std::vector<MX> &x, double c2) { double sx = 1; for (auto &m : x) sx = std::max(sx, (double)m.cwiseAbs().maxCoeff()); double w = 0; for (auto &f : s.f) { w = std::max(w, (double)f.W.cwiseAbs().maxCoeff()); sx = std::max(sx, (double)f.z.cwiseAbs().maxCoeff()); } double rd = 1e-11 * sx * sx; return 1e-11 * c2 + w * s.f.size() * (rd * rd + rd * std::sqrt(2 * c2 / std::max(w, 1e-300))); }
static void valid(Case &c, const Spec &s, const std::vector<MX> &x, const std::vector<MX> &x0, const Built<GS> &B) {
    c.ok(finite(x, 1e300L), "states-not-finite", [&] { std::string o; for (auto &m : x) o += ms(dm(m)); return o.substr(0, 800); }());
    for (size_t i = 0; i < s.n.size(); ++i) {
        if (s.n[i].anchor) { c.same(dm(x[i]), dm(x0[i]), "anchor-moved"); continue; }
        if (s.n[i].k == P3) { M3 R = rot(m4(x[i])); c.bound((double)(R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), 1e-12, "pose-not-rigid"); c.bound((double)std::fabs(R.determinant() - 1), 1e-12, "pose-not-rigid"); c.ok(x[i](3, 0) == 0 && x[i](3, 1) == 0 && x[i](3, 2) == 0 && x[i](3, 3) == 1, "pose-last-row"); }
        if (s.n[i].k == PL && nodeerr(PL, x[i], x0[i]) > 0) c.bound((double)std::fabs(V3(x[i].topRows(3)).norm() - 1), 1e-13, "plane-not-unit");
        if (s.n[i].k == P2 && nodeerr(P2, x[i], x0[i]) > 0) c.ok(x[i](2) >= -PI && x[i](2) < PI, "heading-range");
    }
}
static Spec problem(Case &c, Opt &o, int how) { // how 0 well posed, 1 badly initialised, 2 rank deficient / disconnected
    Rng &r = c.r; o.spread(r, c.thorough); o.noise = r.p(0.3) ? 0 : r.logu(1e-4, 0.3); o.kernels = r.p(0.3); o.init = how == 0 ? r.logu(1e-4, 0.1) : how == 1 ? r.logu(0.3, 5) : r.logu(1e-3, 1); Spec s = gen(r, o);
    if (how == 2) { // drop gauge-fixing and some other factors
        if (r.p(0.7)) { for (auto &n : s.n) n.anchor = false; std::vector<FacS> f; for (auto &q : s.f) if (!(unary(q.k) && r.p(0.9))) f.push_back(q); if (!f.empty()) s.f = f; }
        std::vector<FacS> f; for (auto &q : s.f) if (r.p(0.75)) f.push_back(q); if (!f.empty()) s.f = f;
        if (r.p(0.3)) { NodeS n; n.k = r.p(0.5) ? P2 : L3; n.x = MX::Zero(3, 1); n.truth = n.x; s.n.push_back(n); } }
    return s;
}
static void general(Case &c, int how) {
    Rng &r = c.r; Opt o; Spec s = problem(c, o, how); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); auto B = build<GS>(s, ops);
    std::shared_ptr<Counting> cnt; for (size_t i = 0; i < s.n.size() && !cnt; ++i) if (s.n[i].k == P2 && !s.n[i].anchor && r.p(0.7)) { FacS f; f.k = F1P2; f.a = (int)i; f.b = -1; f.z = dbl(s.n[i].truth); f.W = MX::Identity(3, 3) * 1e-3L; f.W = dbl(f.W); mrob::Mat31 z = dm(f.z); mrob::Mat3 W = dm(f.W); cnt = std::make_shared<Counting>(z, B.n[i], W); FP p = cnt; B.g->add_factor(p); s.f.push_back(f); }
    int rounds = r.i(1, 3); for (int t = 0; t < rounds; ++t) {
        int iters = r.p(0.3) ? r.i(1, 3) : r.i(1, 30); double lam = r.logu(1e-9, 1e4), tol = r.logu(1e-12, 1); auto x0 = states(B); double c0 = B.g->chi2(true); c.note = fmt("%d iterations lambda %.6g tol %.6g chi2 %.17g round %d: ", iters, lam, tol, c0, t) + desc(s);
        if (!std::isfinite(c0)) { c.ok(!finite(x0, 1e150L), "initial-chi2"); c.skip(); } if (cnt) cnt->n = 0;
        B.g->solve(GS::LM, iters, lam, tol); double rep = B.g->chi2(false); auto arr = B.g->get_chi2_array(); auto x = states(B); valid(c, s, x, x0, B); if (c.nviol) return;
        if (cnt) c.ok(cnt->n <= iters + 1, "iteration-limit", fmt("%d linearisations, limit %d", cnt->n, iters));
        double c1 = B.g->chi2(true); auto ar1 = B.g->get_chi2_array(); auto x1 = states(B); for (size_t i = 0; i < x.size(); ++i) c.same(dm(x1[i]), dm(x[i]), "query-changes-state");
        double ct = ctol(s, x, c0); c.bound(std::fabs(rep - c1), 1e-9 * (1e-300 + std::fabs(c1)) + ct * 1e-3, "reported-chi2-is-current", [&] { return fmt("reported %.17g, of the returned states %.17g", rep, c1); });
        for (int i = 0; i < arr.size(); ++i) c.bound(std::fabs(arr(i) - ar1(i)), 1e-9 * std::fabs(ar1(i)) + ct * 1e-3, "reported-factor-chi2-is-current", [&] { return fmt("factor %d reported %.17g, of the returned states %.17g", i, arr(i), ar1(i)); });
        c.bound(c1 - c0 > 0 ? c1 - c0 : 0, ct, "chi2-increased", [&] { return fmt("from %.17g to %.17g", c0, c1); }); c.seen(c1 < c0 ? "improved" : "unchanged");
        c.seen("solves");
        if (stable(s, x)) c.near(c1, (double)refchi2(s, x), 1e-6 * c1 + 10 * ct + 1e-9 * 0, "chi2-of-states");
    }
}
SCENARIO(well_posed, 2) { general(c, 0); }
SCENARIO(badly_initialised, 3) { general(c, 1); }
SCENARIO(rank_deficient, 3) { general(c, 2); }

// a single iteration: either the step damped by the requested lambda, or exactly nothing
SCENARIO(first_step, 4) {
    Rng &r = c.r; Opt o; Spec s; double lam = r.logu(1e-6, r.p(0.5) ? 1e5 : 1e-2), tol = r.logu(1e-12, 1); bool hunt = r.p(0.5); // half of the cases look for a step that must be rejected
    for (int q = 0; q < (hunt ? 12 : 1); ++q) { s = problem(c, o, hunt ? 1 : r.i(0, 2)); if (!hunt) break; std::vector<MX> x; for (auto &n : s.n) x.push_back(n.x); if (margin(s, x) < 1e-3L) continue; std::vector<int> no, fo; for (int i = 0; i < (int)s.n.size(); ++i) no.push_back(i); for (int i = 0; i < (int)s.f.size(); ++i) fo.push_back(i); Sys y = assemble(s, x, no, fo); MX H = y.H; for (int i = 0; i < y.N; ++i) H(i, i) += lam; Step st = solve(H, y.b); if (st.cond < 1e8L && st.dx.cwiseAbs().maxCoeff() < 100 && refchi2(s, stepped(s, x, y, st.dx)) > 1.01L * refchi2(s, x)) break; }
    auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.mark(lam); auto B = build<GS>(s, ops); c.note = fmt("lambda %.6g ", lam) + desc(s);
    auto x = states(B); if (margin(s, x) < 1e-3L) c.skip(); Sys y = assemble(s, x, B.norder, B.forder); MX H = y.H; for (int i = 0; i < y.N; ++i) H(i, i) += lam; Step st = solve(H, y.b); if (!(st.cond < 1e8L) || st.dx.cwiseAbs().maxCoeff() > 100) c.skip();
    auto want = stepped(s, x, y, st.dx); L c0 = refchi2(s, x), c1 = refchi2(s, want); VX e(st.dx.size()); for (int i = 0; i < e.size(); ++i) e(i) = 1e-9L * (1 + 1e-2L / margin(s, x)) * st.cond * (st.sn + 1e-3L * std::sqrt(y.chi2)) / st.D(i);
    L es = 0; for (size_t i = 0; i < s.n.size(); ++i) if (y.col[i] >= 0) es = std::max<L>(es, stepsens(s, x, y, e, st.dx, (int)i)); double wm = 0; for (auto &f : s.f) wm = std::max(wm, (double)f.W.cwiseAbs().maxCoeff()); L de = 1e-6L * c0 + wm * es * es * 100 + std::sqrt(wm * c1) * es * 100;
    B.g->solve(GS::LM, 1, lam, tol); auto z = states(B); if (std::fabs(c1 - c0) <= de + 1e-300L || (margin(s, want) < 1e-6L)) { c.seen("ambiguous"); return; } bool acc = c1 < c0; double lastred = 0;
    for (size_t i = 0; i < s.n.size(); ++i) {
        if (s.n[i].anchor) { c.same(dm(z[i]), dm(x[i]), "anchor-moved"); continue; } double tl = 1e-14 * (1 + (double)x[i].cwiseAbs().maxCoeff());
        if (!acc) c.bound((double)nodeerr(s.n[i].k, z[i], x[i]), s.n[i].k == P2 ? tl : 1e-300, "rejected-step-not-undone:" + std::string(NKN[s.n[i].k]), [&] { return ms(dm(z[i])) + " was " + ms(dm(x[i])); });
        else { double t2 = 1e-12 * (1 + (double)want[i].cwiseAbs().maxCoeff() + (double)x[i].cwiseAbs().maxCoeff()) + stepsens(s, x, y, e, st.dx, i); if (s.n[i].k == P3) t2 += logtol(gapof(want[i])) * (1 + (double)want[i].cwiseAbs().maxCoeff()); if (s.n[i].k == PL) { V3 n = x[i].topRows(3) - st.dx.segment(y.col[i], 3); t2 *= 1 + 1 / (double)n.squaredNorm(); } c.bound((double)nodeerr(s.n[i].k, z[i], want[i]), t2, "damped-step:" + std::string(NKN[s.n[i].k]), [&] { return ms(dm(z[i])) + " expected " + ms(dm(want[i])) + " from " + ms(dm(x[i])); }); }
    }
    c.seen(acc ? "accepted" : "rejected"); (void)lastred;
    // and the next iteration of the same solve: more damping after a rejection, not more after a well predicted step (read from the exposed matrix)
    auto B2 = build<GS>(s, ops); B2.g->solve(GS::LM, 2, lam, 1e-300); auto dg = [&](Built<GS> &Q) { Eigen::MatrixXd I(mrob::SMatCol(Q.g->get_information_matrix())), A(mrob::SMatCol(Q.g->get_adjacency_matrix())), W(mrob::SMatCol(Q.g->get_W_matrix())); for (int i = 0; i < W.rows(); ++i) for (int j = 0; j < i; ++j) W(i, j) = W(j, i); Eigen::MatrixXd D = I - A.transpose() * W * A; double best = NAN, lo = 1e300; for (int i = 0; i < D.rows(); ++i) { double h = (A.cwiseAbs().transpose() * W.cwiseAbs() * A.cwiseAbs())(i, i); if (h < lo) { lo = h; best = D(i, i); } } return std::make_pair(best, lo * 1e-13); };
    auto l2 = dg(B2); if (!(l2.second < 0.02 * lam) ) return; L pred = st.dx.dot(y.b) - 0.5L * st.dx.dot(H * st.dx), fid = (c0 - c1) / pred;
    if (!acc) { c.ok(l2.first > 1.2 * lam, "damping-not-increased-after-rejection", fmt("lambda %.9g then %.9g", lam, l2.first)); c.seen("lambda-after-rejection"); }
    else if (fid > 0.9 && c0 - c1 > 1e-6 && c0 - c1 > 1e3L * de) { c.ok(l2.first < 0.9 * lam, "damping-not-decreased-after-good-step", fmt("lambda %.9g then %.9g", lam, l2.first)); c.seen("lambda-after-good-step"); }
}
// the same solve cut after 1, 2, 3... iterations: every further iteration improves or changes nothing
SCENARIO(prefixes, 3) {
    Rng &r = c.r; Opt o; Spec s = problem(c, o, r.p(0.7) ? 1 : r.i(0, 2)); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); double lam = r.logu(1e-9, 1e3); c.mark(lam); c.note = fmt("lambda %.6g ", lam) + desc(s);
    std::vector<MX> px; double pc = 0; int n = r.i(2, 10); for (int k = 0; k <= n; ++k) {
        auto B = build<GS>(s, ops); auto x0 = states(B); double c0 = B.g->chi2(true); if (k) B.g->solve(GS::LM, k, lam, 1e-300); auto x = states(B); double cc = B.g->chi2(true); if (!std::isfinite(c0)) c.skip();
        if (k) { valid(c, s, x, x0, B); double ct = ctol(s, x, pc); c.bound(cc > pc ? cc - pc : 0, ct, "iteration-increases-chi2", [&] { return fmt("iteration %d from %.17g to %.17g", k, pc, cc); });
            c.seen(cc < pc ? "iterations-improving" : cc == pc ? "iterations-undone" : "iterations-equal"); }
        px = x; pc = cc; }
}
// well posed: as good as the least-squares optimum
SCENARIO(optimum, 3) {
    Rng &r = c.r; Opt o; o.noise = r.p(0.4) ? 0 : r.logu(1e-4, 1e-2); o.init = r.logu(1e-3, 0.1); o.wscale = 1; o.angle = 3.0; Spec s = gen(r, o); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); double lam = r.logu(1e-9, 1e-4), tol = r.logu(1e-9, 1e-4); c.mark(lam); c.mark(tol); c.note = fmt("lambda %.6g tol %.6g ", lam, tol) + desc(s);
    std::vector<MX> tr; for (auto &n : s.n) tr.push_back(n.truth); auto B = build<GS>(s, ops), T = build<GS>(s, ops); auto x0 = states(B); if (margin(s, tr) < 0.02L || margin(s, x0) < 0.02L) c.skip(); Sys y0 = assemble(s, tr, B.norder, B.forder); if (!(solve(y0.H, y0.b).cond < 1e5L)) c.skip(); { Sys yi = assemble(s, x0, B.norder, B.forder); Step si = solve(yi.H, yi.b); if (!(si.dx.cwiseAbs().maxCoeff() < 0.4L)) c.skip(); }
    for (size_t i = 0; i < s.n.size(); ++i) T.n[i]->set_state(dm(s.n[i].truth)); for (int k = 0; k < 40; ++k) T.g->solve(GS::GN); double best = T.g->chi2(); if (!std::isfinite(best)) c.skip();
    B.g->solve(GS::LM, 100, lam, tol); double got = B.g->chi2(); double c0 = (double)refchi2(s, x0); (void)c0; c.bound(got - best > 0 ? got - best : 0, 20 * tol + 1e-3 * best, "not-the-optimum", [&] { return fmt("chi2 %.9g, optimum %.9g", got, best); }); c.seen("optima");
}
SCENARIO(big, 1) {
    Rng &r = c.r; bool d3 = r.p(0.5); int N = r.p(c.thorough ? 0.1 : 0.03) ? r.i(80, d3 ? 300 : 800) : r.i(2, 40); double noise = r.p(0.4) ? 0 : r.logu(1e-4, 3e-2); Spec s = bigspec(r, N, d3, noise, r.logu(1e-4, 0.3), r.p(0.3)); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); auto B = build<GS>(s, ops); c.note = fmt("%s %d nodes %d factors noise %.3g", d3 ? "3-D" : "2-D", (int)s.n.size(), (int)s.f.size(), noise);
    auto x = states(B); double lam = r.logu(1e-6, 1e3), c0 = B.g->chi2(); B.g->solve(GS::LM, 1, lam, 1e-300); auto z = states(B); double c1 = B.g->chi2(); valid(c, s, z, x, B); c.bound(c1 > c0 ? c1 - c0 : 0, ctol(s, x, c0), "chi2-increased"); bool moved = false; for (size_t i = 0; i < z.size(); ++i) moved |= nodeerr(s.n[i].k, z[i], x[i]) > 1e-12L; if (c.nviol) return;
    if (moved && margin(s, x) > 1e-3L) bigjudge(c, s, B, x, z, lam, "big-damped"); if (!moved) c.seen("big-rejected"); if (c.nviol) return;
    c0 = B.g->chi2(); B.g->solve(GS::LM, r.i(1, 15), r.logu(1e-6, 10), r.logu(1e-9, 1e-1)); c1 = B.g->chi2(false); double c2 = B.g->chi2(true); auto w = states(B); valid(c, s, w, z, B); c.bound(c2 > c0 ? c2 - c0 : 0, ctol(s, w, c0), "chi2-increased"); c.bound(std::fabs(c1 - c2), 1e-9 * c2 + 1e-3 * ctol(s, w, c0), "reported-chi2-is-current"); c.seen("big-solves");
}
// whole solves as traces of node updates
SCENARIO(trace, 4) {
    Rng &r = c.r; Opt o; Spec s = problem(c, o, r.i(0, 2)); if (r.p(0.5)) for (auto &f : s.f) f.robust = 0; auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); Tap t; auto B = buildtapped<GS>(s, ops, t); if (o.large) c.skip(); bool rob = false; for (auto &f : s.f) rob |= f.robust > 0; bool def = r.p(0.1); int n = def ? 20 : r.i(1, 15); double lam = def ? 1e-6 : r.logu(1e-8, 1e2), tol = def ? 1e-2 : r.p(0.3) ? 1e-300 : r.logu(1e-9, 1e2); c.note = fmt("%d iterations lambda %.6g tolerance %.6g ", n, lam, tol) + desc(s);
    for (int k = r.i(0, 1); k >= 0; --k) { auto x0 = states(B); if (!finite(x0, 1e6L)) return; t.nodes = &B.n; t.steps.clear(); t.got = 0; t.armed = true; if (def) B.g->solve(GS::LM); else B.g->solve(GS::LM, n, lam, tol); t.armed = false; tracecheck(c, s, B, t, SPHERE, lam, tol, n, true, x0, "trace"); (void)rob; if (c.nviol) return; if (r.p(0.3)) for (auto &q : B.n) if (q->get_node_mode() != mrob::Node::ANCHOR && r.p(0.3)) q->update(mrob::MatX1::Constant(q->get_dim(), 0.05)); }
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
