// C07: the matrices exposed after a solve against the stacked reference factors.
#include "biggraph.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS;
// a sub-specification holding only what has been created so far
static void judge(Case &c, const Spec &s, const Built<GS> &B, const std::vector<MX> &x, double lambda, const char *when) {
    L mg = margin(s, x); if (mg < 1e-3L) { c.seen("near-singular-point"); return; }
    Spec p; p.n = s.n; p.f = s.f; Sys y = assemble(p, x, B.norder, B.forder); double sx = 1; for (auto &m : x) sx = std::max(sx, (double)m.cwiseAbs().maxCoeff()); for (auto &f : s.f) sx = std::max(sx, (double)f.z.cwiseAbs().maxCoeff()); double sc = 4 * sx * (1 + 1e-2 / (double)mg);
    mrob::SMatCol A0 = B.g->get_adjacency_matrix(), W0 = B.g->get_W_matrix(), L0 = B.g->get_information_matrix(); mrob::MatX1 b0 = B.g->get_vector_b();
    Eigen::MatrixXd A = Eigen::MatrixXd(A0), W = Eigen::MatrixXd(W0), I = Eigen::MatrixXd(L0); std::string w = when;
    c.ok(A.rows() == y.M && A.cols() == y.N && W.rows() == y.M && W.cols() == y.M && I.rows() == y.N && I.cols() == y.N && b0.size() == y.N, "sizes", fmt("%s A %dx%d W %d L %d b %d, expected %d observations %d states", when, (int)A.rows(), (int)A.cols(), (int)W.rows(), (int)I.rows(), (int)b0.size(), y.M, y.N));
    if (c.nviol) return;
    c.near(A, dm(y.A), 1e-8 * sc, "adjacency-matrix:" + w);
    for (int i = 0; i < y.M; ++i) for (int j = 0; j < y.N; ++j) if (y.A(i, j) == 0 && A(i, j) != 0 && std::fabs(A(i, j)) > 1e-8 * sc) c.viol("adjacency-structure", fmt("entry %d,%d", i, j));
    for (int j : B.forder) { // weight blocks, upper triangle; nothing outside
        int q = y.row[j], m = fdim(s.f[j].k); L u = y.u[j]; L wm = s.f[j].W.cwiseAbs().maxCoeff(), du = std::sqrt(wm) * 1e-9L * sc; bool jump = s.f[j].robust == 4 && std::fabs(u - 1) < 2 * du + 1e-9L;
        if (jump) return;
        L dw = s.f[j].robust == 0 || s.f[j].robust == 4 ? 0 : std::min<L>(1, 4 * du * (1 + 1 / (1 + u))); // sensitivity of the weight
        for (int a = 0; a < m; ++a) for (int b = a; b < m; ++b) c.bound((double)std::fabs(W(q + a, q + b) - y.W(q + a, q + b)), (double)(std::fabs(s.f[j].W(a, b)) * (1e-13L + dw)) + 1e-300, "weight-matrix:" + w, [&] { return fmt("factor %d %s kernel %d u=%.17g entry %d,%d got %.17g expected %.17g", j, FKN[s.f[j].k], s.f[j].robust, (double)u, a, b, W(q + a, q + b), (double)y.W(q + a, q + b)); });
        for (int a = 0; a < m; ++a) for (int b = 0; b < (int)y.M; ++b) if ((b < q || b >= q + m) && W(q + a, b) != 0) c.viol("weight-matrix-structure:" + w, fmt("entry %d,%d", q + a, b)); }
    // products from the exposed A and W (W is stored as its upper triangle)
    MX Wl = lm(W); for (int i = 0; i < y.M; ++i) for (int j = 0; j < i; ++j) Wl(i, j) = Wl(j, i);
    MX Al = lm(A), WA = MX::Zero(y.M, y.N), WB = WA; /* W is block diagonal (checked above) */ for (int j : B.forder) { int q = y.row[j], m = fdim(s.f[j].k); WA.middleRows(q, m) = Wl.block(q, q, m, m) * Al.middleRows(q, m); WB.middleRows(q, m) = Wl.block(q, q, m, m).cwiseAbs() * Al.middleRows(q, m).cwiseAbs(); } MX H = Al.transpose() * WA, S = Al.cwiseAbs().transpose() * WB; for (int i = 0; i < y.N; ++i) H(i, i) += lambda;
    for (int i = 0; i < y.N; ++i) for (int j = 0; j < y.N; ++j) c.bound((double)std::fabs(I(i, j) - H(i, j)), (double)(S(i, j) + (i == j ? lambda : 0)) * 1e-12 + 1e-300, "information-matrix:" + w, [&] { return fmt("entry %d,%d got %.17g expected %.17g", i, j, I(i, j), (double)H(i, j)); });
    VX b = Al.transpose() * Wl * y.r, sb = Al.cwiseAbs().transpose() * Wl.cwiseAbs() * (y.r.cwiseAbs() + VX::Constant(y.M, 1e-3L * sc * (1e-3L + 0)));
    for (int i = 0; i < y.N; ++i) c.bound((double)std::fabs(b0(i) - b(i)), (double)sb(i) * 1e-7 + 1e-300, "right-hand-side:" + w, [&] { return fmt("entry %d got %.17g expected %.17g", i, b0(i), (double)b(i)); });
    c.seen(std::string("systems:") + when); c.seen("blocks", B.forder.size());
}
static void chi2s(Case &c, const Spec &s, const Built<GS> &B, bool fresh, const char *when) { // total and per-factor values in factor order
    std::vector<MX> x = states(B); if (!finite(x)) return; double tot = B.g->chi2(true); mrob::MatX1 arr = B.g->get_chi2_array(); c.ok(arr.size() == (int)B.forder.size(), "chi2-array-size"); if (arr.size() != (int)B.forder.size()) return; static const MX none; double sum = 0;
    for (size_t q = 0; q < B.forder.size(); ++q) { auto &f = s.f[B.forder[q]]; Res e = element(f, x[f.a], f.b >= 0 ? x[f.b] : none); if (e.grp && PI - e.v.head(3).norm() < 1e-4) { sum = NAN; continue; }
        bool near = false; for (int i = 0; i < e.v.size(); ++i) if (angular(f.k, i) && PI - std::fabs(e.v(i)) < 1e-9) near = true; if (f.k == FPL2 && std::hypot(x[f.b](0) - x[f.a](0), x[f.b](1) - x[f.a](1)) < 2e-3) near = true; if (f.k == FPPL) { V4 p = m4(x[f.a]).transpose() * V4(x[f.b]); if (std::fabs(p(3)) < 1e-9) near = true; } if (near) { sum = NAN; continue; }
        double sx = 1 + (double)x[f.a].cwiseAbs().maxCoeff() + (double)f.z.cwiseAbs().maxCoeff() + (f.b >= 0 ? (double)x[f.b].cwiseAbs().maxCoeff() : 0), n = (double)e.v.norm() + 1e-9 * sx; double wm = (double)f.W.cwiseAbs().maxCoeff();
        c.near(arr(q), (double)chi2ref(f, e.v), 1e-8 * wm * n * sx * sx + 1e-300, std::string("chi2-array:") + when); sum += arr(q); }
    double ss = 0; for (int i = 0; i < arr.size(); ++i) ss += arr(i); c.near(tot, ss, 1e-13 * std::fabs(ss), "chi2-is-sum"); c.near(B.g->chi2(false), ss, 1e-13 * std::fabs(ss), "chi2-is-sum");
}
static void run(Case &c, int mode, bool ransac) {
    Rng &r = c.r; Opt o; o.mode = mode; o.noise = r.p(0.3) ? 0 : r.logu(1e-4, 0.2); o.init = r.p(0.2) ? 0 : r.logu(1e-4, 0.3); o.kernels = r.p(0.6); o.maxposes = c.thorough && r.p(0.1) ? 15 : 6; o.spread(r, c.thorough); if (r.p(0.1)) o.wscale = r.u(3, 8);
    Spec s = gen(r, o); if (ransac) for (auto &f : s.f) if (r.p(0.4)) f.robust = 4;
    gg::mark(c, s); auto ops = creation(s, r); c.note = desc(s); c.mark(ops.data(), ops.size() * sizeof(int));
    // all but a tail of the operations first, then solves interleaved with the rest
    Built<GS> B = build<GS>(s, {}); size_t cut = r.p(0.5) ? ops.size() : r.i(0, (int)ops.size()); B.n.resize(s.n.size()); B.f.resize(s.f.size());
    auto add = [&](int op) { if (op >= 0) { B.n[op] = mknode(s.n[op]); B.nid[op] = (int)B.g->add_node(B.n[op]); B.norder.push_back(op); } else { int j = -1 - op; auto &f = s.f[j]; B.f[j] = mkfac(f, B.n[f.a], f.b >= 0 ? B.n[f.b] : NP()); B.fid[j] = (int)B.g->add_factor(B.f[j]); B.forder.push_back(j); } };
    size_t k = 0; for (; k < cut; ++k) add(ops[k]);
    int rounds = r.i(1, 3); for (int t = 0; t < rounds || k < ops.size(); ++t) {
        if (t >= rounds) while (k < ops.size()) add(ops[k++]);
        // what exists now
        Spec p = s; Built<GS> V = B; std::vector<char> have(s.n.size()); for (int i : B.norder) have[i] = 1; int free = 0; for (int i : B.norder) free += !s.n[i].anchor;
        bool all = k == ops.size();
        if (free && !B.forder.empty()) {
            std::vector<MX> x(s.n.size()); for (size_t i = 0; i < s.n.size(); ++i) x[i] = have[i] ? lm(B.n[i]->get_state()) : MX(s.n[i].x); if (!finite(x)) return;
            // factors not yet created must not count: keep only created ones, renumbered
            Spec q; q.n = s.n; Built<GS> Q; Q.g = B.g; Q.norder = B.norder; for (int j : B.forder) { q.f.push_back(s.f[j]); Q.forder.push_back((int)q.f.size() - 1); }
            Q.n = B.n; bool gn = all && r.p(0.6) && !ransac; double lam = r.logu(1e-9, 1e3);
            if (gn) B.g->solve(GS::GN); else B.g->solve(GS::LM, 1, lam, r.logu(1e-12, 1));
            judge(c, q, Q, x, gn ? 0 : lam, gn ? "gn" : "lm"); if (!all) c.seen("incremental");
            if (all) chi2s(c, q, Q, true, gn ? "gn" : "lm");
            c.ok((int)B.g->number_nodes() == (int)B.norder.size() && (int)B.g->number_factors() == (int)B.forder.size(), "counts");
            int sd = 0, od = 0; for (int i : B.norder) if (!s.n[i].anchor) sd += ndim(s.n[i].k); for (int j : B.forder) od += fdim(s.f[j].k); c.ok((int)B.g->get_dimension_state() == sd && (int)B.g->get_dimension_obs() == od, "dimensions", fmt("state %d/%d obs %d/%d", (int)B.g->get_dimension_state(), sd, (int)B.g->get_dimension_obs(), od));
        }
        for (int m = r.i(1, 4); m > 0 && k < ops.size(); --m) add(ops[k++]);
    }
}
SCENARIO(big, 1) { // a few graphs of hundreds to thousands of nodes among small ones; from perfect guesses (tiny residuals) to bad ones
    Rng &r = c.r; bool d3 = r.p(0.5); int N = r.p(c.thorough ? 0.1 : 0.04) ? r.i(80, d3 ? 400 : 1500) : r.i(2, 40); double noise = r.p(0.3) ? r.logu(1e-9, 1e-4) : r.logu(1e-4, 3e-2), init = r.p(0.3) ? 0 : r.p(0.5) ? r.logu(1e-9, 1e-4) : r.logu(1e-4, 3e-2); Spec s = bigspec(r, N, d3, noise, init, r.p(0.3)); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); auto B = build<GS>(s, ops); c.note = fmt("%s %d nodes %d factors noise %.3g init %.3g", d3 ? "3-D" : "2-D", (int)s.n.size(), (int)s.f.size(), noise, init);
    for (int t = r.i(1, 2); t > 0; --t) { auto x = states(B); if (!finite(x, 1e5L) || margin(s, x) < 1e-3L) { c.seen("near-singular-point"); return; } bool gn = r.p(0.7); double lam = r.logu(1e-6, 1e2); if (gn) B.g->solve(GS::GN); else B.g->solve(GS::LM, 1, lam, 1e-9); auto z = states(B); if (!finite(z, 1e5L)) { c.seen("diverged"); return; } if (!gn) { bool moved = false; for (size_t i = 0; i < x.size(); ++i) moved |= nodeerr(s.n[i].k, z[i], x[i]) > 1e-12L; if (!moved) { c.seen("lm-step-rejected"); return; } } bigjudge(c, s, B, x, z, gn ? 0 : lam, "big"); if (c.nviol) return; }
}
SCENARIO(assembly_2d, 3) { run(c, 0, false); }
SCENARIO(assembly_3d, 3) { run(c, 1, false); }
SCENARIO(assembly_mixed, 2) { run(c, 2, false); }
SCENARIO(assembly_ransac, 1) { run(c, -1, true); }
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
