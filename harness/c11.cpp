// C11: metamorphic monitors: insertion order and choice of the global frame.
#include "graphgen.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS;
static double worst(const Spec &s, const std::vector<MX> &x) { double m = 1; for (auto &q : x) m = std::max(m, (double)q.cwiseAbs().maxCoeff()); for (auto &f : s.f) m = std::max(m, (double)f.z.cwiseAbs().maxCoeff()); return m; }
static double wmax(const Spec &s) { double w = 0; for (auto &f : s.f) w = std::max(w, (double)f.W.cwiseAbs().maxCoeff()); return w; }
static bool judgeable(const Spec &s, const Built<GS> &B, Step &st, Sys &y, bool far = false) { auto x = states(B); if (!finite(x, far ? 1e5L : 1e4L) || margin(s, x) < 2e-3L) return false; y = assemble(s, x, B.norder, B.forder); st = solve(y.H, y.b); return far || (st.cond < 1e6L && st.dx.cwiseAbs().maxCoeff() < 10); }
static Spec problem(Case &c, int mode) { Rng &r = c.r; Opt o; o.mode = mode; o.noise = r.p(0.2) ? 0 : r.logu(1e-4, 0.2); o.init = r.p(0.1) ? 0 : r.logu(1e-4, 0.2); o.kernels = r.p(0.4); o.anchors = 0.3; o.spread(r, c.thorough, 0.002); o.wscale = 1; return gen(r, o); }
static void order(Case &c, int mode) {
    Rng &r = c.r; Spec s = problem(c, mode); auto o1 = creation(s, r, 0), o2 = creation(s, r, r.i(1, 3)); gg::mark(c, s); c.mark(o2.data(), o2.size() * sizeof(int)); c.note = desc(s); auto A = build<GS>(s, o1), B = build<GS>(s, o2); double amp = 1;
    for (int t = 0, n = r.i(1, 4); t < n; ++t) {
        Step st; Sys y; if (!judgeable(s, A, st, y)) { c.seen("not-judged"); return; } double sx = worst(s, states(A)), w = wmax(s); amp = std::min(1e6, amp * (1 + (double)st.cond)); double eps = 1e-14 * amp * sx;
        double ca = A.g->chi2(), cb = B.g->chi2(); c.near(ca, cb, 1e-12 * ca + w * s.f.size() * (eps * eps + eps * std::sqrt(2 * ca / w)) * 100, "order-changes-chi2"); auto fa = A.g->get_chi2_array(), fb = B.g->get_chi2_array(); for (size_t j = 0; j < s.f.size(); ++j) c.near(fa(A.fid[j]), fb(B.fid[j]), 1e-12 * fa(A.fid[j]) + w * 100 * (eps * eps + eps * std::sqrt(2 * fa(A.fid[j]) / w)) * (1 + sx), "order-changes-factor-chi2");
        bool lm = r.p(0.3); double lam = r.logu(1e-6, 1e-1); if (lm) { A.g->solve(GS::LM, 1, lam, 1e-300); B.g->solve(GS::LM, 1, lam, 1e-300); } else { A.g->solve(GS::GN); B.g->solve(GS::GN); }
        Eigen::MatrixXd IA(mrob::SMatCol(A.g->get_information_matrix())), IB(mrob::SMatCol(B.g->get_information_matrix())); std::vector<int> ca_(s.n.size(), -1), cb_(s.n.size(), -1); int q = 0; for (int i : A.norder) if (!s.n[i].anchor) { ca_[i] = q; q += ndim(s.n[i].k); } q = 0; for (int i : B.norder) if (!s.n[i].anchor) { cb_[i] = q; q += ndim(s.n[i].k); }
        c.ok(IA.rows() == q && IB.rows() == q, "size"); if (c.nviol) return; double il = IA.cwiseAbs().maxCoeff();
        for (size_t i = 0; i < s.n.size(); ++i) for (size_t j = 0; j < s.n.size(); ++j) if (ca_[i] >= 0 && ca_[j] >= 0) { int di = ndim(s.n[i].k), dj = ndim(s.n[j].k); c.near(IA.block(ca_[i], ca_[j], di, dj), IB.block(cb_[i], cb_[j], di, dj), il * (1e-12 + 100 * eps / (double)margin(s, states(A)) * 1e-2 + 100 * eps), "order-changes-information-matrix"); }
        auto xa = states(A), xb = states(B); if (lm && std::fabs(A.g->chi2() - ca) < 1e-7 * ca + 1e-9) { c.seen("lm-ambiguous"); return; }
        for (size_t i = 0; i < s.n.size(); ++i) c.bound((double)nodeerr(s.n[i].k, xa[i], xb[i]), 1e-10 * sx + eps * (1 + (double)st.cond) * 10 + (s.n[i].k == P3 ? logtol(gapof(xa[i])) * sx * amp : 0), "order-changes-estimate:" + std::string(NKN[s.n[i].k]), [&] { return fmt("node %d ", (int)i) + ms(dm(xa[i])) + " vs " + ms(dm(xb[i])); });
        c.seen("compared-steps");
    }
}
SCENARIO(order_2d, 3) { order(c, 0); }
SCENARIO(order_3d, 3) { order(c, 1); }
SCENARIO(order_mixed, 2) { order(c, 2); }

// rigid motion of the whole problem
static MX move(NK k, const M4 &T, const MX &x) {
    switch (k) {
        case P2: { L a = std::atan2(T(1, 0), T(0, 0)); VX y(3); y << T(0, 0) * x(0) + T(0, 1) * x(1) + T(0, 3), T(1, 0) * x(0) + T(1, 1) * x(1) + T(1, 3), wrap(x(2) + a); return y; }
        case L2: { VX y(2); y << T(0, 0) * x(0) + T(0, 1) * x(1) + T(0, 3), T(1, 0) * x(0) + T(1, 1) * x(1) + T(1, 3); return y; }
        case P3: return T * m4(x); case L3: return act(T, V3(x)); default: { V4 p = inv(T).transpose() * V4(x); return p; }
    }
}
static void frame(Case &c, int mode) {
    Rng &r = c.r; Spec s = problem(c, mode); for (auto &f : s.f) if (f.k == FPPL) f.robust = 0; Spec m = s; M4 T;
    if (mode == 0) { L a = r.p(0.2) ? PI * r.i(-2, 2) / 2 : r.u(-3.1, 3.1); V3 w(0, 0, a), t(r.u(-20, 20), r.u(-20, 20), 0); T = mk(exp3(w), t); } else T = lm(pose(r, 3.1, r.p(0.5) ? 5 : 20));
    // now and then a frame kilometres away (map coordinates): the two runs still differ by rounding only, the lever arm amplifies it
    bool far = mode == 0 && r.p(0.2); if (far) { L D = r.logu(800, 6000), q = r.u(-3.1, 3.1); T(0, 3) = D * std::cos(q); T(1, 3) = D * std::sin(q); }
    for (auto &n : m.n) { n.x = dbl(move(n.k, T, n.x)); if (n.k == PL && n.x(3) < 0) c.skip(); } L ang = std::atan2(T(1, 0), T(0, 0));
    // absolute observations move with the frame; their information is expressed in the frame: [x y th] rotates, a 3-D prior needs Adj
    for (auto &f : m.f) { if (f.k == F1P2) { f.z = dbl(move(P2, T, f.z)); M3 R = M3::Identity(); R.topLeftCorner<2, 2>() = rot(T).topLeftCorner<2, 2>(); f.W = R * f.W * R.transpose(); f.W = dbl(MX((f.W + f.W.transpose()) / 2)); } if (f.k == F1P3) { f.z = dbl(T * m4(f.z)); M6 Ai = adj(inv(T)); f.W = Ai.transpose() * f.W * Ai; f.W = dbl(MX((f.W + f.W.transpose()) / 2)); }
        // odometry residual lives in the global frame
        if (f.k == FODO) { M3 R = M3::Identity(); R.topLeftCorner<2, 2>() = rot(T).topLeftCorner<2, 2>(); f.W = R * f.W * R.transpose(); f.W = dbl(MX((f.W + f.W.transpose()) / 2)); }
        if (f.k == F2P3) { M6 Ai = adj(inv(T)); f.W = Ai.transpose() * f.W * Ai; f.W = dbl(MX((f.W + f.W.transpose()) / 2)); } }
    (void)ang; auto ops = creation(s, r); gg::mark(c, s); c.mark(dm(T)); c.note = desc(s) + " moved by " + ms(dm(T)); auto A = build<GS>(s, ops), B = build<GS>(m, ops); double amp = 1;
    bool planes = false; for (auto &n : s.n) planes |= n.k == PL && !n.anchor;
    for (int t = 0, n = r.i(1, 4); t < n; ++t) {
        Step st, st2; Sys y, y2; if (!judgeable(s, A, st, y) || !judgeable(m, B, st2, y2, far) || (far && st.cond > 1e4L)) { c.seen("not-judged"); return; } double sx = worst(s, states(A)) + worst(m, states(B)), w = std::max(wmax(s), wmax(m)); amp = std::min(1e7, amp * (1 + (double)(far ? st.cond : std::max(st.cond, st2.cond)))); double eps = 1e-14 * amp * sx * 4;
        double ca = A.g->chi2(), cb = B.g->chi2(); c.near(ca, cb, 1e-11 * ca + w * s.f.size() * 100 * (eps * eps + eps * std::sqrt(2 * ca / w)), "frame-changes-chi2"); c.seen("compared-chi2"); if (planes && t == 0) return; // the additive plane update depends on the frame by design
        A.g->solve(GS::GN); B.g->solve(GS::GN); auto xa = states(A), xb = states(B); for (size_t i = 0; i < s.n.size(); ++i) { MX want = move(s.n[i].k, T, xa[i]); c.bound((double)nodeerr(s.n[i].k, want, xb[i]), 1e-10 * sx + eps * (1 + (double)st.cond) * 100 + (s.n[i].k == P3 ? (logtol(gapof(xa[i])) + logtol(gapof(xb[i]))) * sx * amp : 0), "frame-changes-estimate:" + std::string(NKN[s.n[i].k]), [&] { return fmt("node %d ", (int)i) + ms(dm(want)) + " vs " + ms(dm(xb[i])); }); }
        c.seen("compared-steps");
    }
}
SCENARIO(frame_2d, 3) { frame(c, 0); }
SCENARIO(frame_3d, 3) { frame(c, 1); }
// a scene of poses and mapped landmarks, kilometres from the origin: the step at each pose is the same rigid motion; the lever arm multiplies rounding, nothing else
SCENARIO(frame_far, 2) {
    Rng &r = c.r; Spec s; int np = r.i(1, 3), nl = r.i(4, 8); double size = r.logu(1, 20), noise = r.p(0.3) ? 0 : r.logu(1e-4, 0.05), init = r.logu(1e-3, 0.15);
    for (int i = 0; i < np; ++i) { NodeS n; n.k = P3; n.truth = lm(pose(r, 3.1, size)); n.x = dbl(retract(P3, n.truth, gauss(r, 6, init))); s.n.push_back(n); }
    for (int i = 0; i < nl; ++i) { NodeS n; n.k = L3; n.truth = lm(tvec(r, size)); n.anchor = i < 3 || r.p(0.4); n.x = n.anchor ? n.truth : dbl(retract(L3, n.truth, gauss(r, 3, init))); s.n.push_back(n); }
    for (int i = 0; i < np; ++i) for (int j = 0; j < nl; ++j) if (j < 3 || r.p(0.8)) { FacS f; f.k = FPL3; f.a = i; f.b = np + j; f.W = spd(r, 3, 0.5); f.robust = r.p(0.2) ? r.i(1, 3) : 0; f.ctor = r.i(0, 1); f.z = noisy(r, f, perfect(f, s.n[i].truth, s.n[np + j].truth), noise); s.f.push_back(f); }
    Spec m = s; double D = r.logu(200, 6000); M4 T = lm(pose(r, 3.1, 1)); V3 u = lv(unit3(r)); T.topRightCorner<3, 1>() = u * (L)D; for (auto &n : m.n) n.x = dbl(move(n.k, T, n.x));
    auto ops = creation(s, r); gg::mark(c, s); c.mark(dm(T)); c.note = desc(s) + " moved by " + ms(dm(T)); auto A = build<GS>(s, ops), B = build<GS>(m, ops); double amp = 1;
    for (int t = 0, n = r.i(1, 3); t < n; ++t) {
        Step st, st2; Sys y, y2; if (!judgeable(s, A, st, y) || !judgeable(m, B, st2, y2, true) || st.cond > 1e4L) { c.seen("not-judged"); return; } double w = wmax(s); amp = std::min(1e7, amp * (1 + (double)st.cond)); double eps = 1e-16 * amp * D * (D + size);
        double ca = A.g->chi2(), cb = B.g->chi2(); c.near(ca, cb, 1e-11 * ca + w * s.f.size() * 100 * (eps * eps + eps * std::sqrt(2 * ca / w)), "far-frame-changes-chi2");
        A.g->solve(GS::GN); B.g->solve(GS::GN); auto xa = states(A), xb = states(B); for (size_t i = 0; i < s.n.size(); ++i) { MX want = move(s.n[i].k, T, xa[i]); double e = (double)nodeerr(s.n[i].k, want, xb[i]); c.bound(e, 10 * eps + (s.n[i].k == P3 ? (logtol(gapof(xa[i])) + logtol(gapof(xb[i]))) * D : 0), "far-frame-changes-estimate:" + std::string(NKN[s.n[i].k]), [&] { return fmt("node %d ", (int)i) + ms(dm(want)) + " vs " + ms(dm(xb[i])); }); }
        c.seen("far-compared-steps");
    }
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
