// C05: residuals, chi2 and initialisation of every factor against the documented models.
#include "graphgen.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
using namespace gg; using namespace mon;

// two nodes of the right kinds with arbitrary states, created in either order, plus unrelated nodes
struct Pair { std::shared_ptr<mrob::FGraphSolve> g; NP a, b; bool rev; };
static NodeS rnode(Rng &r, NK k, double size) {
    NodeS n; n.k = k;
    switch (k) {
        case P2: { VX x(3); x << r.u(-1, 1) * size, r.u(-1, 1) * size, (r.p(0.2) ? r.u(-20, 20) : r.p(0.2) ? (double)PI * r.i(-2, 2) + r.sgn() * r.logu(1e-12, 1e-2) : r.u(-3.1416, 3.1416)); n.x = dbl(x); break; }
        case L2: { VX x(2); x << r.u(-1, 1) * size, r.u(-1, 1) * size; n.x = dbl(x); break; }
        case P3: n.x = lm(pose(r, M_PI, size)); break; case L3: n.x = lm(tvec(r, size)); break;
        case PL: { V4 p; p << lv(unit3(r)), r.u(-2, 2) * size; n.x = dbl(p); V3 q = n.x.topRows(3); n.x.topRows(3) = q / q.norm(); n.x = dbl(n.x); break; }
    }
    return n;
}
static NK kindA(FK k) { return k <= FPL2 ? P2 : P3; }
static NK kindB(FK k) { return k == FPL2 ? L2 : k == FPL3 ? L3 : k == FPPL ? PL : kindA(k); }
static MX robs(Rng &r, FK k, double size) {
    switch (k) { case F1P3: case F2P3: return lm(pose(r, M_PI, size)); case FPPL: { V4 p; p << lv(unit3(r)) * (r.p(0.3) ? r.logu(0.1, 10) : 1.0), r.u(0, 2) * size * (r.p(0.3) ? -1 : 1); return dbl(p); }
        case FPL3: return lm(tvec(r, size)); case FPL2: { VX z(2); z << r.u(0, 2) * size, r.p(0.2) ? r.u(-20, 20) : r.u(-3.2, 3.2); return dbl(z); }
        case FODO: { VX z(3); z << r.u(-3.2, 3.2), r.u(-1, 1) * size, r.u(-3.2, 3.2); return dbl(z); } default: { VX z(3); z << r.u(-1, 1) * size, r.u(-1, 1) * size, r.p(0.2) ? r.u(-20, 20) : r.u(-3.2, 3.2); return dbl(z); } }
}
static void run(Case &c, FK k, int mode) { // 0 arbitrary, 1 consistent with the observation, 2 almost consistent
    const bool consistent = mode == 1;
    Rng &r = c.r; double size = r.p(0.7) ? 5 : r.logu(1e-3, r.p(0.25) ? 1e6 : 1e3); NodeS A = rnode(r, kindA(k), size), B = rnode(r, kindB(k), size); Spec s; s.n = {A, B};
    FacS f; f.k = k; f.a = 0; f.b = unary(k) ? -1 : 1; f.W = spd(r, fdim(k), 3); f.robust = r.i(0, 4); f.ctor = r.i(0, 1); f.z = robs(r, k, size); static const MX none;
    if (consistent) { f.z = perfect(f, A.x, unary(k) ? none : B.x); if (k == FPPL && r.p(0.7) && f.z(3) < 0) f.z = -f.z; /* both signs describe the plane */ f.z = dbl(f.z); if (r.p(0.2) && (k == F1P2 || k == F2P2)) f.z(2) += 2 * PI * r.i(-3, 3), f.z = dbl(f.z); }
    if (mode == 2) { f.z = perfect(f, A.x, unary(k) ? none : B.x); double e = r.logu(1e-12, 1e-1); if (f.z.cols() > 1) { D6 d; for (int i = 0; i < 6; ++i) d(i) = r.sgn() * e * r.u(0, 1); f.z = dbl(MX(exp6(V6(lv(d))) * m4(f.z))); } else { for (int i = 0; i < f.z.size(); ++i) f.z(i) += r.sgn() * e * r.u(0, 1); f.z = dbl(f.z); } c.seen("almost-consistent"); }
    if (r.p(0.2)) f.W = dbl(MX(f.W * (L)r.logu(1e-8, 1e8)));
    s.f = {f}; if (k == FPPL) { V4 p = m4(A.x).transpose() * V4(B.x); if (std::fabs(p(3)) < 1e-9) c.skip(); }
    if (k == FPL2 && std::hypot(B.x(0) - A.x(0), B.x(1) - A.x(1)) < 2e-3) c.skip();
    gg::mark(c, s); bool rev = !unary(k) && r.p(0.5); c.note = std::string(FKN[k]) + (rev ? " target-first" : "") + " a=" + ms(dm(A.x)) + " b=" + ms(dm(B.x)) + " z=" + ms(dm(f.z)); c.mark(rev);
    mrob::FGraphSolve g; NP a = mknode(A), b = unary(k) ? NP() : mknode(B), junk = mknode(rnode(r, P2, 1)); A.x = lm(a->get_state()); if (b) { c.near(state(b), dm(B.x), 3e-15 * (1 + size), "node-constructor-state"); B.x = lm(b->get_state()); } int pre = r.i(0, 2);
    if (pre) g.add_node(junk);
    if (rev) { g.add_node(b); if (pre == 2) { NP j2 = mknode(rnode(r, L3, 1)); g.add_node(j2); } g.add_node(a); } else { g.add_node(a); if (b) g.add_node(b); }
    FP F = mkfac(f, a, b, false); if (r.p(0.7)) g.add_factor(F);
    c.same(state(a), dm(A.x), "factor-construction-changes-state"); if (b) c.same(state(b), dm(B.x), "factor-construction-changes-state");
    F->evaluate_residuals(); F->evaluate_chi2(); mrob::MatX1 got = F->get_residual(); Res e = element(f, A.x, b ? B.x : none); std::string nm = FKN[k] + std::string(rev ? ":target-first" : "");
    double sc = 1 + size * 4 + (double)f.z.cwiseAbs().maxCoeff(); double tol = 5e-14 * sc;
    double ang = 0; for (MX *x : {&A.x, &B.x, &f.z}) if ((x == &A.x && kindA(k) == P2) || (x == &B.x && !unary(k) && kindB(k) == P2) || (x == &f.z && k <= FPL2)) ang = std::max(ang, (double)x->cwiseAbs().maxCoeff());
    if (k == FPL2) tol += 1e-15 * sc / (double)std::hypot(B.x(0) - A.x(0), B.x(1) - A.x(1));
    c.ok(got.size() == fdim(k) && (int)F->get_dim() == fdim(k), "residual-size:" + nm);
    VX ex = e.v; double gap = 4;
    if (e.grp) { gap = (double)(PI - ex.head(3).norm()); double tl = (double)tra(e.T).norm(); double tw = logtol(gap) ; tol = 2e-14 * sc + tw * (1 + 4 * tl) + 1e-11 * tl;
        if (gap < 1e-6) { // axis sign ambiguous: compare the transforms
            M4 back = exp6(V6(lv(got))); c.near(dm(back), dm(e.T), 1e-5 * (1 + tl), "residual-half-turn:" + nm); F->evaluate_chi2(); c.near(F->get_chi2(), (double)chi2ref(f, lv(got)), 1e-11 * (1 + std::fabs(F->get_chi2())), "chi2:" + nm); return; } }
    for (int i = 0; i < ex.size(); ++i) {
        double d = std::fabs((double)(got(i) - ex(i)));
        if (angular(k, i)) { c.ok(got(i) >= -M_PI && got(i) < M_PI, "residual-angle-range:" + nm, fmt("%.17g", got(i))); d = std::fabs((double)wrap((L)got(i) - ex(i))); }
        c.bound(d, tol, "residual:" + nm, [&] { return "got " + ms(got) + " expected " + ms(dm(ex)); }); }
    if (consistent) { double t0 = tol + (e.grp ? 3e-7 * (gap > 3 ? 0 : 1) : 0); for (int i = 0; i < got.size(); ++i) c.bound(std::fabs(got(i)), std::max(t0, 1e-13 * sc) * 4 + (angular(k, i) ? 4e-15 * (1 + ang) : 0), "residual-zero-when-consistent:" + nm, [&] { return ms(got); }); c.seen("consistent"); }
    double ch = (double)chi2ref(f, lv(got)); c.near(F->get_chi2(), ch, 1e-13 * (1e-300 + (double)f.W.cwiseAbs().maxCoeff() * std::pow(got.norm(), 2) * 6), "chi2:" + nm);
    c.ok(F->get_chi2() >= 0, "chi2-nonnegative:" + nm); c.near(F->get_information_matrix(), dm(f.W), 1e-300, "information:" + nm);
    c.ok((int)F->get_neighbour_nodes()->size() == (unary(k) ? 1 : 2), "neighbours:" + nm); if (!unary(k)) c.ok(F->get_neighbour_nodes()->at(0) == (rev ? b : a) && F->get_neighbour_nodes()->at(1) == (rev ? a : b), "neighbour-order:" + nm);
    c.same(state(a), dm(A.x), "evaluation-changes-state"); if (b) c.same(state(b), dm(B.x), "evaluation-changes-state");
    // through the graph, after moving a node
    if (b && g.number_factors()) { NodeS B2 = rnode(r, kindB(k), size); if (k == P2) B2.x(2) = wrap(B2.x(2)); b->set_state(dm(B2.x)); MX nx = lm(b->get_state());
        if (k == FPL2 && std::hypot(nx(0) - A.x(0), nx(1) - A.x(1)) < 2e-3) return; if (k == FPPL) { V4 p = m4(A.x).transpose() * V4(nx); if (std::fabs(p(3)) < 1e-9) return; }
        Res e2 = element(f, A.x, nx); if (e2.grp && PI - e2.v.head(3).norm() < 1e-2) return; double want = (double)chi2ref(f, e2.v), m = std::pow((double)e2.v.norm(), 2) * (double)f.W.cwiseAbs().maxCoeff();
        for (int i = 0; i < e2.v.size(); ++i) if (angular(k, i) && PI - std::fabs(e2.v(i)) < 1e-6) return;
        c.near(g.chi2(true), want, 1e-9 * (m + (double)f.W.cwiseAbs().maxCoeff() * 1e-6 * (e2.v.norm() * sc)) + 1e-300 + 1e-13 * sc * sc * (double)f.W.cwiseAbs().maxCoeff(), "graph-chi2:" + nm); c.seen("moved"); }
    c.seen(nm);
}
#define FACTOR(n, k) SCENARIO(residual_##n, 3) { run(c, k, 0); } SCENARIO(consistent_##n, 1) { run(c, k, 1); } SCENARIO(almost_##n, 1) { run(c, k, 2); }
FACTOR(pose2d, F1P2) FACTOR(poses2d, F2P2) FACTOR(odom2d, FODO) FACTOR(landmark2d, FPL2) FACTOR(pose3d, F1P3) FACTOR(poses3d, F2P3) FACTOR(landmark3d, FPL3) FACTOR(plane4d, FPPL)

SCENARIO(point_to_plane, 2) {
    Rng &r = c.r; DM4 T = pose(r, M_PI, 5); D3 x = tvec(r, 5), y = tvec(r, 5), n = unit3(r); double w = r.logu(1e-3, 1e3); if (r.p(0.4)) { D3 tx = T.topLeftCorner(3, 3) * x + T.topRightCorner(3, 1), t = tvec(r, 5); y = tx + (t - n * n.dot(t)) + n * r.sgn() * r.logu(1e-10, 1e-1); c.seen("near-plane"); } c.mark(mrob::Mat4(T)); c.mark(x); c.mark(y); c.note = "T=" + ms(T) + " x=" + ms(x) + " y=" + ms(y) + " n=" + ms(n);
    NP nd = std::make_shared<mrob::NodePose3d>(mrob::SE3(mrob::Mat4(T))); mrob::FGraphSolve g; g.add_node(nd); FP f = std::make_shared<mrob::Factor1PosePoint2Plane>(x, y, n, nd, mrob::Mat1(w), (mrob::Factor::robustFactorType)r.i(0, 3)); g.add_factor(f);
    L e = V3(lv(n)).dot(act(M4(lm(T)), V3(lv(x))) - V3(lv(y))); f->evaluate_residuals(); f->evaluate_chi2(); c.ok(f->get_residual().size() == 1, "residual-size:PosePoint2Plane"); c.near(f->get_residual()(0), (double)e, 1e-13, "residual:PosePoint2Plane");
    c.near(f->get_chi2(), (double)(0.5L * w * e * e), 1e-12 * w * (1 + (double)std::fabs(e)), "chi2:PosePoint2Plane"); c.near(g.chi2(), f->get_chi2(), 1e-300, "graph-chi2:PosePoint2Plane");
}
static void init(Case &c, FK k) { // factors asked to initialise their target / landmark
    Rng &r = c.r; double size = 5; NodeS A = rnode(r, kindA(k), size), B = rnode(r, kindB(k), size); FacS f; f.k = k; f.a = 0; f.b = 1; f.W = spd(r, fdim(k), 2); f.ctor = r.i(0, 1); f.z = robs(r, k, size); if (k == FPL2 && f.z(0) < 0.01) c.skip(); if (k == FODO && std::fabs(f.z(1)) < 0) c.skip();
    Spec s; s.n = {A, B}; s.f = {f}; gg::mark(c, s); bool rev = r.p(0.5); c.mark(rev); c.note = std::string(FKN[k]) + (rev ? " target-first" : "") + " a=" + ms(dm(A.x)) + " b=" + ms(dm(B.x)) + " z=" + ms(dm(f.z));
    mrob::FGraphSolve g; NP a = mknode(A), b = mknode(B); A.x = lm(a->get_state()); B.x = lm(b->get_state()); if (rev) { g.add_node(b); g.add_node(a); } else { g.add_node(a); g.add_node(b); }
    FP F = mkfac(f, a, b, true); g.add_factor(F); std::string nm = FKN[k] + std::string(rev ? ":target-first" : "");
    c.same(state(a), dm(A.x), "initialisation-moves-origin:" + nm); F->evaluate_residuals(); mrob::MatX1 got = F->get_residual(); double tol = k == FPL2 ? 1e-13 / (double)f.z(0) + 1e-13 : k == F2P3 ? 3e-7 : 1e-12;
    c.bound(got.norm(), tol, "initialisation-residual:" + nm, [&] { return "residual " + ms(got) + " state " + ms(state(b)); });
    if (k == F2P3) { c.near(state(b), dm(M4(m4(A.x) * m4(f.z))), 1e-13, "initialisation-value:" + nm); }
    if (kindB(k) == P2) c.ok(state(b)(2) >= -M_PI && state(b)(2) < M_PI, "initialisation-angle:" + nm);
    // and without the flag nothing moves
    NP b2 = mknode(B); g.add_node(b2); FP F2 = mkfac(f, a, b2, false); c.same(state(b2), dm(B.x), "no-initialisation:" + nm); c.seen("initialised");
}
SCENARIO(init_poses2d, 1) { init(c, F2P2); } SCENARIO(init_odom, 1) { init(c, FODO); } SCENARIO(init_landmark2d, 1) { init(c, FPL2); } SCENARIO(init_poses3d, 1) { init(c, F2P3); } SCENARIO(init_landmark3d, 1) { init(c, FPL3); }
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
