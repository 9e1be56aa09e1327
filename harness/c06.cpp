// C06: Jacobians of every factor against central differences (long double) of the reference residual
// in the perturbation that the library applies to each connected node.
#include "graphgen.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
using namespace gg; using namespace mon;
static NK kindA(FK k) { return k <= FPL2 ? P2 : P3; }
static NK kindB(FK k) { return k == FPL2 ? L2 : k == FPL3 ? L3 : k == FPPL ? PL : kindA(k); }
static NodeS rnode(Rng &r, NK k, double size) {
    NodeS n; n.k = k;
    switch (k) {
        case P2: { VX x(3); x << r.u(-1, 1) * size, r.u(-1, 1) * size, (r.p(0.2) ? r.u(-20, 20) : r.p(0.2) ? (double)PI * r.i(-4, 4) / 2 : r.u(-3.1416, 3.1416)); n.x = dbl(x); break; }
        case L2: { VX x(2); x << r.u(-1, 1) * size, r.u(-1, 1) * size; n.x = dbl(x); break; }
        case P3: n.x = lm(pose(r, M_PI, size)); break; case L3: n.x = lm(tvec(r, size)); break;
        case PL: { V4 p; p << lv(unit3(r)), r.u(-2, 2) * size; n.x = dbl(p); V3 q = n.x.topRows(3); n.x.topRows(3) = q / q.norm(); n.x = dbl(n.x); break; }
    }
    return n;
}
static MX robs(Rng &r, FK k, double size) {
    switch (k) { case F1P3: case F2P3: return lm(pose(r, M_PI, size)); case FPPL: { V4 p; p << lv(unit3(r)), r.u(0, 2) * size; return dbl(p); }
        case FPL3: return lm(tvec(r, size)); case FPL2: { VX z(2); z << r.u(0, 2) * size, r.u(-3.2, 3.2); return dbl(z); }
        default: { VX z(3); z << (k == FODO ? r.u(-3.2, 3.2) : r.u(-1, 1) * size), r.u(-1, 1) * size, r.p(0.2) ? r.u(-20, 20) : r.u(-3.2, 3.2); return dbl(z); } }
}
static void one(Case &c, FacS &f, FP F, const MX &a, const MX &b, bool rev, double size) {
    FK k = f.k; std::string nm = FKN[k] + std::string(rev ? ":target-first" : "");
    F->evaluate_residuals(); F->evaluate_jacobians(); Eigen::MatrixXd J = F->get_jacobian(); MX Ja = numjac(f, a, b, kindA(k), kindB(k), 0), Jb; int m = fdim(k), na = ndim(kindA(k)), nb = 0;
    if (!unary(k)) { Jb = numjac(f, a, b, kindA(k), kindB(k), 1); nb = ndim(kindB(k)); }
    Eigen::MatrixXd E(m, na + nb); if (unary(k)) E = dm(Ja); else if (rev) E << dm(Jb), dm(Ja); else E << dm(Ja), dm(Jb);
    c.ok((int)F->get_all_nodes_dim() == na + nb, "state-dimension:" + nm, fmt("%d", (int)F->get_all_nodes_dim()));
    double sc = 1 + size * 3 + (double)f.z.cwiseAbs().maxCoeff(); if (k == FPL2) sc += 1 / (double)std::hypot(b(0) - a(0), b(1) - a(1)); // scale of the entries
    c.near(J, E, 1e-10 * sc, "jacobian:" + nm); c.seen(nm);
}
static bool singular(const FacS &f, const MX &a, const MX &b) {
    if (f.k == FPL2) return std::hypot(b(0) - a(0), b(1) - a(1)) < 0.01; if (f.k == FPPL) { V4 p = m4(a).transpose() * V4(b); return std::fabs(p(3)) < 1e-3; } return false;
}
static void run(Case &c, FK k) {
    Rng &r = c.r; double size = r.p(0.7) ? 5 : r.logu(1e-2, r.p(0.25) ? 1e6 : 1e3); NodeS A = rnode(r, kindA(k), size), B = rnode(r, kindB(k), size); FacS f; f.k = k; f.a = 0; f.b = unary(k) ? -1 : 1; f.W = spd(r, fdim(k), 3); f.robust = r.i(0, 4); f.ctor = r.i(0, 1); f.z = robs(r, k, size);
    static const MX none; if (r.p(0.3)) { f.z = perfect(f, A.x, unary(k) ? none : B.x); if (k == FPPL && f.z(3) < 0) f.z = -f.z; f.z = dbl(f.z); }
    bool rev = !unary(k) && r.p(0.5); Spec s; s.n = {A, B}; s.f = {f}; gg::mark(c, s); c.mark(rev); c.note = std::string(FKN[k]) + (rev ? " target-first" : "") + " a=" + ms(dm(A.x)) + " b=" + ms(dm(B.x)) + " z=" + ms(dm(f.z));
    mrob::FGraphSolve g; NP a = mknode(A), b = unary(k) ? NP() : mknode(B); if (rev) { g.add_node(b); g.add_node(a); } else { if (r.p(0.3)) { NP j = mknode(rnode(r, P3, 1)); g.add_node(j); } g.add_node(a); if (b) g.add_node(b); }
    FP F = mkfac(f, a, b); if (r.p(0.5)) g.add_factor(F); MX xa = lm(a->get_state()), xb = b ? lm(b->get_state()) : none; if (b && singular(f, xa, xb)) c.skip();
    one(c, f, F, xa, xb, rev, size);
    for (int t = r.i(0, 2); t > 0; --t) { // move the nodes, by assignment or update, and linearise again
        NodeS A2 = rnode(r, kindA(k), size); if (r.p(0.5)) a->set_state(dm(A2.x)); else { VX d = gauss(r, ndim(kindA(k)), 0.3); mrob::MatX1 dx = dm(MX(d)); a->update(dx); }
        if (b && r.p(0.5)) { VX d = gauss(r, ndim(kindB(k)), 0.3); mrob::MatX1 dx = dm(MX(d)); b->update(dx); }
        xa = lm(a->get_state()); if (b) xb = lm(b->get_state()); if (b && singular(f, xa, xb)) return; one(c, f, F, xa, xb, rev, size + 1); c.seen("relinearised"); }
}
#define FACTOR(n, k) SCENARIO(jacobian_##n, 3) { run(c, k); }
FACTOR(pose2d, F1P2) FACTOR(poses2d, F2P2) FACTOR(odom2d, FODO) FACTOR(landmark2d, FPL2) FACTOR(pose3d, F1P3) FACTOR(poses3d, F2P3) FACTOR(landmark3d, FPL3) FACTOR(plane4d, FPPL)
SCENARIO(jacobian_point_to_plane, 3) {
    Rng &r = c.r; double size = r.p(0.7) ? 5 : r.logu(1e-2, 1e3); DM4 T = pose(r, M_PI, size); D3 x = tvec(r, size), y = tvec(r, size), n = unit3(r); c.mark(mrob::Mat4(T)); c.mark(x); c.mark(y); c.note = "T=" + ms(T) + " x=" + ms(x) + " y=" + ms(y) + " n=" + ms(n);
    NP nd = std::make_shared<mrob::NodePose3d>(mrob::SE3(mrob::Mat4(T))); mrob::FGraphSolve g; g.add_node(nd); FP f = std::make_shared<mrob::Factor1PosePoint2Plane>(x, y, n, nd, mrob::Mat1(2.0)); g.add_factor(f); f->evaluate_residuals(); f->evaluate_jacobians();
    auto e = [&](const V6 &d) -> L { return V3(lv(n)).dot(act(M4(exp6(d) * M4(lm(T))), V3(lv(x))) - V3(lv(y))); }; Eigen::MatrixXd J(1, 6); for (int j = 0; j < 6; ++j) { V6 d = V6::Zero(); d(j) = 2e-6L; J(0, j) = (double)((e(d) - e(-d)) / 4e-6L); }
    c.near(Eigen::MatrixXd(f->get_jacobian()), J, 1e-9 * (1 + 4 * size), "jacobian:PosePoint2Plane");
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
