// C12: histories of updates, assignments, book-keeping and restores on single nodes, replayed one step
// ahead by a long-double reference from the node's own previous state.
#include "graphgen.hpp"
using namespace gg; using namespace mon;
static double mag(Rng &r) { switch (r.i(0, 5)) { case 0: return 0; case 1: return r.logu(1e-12, 1e-3); case 2: return r.u(0, 1); case 3: return r.u(0, 10); case 4: return r.logu(1, 1e4); default: return r.logu(1e-12, 1e12); } }
static NodeS start(Rng &r, NK k) {
    NodeS n; n.k = k; n.anchor = r.p(0.2);
    switch (k) { case P2: { VX x(3); x << tvec(r)(0), tvec(r)(1), r.p(0.3) ? mag(r) * r.sgn() : r.u(-3.14159, 3.14159); n.x = dbl(x); break; } case L2: n.x = lm(D2(tvec(r).head<2>())); break; case P3: n.x = lm(pose(r, M_PI, 0)); break; case L3: n.x = lm(tvec(r)); break; default: { V4 p; p << lv(unit3(r)) * r.logu(0.1, 10), tvec(r)(0); n.x = dbl(p); } } return n;
}
static MX assign(Rng &r, NK k) { NodeS n = start(r, k); if (k == PL) { V3 q = n.x.topRows(3); n.x.topRows(3) = q / q.norm(); n.x = dbl(n.x); } return n.x; }
static D3 dir(Rng &r) { return unit3(r); }
static VX increment(Rng &r, NK k) {
    int n = ndim(k); VX d(n); double m = mag(r); for (int i = 0; i < n; ++i) d(i) = m * r.u(-1, 1) * (r.p(0.1) ? 0 : 1);
    if (k == P3) { double w = r.p(0.8) ? angle(r) : mag(r); if (w > 1e4) w = 1e4; d.head(3) = lv(dir(r)) * w; d.tail(3) = lv(tvec(r)) ; if (r.p(0.1)) d.head(3).setZero(); if (r.p(0.1)) d.tail(3).setZero(); }
    if (k == P2 && r.p(0.2)) d(2) = r.i(-4, 4) * M_PI / 2 + r.sgn() * (r.p(0.5) ? 0 : r.logu(1e-16, 1e-6)); if (k == P2 && r.p(0.3)) d.head(2) *= 1e-3L;
    if (k == PL) { for (int i = 0; i < 3; ++i) d(i) = r.u(-1, 1) * (r.p(0.8) ? 0.4 : std::min(m, 1e6)); }
    return lm(dm(MX(d)));
}
static void onmanifold(Case &c, NK k, const Eigen::MatrixXd &x, const std::string &w, bool wrapped) {
    for (int i = 0; i < x.size(); ++i) if (!std::isfinite(x.data()[i])) { c.viol("state-not-finite:" + w, ms(x)); return; }
    if (k == P2 && wrapped) c.ok(x(2) >= -M_PI && x(2) < M_PI, "heading-out-of-range:" + w, fmt("%.17g", x(2)));
    if (k == P3) { M3 R = rot(m4(lm(x))); c.bound((double)(R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff(), 1e-12, "not-a-rotation:" + w, [&] { return ms(x); }); c.bound((double)std::fabs(R.determinant() - 1), 1e-12, "not-a-rotation:" + w); c.ok(x(3, 0) == 0 && x(3, 1) == 0 && x(3, 2) == 0 && x(3, 3) == 1, "last-row:" + w); }
    if (k == PL) c.bound(std::fabs(x.topRows(3).norm() - 1), 1e-14, "normal-not-unit:" + w, [&] { return ms(x); });
}
static void close(Case &c, NK k, const Eigen::MatrixXd &got, const MX &want, const MX &from, const VX &d, bool regen, const std::string &key) {
    double dm_ = (double)d.cwiseAbs().maxCoeff();
    if (k == L2 || k == L3) { c.same(got, Eigen::MatrixXd(dm(from) + dm(MX(d))), key); return; }
    if (k == P2) { Eigen::MatrixXd sum = dm(from) + dm(MX(d)); c.ok(got(0) == sum(0) && got(1) == sum(1), key + ":position", ms(got) + " expected " + ms(sum)); c.bound((double)std::fabs(wrap((L)got(2) - from(2) - d(2))), 2e-15 + 8e-16 * (double)(std::fabs(from(2)) + std::fabs(d(2))), key + ":heading", [&] { return fmt("%.17g + %.17g gave %.17g", (double)from(2), (double)d(2), got(2)); }); return; }
    double sc = 1 + (double)from.cwiseAbs().maxCoeff() + dm_; double tol = 1e-14 * sc;
    if (k == PL) { V3 n = V3(from.topRows(3)) + V3(d.head(3)); tol = 4e-15 * (1 + 1 / (double)n.norm() * (1 + dm_)) ; c.bound((double)std::fabs(got(3) - want(3)), 4e-15 * sc, key + ":distance"); c.near(got.topRows(3), dm(want.topRows(3)), tol, key + ":normal"); return; }
    double w = (double)d.head(3).norm(); tol = 5e-13 * (1 + 1e-2 * w) * sc + 2e-15 * w * sc + (regen ? logtol(gapof(want)) * sc * 2 : 0); c.near(got, dm(want), tol, key);
}
static void history(Case &c, NK k) {
    Rng &r = c.r; NodeS s = start(r, k); NP n = mknode(s); std::string nm = NKN[k]; bool wrapped = k != P2; c.mark(dm(s.x)); c.note = nm + " from " + ms(dm(s.x)); int steps = r.p(0.05) ? (c.thorough ? 4000 : 500) : r.i(1, 25);
    if (k != PL) c.same(state(n), dm(s.x), "initial-state:" + nm); onmanifold(c, k, state(n), nm, false); c.ok((int)n->get_dim() == ndim(k), "dimension:" + nm); MX aux = lm(n->get_auxiliary_state()); c.same(dm(aux), state(n), "initial-auxiliary-state:" + nm); bool auxw = k != P2;
    for (int t = 0; t < steps; ++t) {
        MX x = lm(n->get_state()); c.same(Eigen::MatrixXd(n->get_auxiliary_state()), dm(aux), "auxiliary-state-changed:" + nm); int op = r.i(0, 9);
        if (op < 5) { VX d = increment(r, k); if (k == PL && (V3(x.topRows(3)) + V3(d.head(3))).norm() < 1e-3L) continue; mrob::MatX1 dx = dm(MX(d)); mrob::MatX1 d0 = dx; c.mark(dx); n->update(dx); c.same(dx, d0, "update-modifies-increment"); wrapped = true; close(c, k, state(n), retract(k, x, d), x, d, true, "update:" + nm); c.seen("updates"); }
        else if (op == 5) { VX d = increment(r, k); if (k == PL && (V3(aux.topRows(3)) + V3(d.head(3))).norm() < 1e-3L) continue; mrob::MatX1 dx = dm(MX(d)); n->update_from_auxiliary(dx); wrapped = true; close(c, k, state(n), retract(k, aux, d), aux, d, false, "update-from-auxiliary:" + nm); c.seen("updates-from-auxiliary"); }
        else if (op == 6) { MX y = assign(r, k); Eigen::MatrixXd yd = dm(y); n->set_state(yd); wrapped = true; MX got = lm(n->get_state()); if (k == P2) { c.ok(got(0) == y(0) && got(1) == y(1), "assigned-position"); c.bound((double)std::fabs(wrap(got(2) - y(2))), 2e-15 + 8e-16 * (double)std::fabs(y(2)), "assigned-heading"); } else c.same(dm(got), yd, "assigned-state:" + nm); c.seen("assignments"); }
        else if (op == 7) { n->set_auxiliary_state(n->get_state()); aux = lm(n->get_auxiliary_state()); auxw = true; c.bound((double)nodeerr(k, aux, x), k == P2 ? 2e-15 + 8e-16 * (double)std::fabs(x(2)) : 1e-300, "book-keeping:" + nm); c.same(state(n), dm(x), "book-keeping-changes-state:" + nm); c.seen("book-keepings"); }
        else if (op == 8) { n->set_state(n->get_auxiliary_state()); wrapped = true; c.bound((double)nodeerr(k, lm(n->get_state()), aux), k == P2 ? 2e-15 + 8e-16 * (double)std::fabs(aux(2)) : 1e-300, "restore:" + nm); c.seen("restores"); }
        else { MX y = assign(r, k); Eigen::MatrixXd yd = dm(y); n->set_auxiliary_state(yd); aux = lm(n->get_auxiliary_state()); auxw = true; if (k != P2) c.same(dm(aux), yd, "assigned-auxiliary:" + nm); else c.bound((double)std::fabs(wrap(aux(2) - y(2))) + (double)(std::fabs(aux(0) - y(0)) + std::fabs(aux(1) - y(1))), 2e-15 + 8e-16 * (double)std::fabs(y(2)), "assigned-auxiliary:Pose2d"); c.same(state(n), dm(x), "auxiliary-assignment-changes-state:" + nm); }
        onmanifold(c, k, state(n), nm, wrapped); if (k == P2 && auxw) c.ok(aux(2) >= -M_PI && aux(2) < M_PI, "auxiliary-heading-range"); if (state(n).cwiseAbs().maxCoeff() > 1e14) return;
    }
}
SCENARIO(pose2d, 3) { history(c, P2); } SCENARIO(pose3d, 4) { history(c, P3); } SCENARIO(plane, 2) { history(c, PL); } SCENARIO(landmark2d, 1) { history(c, L2); } SCENARIO(landmark3d, 1) { history(c, L3); }
SCENARIO(wrap_angle, 2) {
    Rng &r = c.r; double a; switch (r.i(0, 4)) { case 0: a = r.u(-20, 20); break; case 1: a = r.i(-40, 40) * M_PI + r.sgn() * (r.p(0.3) ? 0 : r.logu(1e-17, 1e-3)); break; case 2: a = r.sgn() * r.logu(1e-300, 1e300); break; case 3: a = std::nextafter(r.i(-20, 20) * M_PI, r.sgn() * 100); break; default: a = r.u(-7, 7); }
    c.mark(a); c.note = fmt("%.17g", a); double w = mrob::wrap_angle(a); c.ok(w >= -M_PI && w < M_PI, "wrap-range", fmt("wrap(%.17g) = %.17g", a, w)); if (std::fabs(a) < 1e12) c.bound((double)std::fabs(wrap((L)w - (L)a)), 2e-15 + 8e-16 * std::fabs(a), "wrap-congruent", [&] { return fmt("wrap(%.17g) = %.17g", a, w); }); if (a >= -M_PI && a < M_PI) c.ok(w == a, "wrap-identity", fmt("wrap(%.17g) = %.17g", a, w)); c.seen("wraps");
}
SCENARIO(non_finite, 1) { // only bounded time is required
    Rng &r = c.r; NK k = (NK)r.i(0, 4); NodeS s = start(r, k); NP n = mknode(s); c.mark(dm(s.x)); double bad[] = {INFINITY, -INFINITY, NAN, 1e308, -1e308}; mrob::MatX1 d = mrob::MatX1::Zero(ndim(k)); d(r.i(0, ndim(k) - 1)) = bad[r.i(0, 4)]; c.note = std::string(NKN[k]) + ms(d); if (r.p(0.5)) n->update(d); else n->update_from_auxiliary(d); mrob::wrap_angle(bad[r.i(0, 4)]); c.seen("non-finite-updates"); Eigen::MatrixXd y = dm(assign(r, k)); n->set_state(y); onmanifold(c, k, state(n), NKN[k], true);
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
