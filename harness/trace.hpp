// Event log of a solve, recorded at the nodes' public update interface, and its checker: every step must be the
// (damped) Gauss-Newton step of the state it starts from, start either where the previous one ended (it improved) or
// where the previous one started (it did not), and the damping must follow the outcome.
#ifndef VERIF_TRACE_HPP
#define VERIF_TRACE_HPP
#include <functional>
#include "graphgen.hpp"
namespace gg {
struct StepRec { std::vector<MX> from; std::vector<VX> d; };
struct Tap {
    std::vector<StepRec> steps; int active = 0, got = 0; bool irregular = false, armed = false; std::vector<NP> *nodes = nullptr; std::vector<char> seen;
    void on(int i, const Eigen::Ref<const mrob::MatX1> &d, const MX &from) {
        if (!armed) return; if (got == 0) { StepRec s; s.from.resize(nodes->size()); s.d.resize(nodes->size()); for (size_t k = 0; k < nodes->size(); ++k) s.from[k] = lm((*nodes)[k]->get_state()); steps.push_back(s); seen.assign(nodes->size(), 0); }
        if (seen[i]) irregular = true; seen[i] = 1; auto &s = steps.back(); s.from[i] = from; s.d[i] = lv(mrob::MatX1(d)); if (++got == active) got = 0;
    }
};
template <class N> struct Rec : N {
    Tap *tap = nullptr; int idx = -1; using N::N;
    void update(const Eigen::Ref<const mrob::MatX1> &d) override { if (tap) tap->on(idx, d, lm(Eigen::MatrixXd(this->get_state()))); N::update(d); }
    void update_from_auxiliary(const Eigen::Ref<const mrob::MatX1> &d) override { if (tap) tap->on(idx, d, lm(Eigen::MatrixXd(this->get_auxiliary_state()))); N::update_from_auxiliary(d); }
};
template <class N, class A> NP mkrec(const A &x, bool anchor, Tap &t, int i) { auto p = std::make_shared<Rec<N>>(x, mode(anchor)); p->tap = &t; p->idx = i; return p; }
inline NP mktapped(const NodeS &n, Tap &t, int i) {
    Eigen::MatrixXd x = dm(n.x);
    switch (n.k) {
        case P2: return mkrec<mrob::NodePose2d>(mrob::Mat31(x), n.anchor, t, i); case L2: return mkrec<mrob::NodeLandmark2d>(mrob::Mat21(x), n.anchor, t, i);
        case P3: return mkrec<mrob::NodePose3d>(mrob::SE3(mrob::Mat4(x)), n.anchor, t, i); case L3: return mkrec<mrob::NodeLandmark3d>(mrob::Mat31(x), n.anchor, t, i);
        default: return mkrec<mrob::NodePlane4d>(mrob::Mat41(x), n.anchor, t, i);
    }
}
template <class G> Built<G> buildtapped(const Spec &s, const std::vector<int> &ops, Tap &t) {
    Built<G> B; B.g = std::make_shared<G>(); B.n.resize(s.n.size()); B.f.resize(s.f.size()); B.nid.assign(s.n.size(), -1); B.fid.assign(s.f.size(), -1);
    for (int o : ops) {
        if (o >= 0) { B.n[o] = mktapped(s.n[o], t, o); if (!s.n[o].anchor) ++t.active; B.nid[o] = (int)B.g->add_node(B.n[o]); B.norder.push_back(o); }
        else { int j = -1 - o; auto &f = s.f[j]; B.f[j] = mkfac(f, B.n[f.a], f.b >= 0 ? B.n[f.b] : NP()); B.fid[j] = (int)B.g->add_factor(B.f[j]); B.forder.push_back(j); }
    }
    return B;
}
enum Damp { NONE, SPHERE, ELLIPSE };
// robust: weights in the system; tol: convergence tolerance of the solve
template <class G> void tracecheck(mon::Case &c, const Spec &s, const Built<G> &B, const Tap &t, Damp dm_, double lam, double tol, int iters, bool robust, const std::vector<MX> &x0, const std::string &key) {
    c.ok(!t.irregular && t.got == 0, key + ":partial-update", "a node was updated twice, or not all of them, in one step"); c.ok((int)t.steps.size() <= iters, key + ":iteration-limit", mon::fmt("%d steps, limit %d", (int)t.steps.size(), iters)); if (c.nviol) return;
    c.ok(!t.steps.empty(), key + ":no-step"); auto z = states(B); std::vector<MX> cur = x0; L cc = refchi2(s, cur); double lprev = lam, lerr = 0; int relation = 0; /* of the next lambda to the previous one: +1 larger, -1 not larger, 2 equal */ relation = 2; bool chain = true;
    auto close = [&](const std::vector<MX> &a, const std::vector<MX> &b, L f, int &at) { for (size_t i = 0; i < s.n.size(); ++i) { L sc = 1 + a[i].cwiseAbs().maxCoeff() + b[i].cwiseAbs().maxCoeff(); L e = f * sc; if (s.n[i].k == P3) e += 20 * logtol(gapof(b[i])) * sc; if (!(nodeerr(s.n[i].k, a[i], b[i]) <= e)) { at = (int)i; return false; } } return true; };
    double wm = 0; for (auto &f : s.f) wm = std::max(wm, (double)f.W.cwiseAbs().maxCoeff());
    for (size_t k = 0; k < t.steps.size(); ++k) {
        auto &st = t.steps[k]; int at = -1; if (!finite(st.from, 1e6L)) { c.seen("not-judged"); return; }
        if (chain && !close(st.from, cur, 1e-13L, at)) { c.viol(key + (k ? ":step-starts-elsewhere" : ":first-step-starts-elsewhere"), mon::fmt("step %d node %d starts from ", (int)k + 1, at) + mon::ms(dm(st.from[at])) + " instead of " + mon::ms(dm(cur[at]))); return; }
        cur = st.from; cc = refchi2(s, cur); bool okm = margin(s, cur) > 1e-3L; Sys y; VX d; bool usable = okm;
        if (okm) {
            y = assemble(s, cur, B.norder, B.forder, robust); d.resize(y.N); for (size_t i = 0; i < s.n.size(); ++i) if (y.col[i] >= 0) { c.ok(st.d[i].size() == ndim(s.n[i].k), key + ":increment-size"); if (c.nviol) return; d.segment(y.col[i], ndim(s.n[i].k)) = st.d[i]; }
            for (int i = 0; i < y.N; ++i) if (!(std::fabs(d(i)) < 1e6L)) usable = false;
        }
        double lfit = NAN, lfe = INFINITY;
        if (usable) {
            VX Dd = d; if (dm_ == ELLIPSE) for (int i = 0; i < y.N; ++i) Dd(i) *= y.H(i, i); VX v = y.b + y.H * d, sc(y.N); for (int i = 0; i < y.N; ++i) sc(i) = std::sqrt(y.H(i, i) + (dm_ == SPHERE ? lprev : 0)); for (int i = 0; i < y.N; ++i) if (!(sc(i) > 0)) sc(i) = 1;
            VX a = v.cwiseQuotient(sc), q = Dd.cwiseQuotient(sc); L lo = 0; if (dm_ != NONE && q.squaredNorm() > 0) lo = std::max<L>(0, -a.dot(q) / q.squaredNorm());
            L sx = 1; for (auto &w : cur) sx = std::max(sx, w.cwiseAbs().maxCoeff()); for (auto &f : s.f) sx = std::max(sx, f.z.cwiseAbs().maxCoeff()); L eps = 1e-12L * (1 + 1e-2L / margin(s, cur)) * sx * sx; VX rs = VX::Zero(y.N); for (int j : B.forder) { int q0 = y.row[j], m0 = fdim(s.f[j].k); VX w = y.W.block(q0, q0, m0, m0).cwiseAbs() * VX::Constant(m0, eps); for (int nd : {s.f[j].a, s.f[j].b}) if (nd >= 0 && y.col[nd] >= 0) { int dn = ndim(s.n[nd].k); rs.segment(y.col[nd], dn) += y.A.block(q0, y.col[nd], m0, dn).cwiseAbs().transpose() * w; } } L rres = rs.cwiseQuotient(sc).norm(); // rounding of the residuals
            auto judge = [&](L l, bool &cond) { MX H = y.H; for (int i = 0; i < y.N; ++i) { if (dm_ == SPHERE) H(i, i) += l; if (dm_ == ELLIPSE) H(i, i) *= 1 + l; } Step g = solve(H, y.b); cond = g.cond < 1e6L; L left = (a + l * q).norm(), scale = y.b.cwiseQuotient(sc).norm() + (H.cwiseAbs() * d.cwiseAbs()).cwiseQuotient(sc).norm() + 1e-3L * std::sqrt(y.chi2); L rnd = 1e-16L * d.cwiseAbs().maxCoeff() * H.cwiseAbs().rowwise().sum().cwiseQuotient(sc).maxCoeff(); return left / (1e-6L * scale + 100 * rnd + rres + 1e-300L); };
            bool cd; L bad = judge(lo, cd);
            if (!cd) { c.seen("not-judged"); } else {
                c.bound((double)bad, 1.0, key + ":step", [&] { return mon::fmt("step %d of %d does not solve the damped system of the state it starts from (best lambda %.6g, %g times the allowed residue), chi2 %.9g, increments ", (int)k + 1, (int)t.steps.size(), (double)lo, (double)bad, (double)cc) + mon::ms(dm(d)).substr(0, 400); }); c.seen("trace-steps"); if (c.nviol) return;
                if (dm_ != NONE && q.norm() > 0) { lfit = (double)lo; lfe = (double)((1e-6L * (y.b.cwiseQuotient(sc).norm() + (y.H.cwiseAbs() * d.cwiseAbs()).cwiseQuotient(sc).norm()) + 1e-9L * std::sqrt(y.chi2) + rres) / q.norm()); }
            }
        } else c.seen("not-judged");
        // damping against the last one known
        if (lfe < 0.02 * lprev && lerr < 0.02 * lprev) {
            if (relation == 2) c.ok(std::fabs(lfit - lprev) < 0.1 * lprev, key + ":requested-damping", mon::fmt("lambda %.9g requested %.9g", lfit, lprev));
            if (relation == 1) c.ok(lfit > 1.05 * lprev, key + ":damping-not-increased-after-rejection", mon::fmt("step %d lambda %.9g then %.9g", (int)k + 1, lprev, lfit));
            if (relation == -1) c.ok(lfit < 0.9 * lprev, key + ":damping-not-decreased-after-good-step", mon::fmt("step %d lambda %.9g then %.9g", (int)k + 1, lprev, lfit));
            if (relation) c.seen(relation == 2 ? "damping-requested" : relation == 1 ? "damping-after-rejection" : "damping-after-good-step"); if (c.nviol) return;
        }
        bool known = lfe < 0.02 * lfit; if (known) { lprev = lfit; lerr = lfe; } else lerr = INFINITY;
        // outcome by the reference cost
        std::vector<MX> nx = cur; for (size_t i = 0; i < s.n.size(); ++i) if (!s.n[i].anchor) nx[i] = retract(s.n[i].k, cur[i], st.d[i]); chain = true;
        for (size_t i = 0; i < s.n.size(); ++i) if (s.n[i].k == PL && !s.n[i].anchor && !(V3(cur[i].topRows(3) + st.d[i].topRows(3)).norm() > 1e-3L)) { chain = false; }
        if (!finite(nx, 1e6L) || margin(s, nx) < 1e-6L) chain = false; for (auto &f : s.f) if (f.k == FPL2 && std::hypot(nx[f.b](0) - nx[f.a](0), nx[f.b](1) - nx[f.a](1)) < 2.5e-3L) chain = false;
        L cn = refchi2(s, nx), band = 1e-7L * (cc + cn) + 1e-9L; bool last = k + 1 == t.steps.size(); relation = 0;
        if (chain && dm_ != NONE) {
            if (std::fabs(cn - cc) < band) chain = false;
            else if (cn < cc) { L pred = usable ? -d.dot(y.b) - 0.5L * d.dot(y.H * d) - (dm_ == SPHERE && lfit == lfit ? 0.5L * lfit * d.squaredNorm() : 0) : 0; relation = 0; if (usable && lfit == lfit && !robust && pred > 0 && (cc - cn) / pred > 0.9L && (cc - cn) / pred < 1.5L && dm_ == SPHERE) relation = -1; if (last && (int)t.steps.size() < iters) { c.ok((double)(cc - cn) < tol + 2 * (double)band, key + ":stopped-while-improving", mon::fmt("step %d of %d improved by %.9g, tolerance %.9g", (int)k + 1, iters, (double)(cc - cn), tol)); c.seen("early-stops"); } else if (!last) c.ok((double)(cc - cn) >= tol - 2 * (double)band, key + ":continued-after-convergence", mon::fmt("step %d improved by %.9g, tolerance %.9g", (int)k + 1, (double)(cc - cn), tol)); cur = nx; c.seen("trace-accepted"); }
            else { relation = 1; if (last) c.ok((int)t.steps.size() == iters, key + ":stopped-after-rejection", mon::fmt("step %d of %d", (int)k + 1, iters)); c.seen("trace-rejected"); }
            if (c.nviol) return;
        } else if (dm_ == NONE) cur = nx;
        if (chain && last) { if (!close(z, cur, 1e-12L, at)) c.viol(key + ":returned-state", mon::fmt("node %d returned ", at) + mon::ms(dm(z[at])) + " instead of " + mon::ms(dm(cur[at]))); c.seen("trace-ends"); }
        if (!chain) { if (!known) return; lerr = INFINITY; }
    }
    c.seen("traces");
}
} // namespace gg
#endif
