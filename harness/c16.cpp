// C16: the generic optimizer driven with user-supplied costs that record the call sequence.
#include <memory>
#include "ref.hpp"
#include "mrob/optimizer.hpp"
using namespace ref; using namespace mon;
static const char *MN[] = {"newton", "lm-spherical", "lm-elliptical"};
// cost with exact gradient/Hessian; event log of the interface calls
struct Cost : mrob::OptimizerDense {
    int kind, n; Eigen::MatrixXd H, B; Eigen::VectorXd c, x, book; double k4, off, hs = 1; std::vector<char> log; std::vector<Eigen::VectorXd> updates, before; std::vector<double> errs; std::vector<Eigen::VectorXd> errx; bool haveg = false, booked = false; std::string bad;
    Cost(double tol) : OptimizerDense(tol), k4(0), off(0) {}
    double f(const Eigen::VectorXd &y) const { Eigen::VectorXd d = y - c; double e = off + 0.5 * d.dot(H * d); if (kind == 1) for (int i = 0; i < n; ++i) e += k4 * d(i) * d(i) * d(i) * d(i); if (kind == 2) for (int i = 0; i < n; ++i) e += k4 * std::cos(3 * d(i)); if (kind == 3) for (int i = 0; i < n; ++i) e += k4 * std::log(d(i) + 2); return e; } // log: undefined beyond -2
    void gh(const Eigen::VectorXd &y, Eigen::VectorXd &g, Eigen::MatrixXd &h) const { Eigen::VectorXd d = y - c; g = H * d; h = H; for (int i = 0; i < n; ++i) { if (kind == 1) { g(i) += 4 * k4 * d(i) * d(i) * d(i); h(i, i) += 12 * k4 * d(i) * d(i); } if (kind == 2) { g(i) -= 3 * k4 * std::sin(3 * d(i)); h(i, i) -= 9 * k4 * std::cos(3 * d(i)); } if (kind == 3) { g(i) += k4 / (d(i) + 2); h(i, i) -= k4 / (d(i) + 2) / (d(i) + 2); } } if (kind == 4) h *= hs; } // 4: an approximate Hessian, slow or overshooting
    mrob::matData_t calculate_error() override { log.push_back('E'); double e = f(x); errs.push_back(e); errx.push_back(x); return e; }
    void calculate_gradient_hessian() override { log.push_back('G'); Eigen::VectorXd g; Eigen::MatrixXd h; gh(x, g, h); gradient_ = g; hessian_ = h; }
    void update_state() override { log.push_back('U'); before.push_back(x); updates.push_back(dx_); x += dx_; }
    void bookkeep_state() override { log.push_back('B'); book = x; booked = true; }
    void update_state_from_bookkeep() override { log.push_back('R'); if (!booked) bad = "restore without book-keeping"; x = book; }
};
static std::shared_ptr<Cost> make(Rng &r, double tol, int kind) {
    auto p = std::make_shared<Cost>(tol); p->kind = kind; p->n = r.i(1, 6); int n = p->n; Eigen::MatrixXd F(n, n); for (int i = 0; i < n * n; ++i) F.data()[i] = r.g(); p->H = F * F.transpose() / n + 0.2 * Eigen::MatrixXd::Identity(n, n); if (kind == 2 && r.p(0.5)) p->H *= 0.1; p->H *= r.logu(1e-2, 1e2); p->c.resize(n); p->x.resize(n); for (int i = 0; i < n; ++i) { p->c(i) = r.u(-5, 5); p->x(i) = p->c(i) + r.u(-1, 1) * (kind == 3 ? 1.5 : r.p(0.3) ? 20 : 3); } p->k4 = kind == 0 ? 0 : r.logu(1e-2, 1e2); p->off = r.p(0.5) ? 0 : r.u(-10, 100); return p;
}
static void once(Case &c, std::shared_ptr<Cost> p, double tol, int kind, int round) {
    Rng &r = c.r; int m = r.i(0, 2), maxit = r.p(0.3) ? r.i(1, 3) : r.i(1, 60); if (kind == 4) { p->hs = r.p(0.5) ? r.logu(2, 60) : r.u(0.51, 1.0); maxit = r.i(1, 400); } double lam = r.logu(1e-9, 1e4);
    if (round) { p->log.clear(); p->updates.clear(); p->before.clear(); p->errs.clear(); p->errx.clear(); p->booked = false; if (!p->x.allFinite() || r.p(0.7)) for (int i = 0; i < p->n; ++i) p->x(i) = p->c(i) + r.u(-1, 1) * (kind == 3 ? 1.5 : r.p(0.3) ? 20 : 3); c.seen("repeated-solves"); }
    Eigen::VectorXd x0 = p->x; double e0 = p->f(x0); c.mark(x0.data(), sizeof(double) * x0.size()); c.mark(lam); c.mark((double)maxit); c.note = fmt("solve %d: %s kind %d n %d maxit %d lambda %.6g tol %.3g e0 %.9g", round + 1, MN[m], kind, p->n, maxit, lam, tol, e0); if (!std::isfinite(e0)) { if (!round) c.skip(); return; } std::string nm = MN[m];
    int it = (int)p->solve((mrob::Optimizer::optimMethod)m, maxit, lam); c.ok(p->bad.empty(), "call-order", p->bad); c.ok(it >= 1 && it <= maxit, "iteration-limit:" + nm, fmt("%d of %d", it, maxit)); if (it > 100) c.seen("long-runs"); c.ok((int)p->updates.size() == it, "iterations-reported:" + nm, fmt("%d updates, %d reported", (int)p->updates.size(), it)); if (c.nviol) return;
    double e1 = p->f(p->x); bool acceptedLast = false; double curlam = lam; std::vector<double> lams; int rej = 0, acc = 0;
    // replay of the recorded steps: direction, damping, acceptance
    Eigen::VectorXd cur = x0; double ecur = e0; int stopAt = -1; double lo = lam, hi = lam; // interval that the damping must lie in
    for (size_t k = 0; k < p->updates.size(); ++k) {
        c.ok(p->before[k].size() == cur.size() && memcmp(p->before[k].data(), cur.data(), sizeof(double) * cur.size()) == 0, "step-does-not-start-at-current-state:" + nm, fmt("step %d from ", (int)k) + ms(p->before[k]) + " expected exactly " + ms(cur)); if (c.nviol) return;
        Eigen::VectorXd g; Eigen::MatrixXd h; p->gh(cur, g, h); MX Hl = lm(h); VX gl = lv(g), d = lv(p->updates[k]); Eigen::VectorXd nx = cur + p->updates[k]; double en = p->f(nx);
        if (m == 0) { Eigen::JacobiSVD<Eigen::MatrixXd> sv(h); double cond = sv.singularValues()(0) / sv.singularValues()(p->n - 1); if (cond < 1e10) { VX e = -Hl.fullPivLu().solve(gl); c.near(dm(MX(d)), dm(MX(e)), 1e-13 * cond * (1e-300 + (double)e.norm()) * 10, "newton-step"); c.seen("newton-steps"); } }
        else { // residual of (H + lam D) d = -g determines lam
            MX D = MX::Identity(p->n, p->n); if (m == 2) for (int i = 0; i < p->n; ++i) D(i, i) = Hl(i, i); VX q = -gl - Hl * d, Dd = D * d; L l = Dd.dot(q) / Dd.squaredNorm(); MX Hd = Hl; Hd += D * l; Eigen::JacobiSVD<Eigen::MatrixXd> sv(dm(Hd)); double cond = sv.singularValues()(0) / sv.singularValues()(p->n - 1), sl = sv.singularValues()(0);
            if (cond < 1e8 && d.norm() > 0 && d.allFinite()) { double slack = 1e-13 * cond * sl * (double)d.norm() * 100; c.bound((double)(q - Dd * l).norm(), slack + 1e-13 * (double)gl.norm(), "damped-step:" + nm, [&] { return fmt("step %d", (int)k); }); double dl = (slack + 1e-13 * (double)gl.norm()) / (double)Dd.norm(); // accuracy of the recovered lambda
                if (k == 0) c.bound(std::fabs((double)l - lam), 1e-10 * lam + dl, "requested-damping:" + nm, [&] { return fmt("first step damped by %.17g, requested %.17g", (double)l, lam); });
                else { if (hi == -1) c.ok((double)l > curlam * 1.001 - dl, "damping-not-increased-after-rejection:" + nm, fmt("%.9g then %.9g", curlam, (double)l)); if (lo == -2) c.ok((double)l < curlam * 0.999 + dl, "damping-not-decreased-after-good-step:" + nm, fmt("%.9g then %.9g", curlam, (double)l)); if (lo == -3) c.ok((double)l > curlam * 1.001 - dl, "damping-not-increased-after-poor-step:" + nm, fmt("%.9g then %.9g", curlam, (double)l)); c.seen("lambda-transitions"); }
                curlam = (double)l; if (dl > 1e-4 * std::fabs(curlam)) curlam = NAN; } else curlam = NAN;
        }
        bool up = m == 0 || en <= ecur; double diff = ecur - en; hi = lo = 0;
        if (up) { ++acc; acceptedLast = true; double mk = -(double)d.dot(gl) - 0.5 * (double)d.dot(Hl * d) - (curlam == curlam ? 0.5 * curlam * (m == 2 ? (double)(d.cwiseAbs2().cwiseProduct(Hl.diagonal())).sum() : (double)d.squaredNorm()) : 0), fid = diff / mk; double rn = 1e-9 * (std::fabs(ecur) + std::fabs(p->off)) ; if (m && diff > rn && curlam == curlam) { if (fid > 0.85) lo = -2; else if (mk > 0 && fid < 0.2) lo = -3; } cur = nx; ecur = en; }
        else { ++rej; acceptedLast = false; hi = curlam == curlam ? -1 : 0; }
        if (m == 0 && !(std::fabs(diff) < 1e300)) { stopAt = (int)k; break; } bool conv = m == 0 ? std::fabs(diff) <= tol : (up && diff < tol); if (conv) { stopAt = (int)k; if (k + 1 != p->updates.size()) { double rn = 1e-12 * std::fabs(ecur); if (std::fabs(std::fabs(diff) - tol) > rn) c.viol("does-not-stop-when-converged:" + nm, fmt("step %d of %d changed the error by %.3g, tolerance %.3g", (int)k + 1, (int)p->updates.size(), diff, tol)); } break; }
    }
    if (stopAt < 0 && (int)p->updates.size() < maxit) { double d = std::fabs(tol); (void)d; c.viol("stops-early:" + nm, fmt("%d of %d iterations", (int)p->updates.size(), maxit)); }
    if (stopAt >= 0 && m == 0 && !std::isfinite(ecur)) { c.seen("newton-left-domain"); return; } c.ok(memcmp(p->x.data(), cur.data(), sizeof(double) * cur.size()) == 0, "final-state:" + nm, ms(p->x) + " expected exactly " + ms(cur)); if (m) { c.ok(e1 <= e0, "error-increased:" + nm, fmt("from %.17g to %.17g", e0, e1)); c.ok(p->x.allFinite(), "state-not-finite:" + nm); } c.seen("steps-accepted", acc); c.seen("steps-rejected", rej); (void)acceptedLast;
    if (kind == 0 && m == 0) { c.near(p->x, p->c, 1e-9 * (1 + p->c.norm() + x0.norm()), "quadratic-minimum"); c.ok(it <= 2, "quadratic-needs-one-step", fmt("%d", it)); }
}
static void run(Case &c, int kind) { double tol = c.r.logu(1e-12, 1); auto p = make(c.r, tol, kind); int k = c.r.p(0.5) ? 1 : c.r.i(2, 4); for (int i = 0; i < k && !c.nviol; ++i) once(c, p, tol, kind, i); } // one optimizer object, several solves
SCENARIO(quadratic, 2) { run(c, 0); } SCENARIO(quartic, 2) { run(c, 1); } SCENARIO(nonconvex, 3) { run(c, 2); } SCENARIO(undefined_region, 2) { run(c, 3); } SCENARIO(approximate_hessian, 1) { run(c, 4); }
SCENARIO(convex_optimum, 1) { // enough iterations on convex costs: the minimiser
    Rng &r = c.r; auto p = make(r, 1e-14, r.i(0, 1)); int m = r.i(1, 2); double lam = r.logu(1e-9, 1e2); p->off = 0; c.mark(p->x.data(), sizeof(double) * p->n); c.note = fmt("%s kind %d lambda %.4g", MN[m], p->kind, lam); p->solve((mrob::Optimizer::optimMethod)m, 400, lam); c.bound(p->f(p->x), 1e-6, std::string("convex-optimum:") + MN[m], [&] { return ms(p->x) + " minimiser " + ms(p->c); }); c.seen("optima");
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
