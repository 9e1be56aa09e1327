// C22: generated scenes and samplers; the clock that seeds them is replaced by a case-determined one.
#include <memory>
#include <algorithm>
#include <tuple>
#include <time.h>
#include <sys/syscall.h>
#include "ref.hpp"
#include "mrob/create_points.hpp"
using namespace ref; using namespace mon;
static Rng *fake = nullptr; static uint64_t now_ns = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (!fake || id != CLOCK_REALTIME) return (int)syscall(SYS_clock_gettime, id, ts);
    now_ns += 20 + fake->next() % 5000; ts->tv_sec = now_ns / 1000000000ULL; ts->tv_nsec = now_ns % 1000000000ULL; return 0;
}
struct Clock { Rng own; Clock(Rng &r) : own(r.next(), 5) { now_ns = 1600000000000000000ULL + r.next() % 300000000000000000ULL; fake = &own; } ~Clock() { fake = nullptr; } };
typedef std::tuple<double, double, double> Key; static Key key(const D3 &a) { return Key(a(0), a(1), a(2)); }
static Eigen::MatrixXd I4() { return Eigen::MatrixXd::Identity(4, 4); }
static void validp(Case &c, const Eigen::MatrixXd &T, const char *k) { bool f = T.allFinite(); if (!f) { c.viol(k, ms(T)); return; } Eigen::MatrixXd R = T.topLeftCorner(3, 3); c.bound((R * R.transpose() - Eigen::MatrixXd::Identity(3, 3)).cwiseAbs().maxCoeff(), 1e-10, k); c.bound(std::fabs(R.determinant() - 1), 1e-10, k); }
struct Stat { double n = 0, s = 0, q = 0, lo = 1e300, hi = -1e300; void add(double x) { n++; s += x; q += x * x; lo = std::min(lo, x); hi = std::max(hi, x); } double mean() const { return s / n; } double sd() const { return std::sqrt(std::max(0.0, q / n - mean() * mean())); } };

static void transfer(Case &c, mrob::CreatePoints &S, mrob::PlaneRegistration &R, int N, int P, int T) {
    Rng &r = c.r; S.create_plane_registration(R); c.ok((int)R.get_number_planes() == P && (int)R.get_number_poses() == T, "transfer-counts", fmt("%d planes %d poses", R.get_number_planes(), R.get_number_poses()));
    c.ok((int)R.get_all_planes().size() == P, "transfer-planes", fmt("%d", (int)R.get_all_planes().size())); c.ok(R.calculate_total_number_points() == (unsigned)N * T, "transfer-points", fmt("%d expected %d", R.calculate_total_number_points(), N * T)); if (c.nviol) return;
    for (int t = 0; t < T; ++t) c.same(Eigen::MatrixXd(R.get_trajectory(t).T()), I4(), "transfer-trajectory-not-identity");
    int t = r.i(0, T - 1); auto pc = R.get_point_cloud(t); std::vector<Key> a, b; for (auto &q : pc) a.push_back(key(q)); for (auto &q : S.get_point_cloud(t)) b.push_back(key(q)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.ok(a == b, "transfer-cloud", fmt("%d points, expected %d", (int)a.size(), (int)b.size()));
    L e = 0; double sc = 0; for (auto &pl : S.get_all_planes()) { M4 Q = M4::Zero(); for (int t2 = 0; t2 < T; ++t2) for (auto &q : pl.second->get_points(t2)) { V4 h; h << lv(D3(q)), 1; Q += h * h.transpose(); } Eigen::SelfAdjointEigenSolver<M4> s(Q); e += s.eigenvalues()(0); sc += (double)Q.cwiseAbs().maxCoeff(); } c.near(R.get_current_error(), (double)e, 1e-11 * sc + 1e-300, "transfer-error"); c.seen("transfers");
}
static void scene(Case &c, int N, int P, int T, double noise, double bias, bool dflt = false) {
    Rng &r = c.r; c.note = fmt("%d points %d planes %d poses noise %.3g bias %.3g%s", N, P, T, noise, bias, dflt ? " default arguments" : "");
    Clock ck(r); mrob::CreatePoints S = dflt ? mrob::CreatePoints() : mrob::CreatePoints(N, P, T, noise, bias); auto &pp = S.get_plane_poses(); auto &gt = S.get_ground_truth_trajectory(); auto &pl = S.get_all_planes();
    c.ok((int)S.get_number_planes() == P && (int)S.get_number_poses() == T, "counts"); c.ok((int)pp.size() == P && (int)pl.size() == P, "number-planes", fmt("%d and %d", (int)pp.size(), (int)pl.size())); c.ok((int)gt.size() == T, "number-poses", fmt("%d", (int)gt.size())); if (c.nviol) return;
    // trajectory
    c.same(Eigen::MatrixXd(gt[0].T()), I4(), "trajectory-start"); for (auto &g : gt) validp(c, g.T(), "ground-truth-not-rigid"); for (auto &g : pp) validp(c, g.T(), "plane-pose-not-rigid"); if (c.nviol) return;
    { M4 last = lm(gt[T - 1].T()); M3 Ro = orth(rot(last)); V3 tl = tra(last); V6 xi = log6(mk(Ro, tl)); L w = xi.head<3>().norm(); if (T > 1) { for (int k = 0; k < 3; ++k) { if (w < 3.1L) c.bound((double)std::fabs(xi(k)), M_PI / std::sqrt(3) * (1 + 1e-6), "final-rotation-range"); if (w < 3.1L) c.bound((double)std::fabs(xi(3 + k)), 1 + 1e-6, "final-translation-range"); } c.ok(w > 1e-4L || tl.norm() > 1e-4L, "trajectory-does-not-move"); }
      if (w < 3.1L) for (int t = 0; t < T; ++t) { M4 e = exp6(V6(xi * (T > 1 ? (L)t / (T - 1) : 0))); c.bound((double)(e - lm(gt[t].T())).cwiseAbs().maxCoeff(), (w > 3 ? 1e-7 / (3.1416 - (double)w) : 1e-10), "trajectory-not-interpolated", [&] { return fmt("time %d", t); }); } else c.seen("half-turn-not-judged"); }
    c.same(Eigen::MatrixXd(S.get_ground_truth_last_pose().T()), Eigen::MatrixXd(gt[T - 1].T()), "last-pose"); { int t = r.i(0, T - 1); c.same(Eigen::MatrixXd(S.get_ground_truth_pose(t).T()), Eigen::MatrixXd(gt[t].T()), "pose-at-time"); }
    for (int m = 0; m < P; ++m) { Eigen::MatrixXd X = pp[m].T(); c.mark(X); c.ok(X.topRightCorner(3, 1).norm() <= 4 * std::sqrt(3.0) * (1 + 1e-12), "plane-translation-range"); c.ok((int)pl[m].first == m, "plane-id"); if (m) c.ok((X - Eigen::MatrixXd(pp[m - 1].T())).cwiseAbs().maxCoeff() > 1e-9, "planes-repeated"); }
    // points
    std::vector<std::vector<D3>> seen(P * T); Stat z, xs, bx; std::vector<int> share(P);
    std::vector<M4> Pi(P); for (int m = 0; m < P; ++m) Pi[m] = inv(M4(lm(pp[m].T())));
    for (int t = 0; t < T; ++t) {
        auto &X = S.get_point_cloud(t); auto &id = S.get_point_plane_ids(t); c.ok((int)X.size() == N, "points-per-pose", fmt("%d", (int)X.size())); c.ok((int)id.size() == N, "ids-per-pose", fmt("%d", (int)id.size())); if (c.nviol) return; std::fill(share.begin(), share.end(), 0); M4 Tt = lm(gt[t].T()); Stat x, y;
        for (int i = 0; i < N; ++i) {
            if ((int)id[i] >= P) { c.viol("plane-id-out-of-range", fmt("point %d id %u", i, id[i])); return; } share[id[i]]++; seen[id[i] * T + t].push_back(X[i]); V3 q = act(Pi[id[i]], act(Tt, V3(lv(D3(X[i]))))); z.add((double)q(2)); x.add((double)q(0)); y.add((double)q(1)); xs.add((double)q(0));
            c.bound((double)std::fabs(q(2)), 8 * noise + 1e-12, "point-off-plane", [&] { return fmt("time %d point %d plane %u distance %.3g", t, i, id[i], (double)q(2)); }); if (bias == 0) { c.bound((double)std::fabs(q(0)), 1 + 1e-12, "point-beyond-extent"); c.bound((double)std::fabs(q(1)), 1 + 1e-12, "point-beyond-extent"); } else { c.bound((double)std::fabs(q(0)), 1 + 8 * bias, "point-beyond-biased-extent"); c.bound((double)std::fabs(q(1)), 1 + 8 * bias, "point-beyond-biased-extent"); }
        }
        if (N) { c.bound(x.hi - x.lo, 2 + 1e-12, "extent"); c.bound(y.hi - y.lo, 2 + 1e-12, "extent"); bx.add(x.mean()); bx.add(y.mean()); if (N >= 400) { c.bound(std::fabs(x.sd() - std::sqrt(1.0 / 3)), 8 * 0.26 / std::sqrt(N), "spread-over-plane"); c.bound(std::fabs(y.sd() - std::sqrt(1.0 / 3)), 8 * 0.26 / std::sqrt(N), "spread-over-plane"); if (bias == 0) { c.bound(std::fabs(x.mean()), 8 * 0.578 / std::sqrt(N), "centre"); c.bound(std::fabs(y.mean()), 8 * 0.578 / std::sqrt(N), "centre"); } } }
        int lo = *std::min_element(share.begin(), share.end()), hi = *std::max_element(share.begin(), share.end()); c.ok(hi - lo <= 1, "shares-not-balanced", fmt("between %d and %d", lo, hi));
    }
    for (int m = 0; m < P; ++m) { int tot = 0; for (int t = 0; t < T; ++t) { auto &q = pl[m].second->get_points(t); tot += q.size(); bool eq = q.size() == seen[m * T + t].size(); std::vector<Key> a, b; for (auto &s : q) a.push_back(key(s)); for (auto &s : seen[m * T + t]) b.push_back(key(s)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.ok(a == b, "plane-data-differs", fmt("plane %d time %d: %d points, expected %d", m, t, (int)a.size(), (int)b.size())); c.ok(pl[m].second->get_number_points(t) == q.size(), "plane-count"); if (a.size() > 1) c.ok(std::unique(a.begin(), a.end()) == a.end(), "points-repeated"); } c.ok((int)pl[m].second->get_total_number_points() == tot, "plane-total"); if (c.nviol) return; }
    if (z.n >= 400 && noise > 0) { c.bound(std::fabs(z.sd() / noise - 1), 8 / std::sqrt(2 * z.n) + 1e-9 / noise, "noise-spread", [&] { return fmt("%.4g requested %.4g over %g points", z.sd(), noise, z.n); }); c.bound(std::fabs(z.mean()) / noise, 8 / std::sqrt(z.n) + 1e-9 / noise, "noise-mean"); c.seen("noise-statistics"); }
    if (T >= 100 && N >= 20 && bias > 0.2) { double e = std::sqrt(bias * bias + 1.0 / 3 / N); c.bound(std::fabs(bx.sd() / e - 1), 8 / std::sqrt(2 * bx.n), "bias-spread", [&] { return fmt("%.4g requested %.4g", bx.sd(), bias); }); c.seen("bias-statistics"); }
    if (T >= 100 && N >= 20 && bias == 0) c.bound(bx.sd(), 2.0 / std::sqrt(3.0 * N), "no-bias-spread");
    c.seen("points", (uint64_t)N * T); c.seen("scenes"); S.print();
    // hand over, possibly several times and after use
    mrob::PlaneRegistration R; transfer(c, S, R, N, P, T); if (c.nviol) return; if (T > 1 && N >= 3 && r.p(0.5)) { mrob::Mat61 x = twist(r, 1.0, 1); mrob::SE3 last(x); R.set_last_pose(last); R.solve(mrob::PlaneRegistration::LM_SPHER); R.get_current_error(); transfer(c, S, R, N, P, T); c.seen("transfer-after-use"); } if (r.p(0.3)) { mrob::PlaneRegistration R2; transfer(c, S, R2, N, P, T); }
}
SCENARIO(small, 10) { Rng &r = c.r; int P = r.i(1, 8); int N = r.p(0.1) ? r.i(0, P) : r.i(1, 120); scene(c, N, P, r.p(0.15) ? 1 : r.i(2, 8), r.p(0.35) ? 0 : r.logu(1e-6, 1), r.p(0.35) ? 0 : r.logu(1e-4, 2)); }
SCENARIO(large, 2) { Rng &r = c.r; scene(c, r.i(400, 1500), r.i(1, 40), r.i(1, 4), r.p(0.3) ? 0 : r.logu(1e-6, 1), r.p(0.4) ? 0 : r.logu(1e-4, 2)); }
SCENARIO(long_trajectory, 1) { Rng &r = c.r; scene(c, r.i(20, 40), r.i(1, 5), r.i(100, 200), r.p(0.3) ? 0 : r.logu(1e-6, 1), r.p(0.4) ? 0 : r.u(0.21, 2)); }
SCENARIO(defaults, 1) { scene(c, 10, 4, 2, 0.01, 0.1, true); }
SCENARIO(huge, 1) { // more points than single precision can count; only once in a quick run
    static int done = 0; uint64_t k = c.idx / 15; if (k >= (c.thorough ? 8u : 1u)) c.skip(); (void)done; Rng &r = c.r; int N = (1 << 24) + r.i(1, 9), P = k == 0 ? 3 : r.i(2, 9); Clock ck(r); c.note = fmt("%d points %d planes", N, P); mrob::CreatePoints S(N, P, 1, 0.01, 0.1); auto &id = S.get_point_plane_ids(0); c.ok((int)id.size() == N, "ids-per-pose"); std::vector<int> share(P); for (auto x : id) { if ((int)x >= P) { c.viol("plane-id-out-of-range", fmt("id %u", x)); return; } share[x]++; } int lo = *std::min_element(share.begin(), share.end()), hi = *std::max_element(share.begin(), share.end()); c.ok(hi - lo <= 1, "shares-not-balanced", fmt("between %d and %d", lo, hi)); for (int m = 0; m < P; ++m) c.ok((int)S.get_all_planes()[m].second->get_total_number_points() == share[m], "plane-total"); c.mark((double)N); c.seen("huge-scenes");
}
static void range(Case &c, Stat &s, double lo, double hi, const char *k, bool spread) { double w = hi - lo, m = std::max(std::fabs(lo), std::fabs(hi)); c.bound(std::max(0.0, std::max(lo - s.lo, s.hi - hi)), 1e-6 * w + 1e-9 * m + 1e-300, std::string(k) + "-out-of-range", [&] { return fmt("[%.9g, %.9g] requested [%.9g, %.9g]", s.lo, s.hi, lo, hi); }); if (spread && s.n >= 500) { c.ok(s.lo < lo + 0.1 * w && s.hi > hi - 0.1 * w, std::string(k) + "-range-not-covered", fmt("[%.9g, %.9g] requested [%.9g, %.9g]", s.lo, s.hi, lo, hi)); c.bound(std::fabs(s.mean() - (lo + hi) / 2), 8 * w / std::sqrt(12 * s.n), std::string(k) + "-mean"); } }
SCENARIO(pose_sampler, 6) {
    Rng &r = c.r; Clock ck(r); bool sym = r.p(0.5); double Rm = r.logu(1e-3, 1.75), tm = r.logu(1e-3, 1e3), a = -Rm, b = Rm, ta = -tm, tb = tm; if (!sym) { a = r.u(-Rm, Rm); b = r.u(a, Rm); ta = r.u(-tm, tm); tb = r.u(ta, tm); if (!(a < b && ta < tb)) c.skip(); } c.note = fmt("rotation [%.9g, %.9g] translation [%.9g, %.9g]%s", a, b, ta, tb, sym ? " symmetric" : ""); double pr[4] = {a, b, ta, tb}; c.mark(pr, sizeof pr);
    mrob::SampleUniformSE3 S = sym ? mrob::SampleUniformSE3(Rm, tm) : mrob::SampleUniformSE3(a, b, ta, tb); int n = 500; Stat st[6], sp[3], so[3]; std::vector<D3> ps, os, rs; double wm = std::sqrt(3.0) * std::max(std::fabs(a), std::fabs(b)); Eigen::MatrixXd prev;
    for (int k = 0; k < n; ++k) { Eigen::MatrixXd T = S.samplePose().T(); validp(c, T, "sampled-pose-not-rigid"); if (c.nviol) return; c.ok(!k || T != prev, "sample-repeated"); prev = T; M4 Tl = lm(mrob::Mat4(T)); M3 Ro = orth(rot(Tl)); V3 tl = tra(Tl); V6 xi = log6(mk(Ro, tl)); for (int i = 0; i < 6; ++i) st[i].add((double)xi(i)); mrob::Mat31 p = S.samplePosition(); for (int i = 0; i < 3; ++i) sp[i].add(p(i)); ps.push_back(p); rs.push_back(dm(MX(xi.head<3>()))); M3 O = orth(lm(S.sampleOrientation().R())); V3 w = log3(O); for (int i = 0; i < 3; ++i) so[i].add((double)w(i)); os.push_back(dm(MX(w))); }
    auto independent = [&](const std::vector<D3> &v, const char *k) { for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; double n = v.size(), a = 0, b = 0, ab = 0, aa = 0, bb = 0; for (auto &q : v) { a += q(i) / n; b += q(j) / n; } for (auto &q : v) { ab += (q(i) - a) * (q(j) - b); aa += (q(i) - a) * (q(i) - a); bb += (q(j) - b) * (q(j) - b); } c.bound(std::fabs(ab / std::sqrt(aa * bb)), 8 / std::sqrt(n), std::string(k) + "-coordinates-correlated", [&] { return fmt("coordinates %d and %d: %.3g", i, j, ab / std::sqrt(aa * bb)); }); } c.seen("independence-tests"); };
    independent(ps, "position"); if (wm < 3.05) { if (b - a > 1e-4 * wm) { independent(rs, "pose-rotation"); independent(os, "orientation"); } }
    for (int i = 0; i < 3; ++i) { range(c, sp[i], ta, tb, "position", true); if (wm < 3.05) { range(c, st[i], a, b, "pose-rotation", true); range(c, st[3 + i], ta, tb, "pose-translation", true); range(c, so[i], a, b, "orientation", true); } else c.seen("wide-rotations-not-judged"); } c.seen("pose-samples", n);
}
SCENARIO(surface_sampler, 6) {
    Rng &r = c.r; Clock ck(r); double zs = r.p(0.3) ? 0 : r.logu(1e-6, 10), bs = r.p(0.3) ? 0 : r.logu(1e-6, 10); bool one = r.p(0.3); if (one) bs = 0; c.note = fmt("deviation %.6g bias %.6g", zs, bs); double pr[2] = {zs, bs}; c.mark(pr, sizeof pr); mrob::SamplePlanarSurface S = one ? mrob::SamplePlanarSurface(zs) : mrob::SamplePlanarSurface(zs, bs); Stat x, y, z, bias; int n = 500;
    double bx = 0; for (int k = 0; k < n; ++k) { mrob::Mat31 p = S.samplePoint(); x.add(p(0)); y.add(p(1)); z.add(p(2)); } range(c, x, -1, 1, "x-before-bias", true); range(c, y, -1, 1, "y-before-bias", true); if (zs == 0) c.ok(z.lo == 0 && z.hi == 0, "noise-free-height"); else { c.bound(std::fabs(z.sd() / zs - 1), 8 / std::sqrt(2.0 * n), "height-spread"); c.bound(std::fabs(z.mean()) / zs, 8 / std::sqrt(n), "height-mean"); c.bound(std::max(-z.lo, z.hi) / zs, 8, "height-tail"); }
    for (int k = 0; k < 120; ++k) { S.sampleBias(); Stat u, v; for (int i = 0; i < 8; ++i) { mrob::Mat31 p = S.samplePoint(); u.add(p(0)); v.add(p(1)); } c.bound(u.hi - u.lo, 2 + 1e-9, "bias-not-common"); c.bound(v.hi - v.lo, 2 + 1e-9, "bias-not-common"); bias.add(u.mean()); bias.add(v.mean()); c.bound(std::max(std::max(std::fabs(u.lo), u.hi), std::max(std::fabs(v.lo), v.hi)), 1 + 8 * bs + 1e-9, "bias-range"); } double e = std::sqrt(bs * bs + 1.0 / 24); c.bound(std::fabs(bias.sd() / e - 1), 8 / std::sqrt(2 * bias.n), "bias-deviation"); c.seen("surface-samples", n + 960);
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
