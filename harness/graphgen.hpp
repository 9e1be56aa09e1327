// Abstract factor graphs: random problems, a builder that creates them in the real library
// (any creation order), and an independent long-double model of residuals, perturbations,
// robust weights and normal equations.
#ifndef VERIF_GRAPHGEN_HPP
#define VERIF_GRAPHGEN_HPP
#include <memory>
#include <set>
#include "ref.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
namespace gg {
using namespace ref;
typedef std::shared_ptr<mrob::Node> NP; typedef std::shared_ptr<mrob::Factor> FP;
enum NK { P2, L2, P3, L3, PL };
enum FK { F1P2, F2P2, FODO, FPL2, F1P3, F2P3, FPL3, FPPL };
static const char *FKN[] = {"1Pose2d", "2Poses2d", "2Poses2dOdom", "Pose1Landmark2d", "1Pose3d", "2Poses3d", "Pose1Landmark3d", "Pose1Plane4d"};
static const char *NKN[] = {"Pose2d", "Landmark2d", "Pose3d", "Landmark3d", "Plane4d"};
inline int ndim(NK k) { int d[] = {3, 2, 6, 3, 4}; return d[k]; }
inline int fdim(FK k) { int d[] = {3, 3, 3, 2, 6, 6, 3, 4}; return d[k]; }
inline bool unary(FK k) { return k == F1P2 || k == F1P3; }

struct NodeS { NK k; MX x; bool anchor = false; MX truth; };         // x: state as given to the library
struct FacS { FK k; int a, b; MX z; MX W; int robust = 0; int ctor = 0; };   // a: pose/origin, b: target/landmark (unary: -1)
struct Spec { std::vector<NodeS> n; std::vector<FacS> f; };

// ---------------------------------------------------------------- reference model
// residual element: vector, or rigid transform whose log is the residual
struct Res { bool grp = false; M4 T; VX v; };
inline M4 m4(const MX &x) { return M4(x); }
inline Res element(const FacS &f, const MX &a, const MX &b) {
    Res r; VX v;
    switch (f.k) {
        case F1P2: v = a - f.z; v(2) = wrap(v(2)); break;
        case F2P2: { L c = std::cos(a(2)), s = std::sin(a(2)), dx = b(0) - a(0), dy = b(1) - a(1); v.resize(3); v << c * dx + s * dy - f.z(0), -s * dx + c * dy - f.z(1), wrap(b(2) - a(2) - f.z(2)); break; }
        case FODO: { L t = a(2) + f.z(0); v.resize(3); v << a(0) + f.z(1) * std::cos(t) - b(0), a(1) + f.z(1) * std::sin(t) - b(1), wrap(t + f.z(2) - b(2)); break; }
        case FPL2: { L dx = b(0) - a(0), dy = b(1) - a(1); v.resize(2); v << std::sqrt(dx * dx + dy * dy) - f.z(0), wrap(std::atan2(dy, dx) - a(2) - f.z(1)); break; }
        case F1P3: r.grp = true; r.T = m4(a) * inv(m4(f.z)); break;
        case F2P3: r.grp = true; r.T = m4(a) * m4(f.z) * inv(m4(b)); break;
        case FPL3: v = act(inv(m4(a)), V3(b)) - f.z; break;
        case FPPL: { V4 z = f.z; z.head<3>() /= z.head<3>().norm(); if (z(3) < 0) z = -z; M4 T = m4(a); V4 p = T.transpose() * V4(b); v = p(3) < 0 ? V4(p + z) : V4(p - z); break; }
    }
    r.v = v; if (r.grp) r.v = log6(r.T); return r;
}
inline bool angular(FK k, int i) { return ((k == F1P2 || k == F2P2 || k == FODO) && i == 2) || (k == FPL2 && i == 1); }
// the library's perturbation of a node for linearisation
inline MX perturb(NK k, const MX &x, const VX &d) { if (k == P3) return exp6(V6(d)) * m4(x); return x + d; }
// the node's update rule
inline MX retract(NK k, const MX &x, const VX &d) {
    MX y = perturb(k, x, d); if (k == P2) y(2) = wrap(y(2)); if (k == PL) { V3 n = y.topRows(3); y.topRows(3) = n / n.norm(); } return y;
}
inline MX numjac(const FacS &f, const MX &a, const MX &b, NK ka, NK kb, int which) {
    NK k = which ? kb : ka; int n = ndim(k), m = fdim(f.k); MX J(m, n); Res r0 = element(f, a, b); L sc = 1;
    if (f.k == FPL2) { L q = std::sqrt((b(0) - a(0)) * (b(0) - a(0)) + (b(1) - a(1)) * (b(1) - a(1))); sc = std::min((L)1, q); }
    L h = 2e-6L * sc;
    for (int j = 0; j < n; ++j) {
        VX d = VX::Zero(n); d(j) = h; MX ap = a, am = a, bp = b, bm = b; if (which) { bp = perturb(k, b, d); bm = perturb(k, b, -d); } else { ap = perturb(k, a, d); am = perturb(k, a, -d); }
        Res p = element(f, ap, bp), q = element(f, am, bm);
        if (r0.grp) { M4 i0 = inv(r0.T); VX u = log6(M4(p.T * i0)), w = log6(M4(q.T * i0)); J.col(j) = (u - w) / (2 * h); }
        else { VX u = p.v - q.v; for (int i = 0; i < m; ++i) if (angular(f.k, i)) u(i) = wrap(u(i)); J.col(j) = u / (2 * h); }
    }
    return J;
}
inline L chi2ref(const FacS &f, const VX &r) { return 0.5L * r.dot(f.W * r); }
inline L weight(int robust, L u) { switch (robust) { case 1: return u < 1 ? 1 : 1 / u; case 2: return 1 / (1 + u * u); case 3: return 1 / ((1 + u * u) * (1 + u * u)); case 4: return u < 1 ? 1 : 0; } return 1; }

// ---------------------------------------------------------------- building the real thing
inline mrob::Node::nodeMode mode(bool a) { return a ? mrob::Node::ANCHOR : mrob::Node::STANDARD; }
inline NP mknode(const NodeS &n) {
    Eigen::MatrixXd x = dm(n.x);
    switch (n.k) {
        case P2: return std::make_shared<mrob::NodePose2d>(mrob::Mat31(x), mode(n.anchor)); case L2: return std::make_shared<mrob::NodeLandmark2d>(mrob::Mat21(x), mode(n.anchor));
        case P3: return std::make_shared<mrob::NodePose3d>(mrob::SE3(mrob::Mat4(x)), mode(n.anchor)); case L3: return std::make_shared<mrob::NodeLandmark3d>(mrob::Mat31(x), mode(n.anchor));
        default: return std::make_shared<mrob::NodePlane4d>(mrob::Mat41(x), mode(n.anchor));
    }
}
inline FP mkfac(const FacS &f, NP a, NP b, bool init = false) {
    using namespace mrob; Eigen::MatrixXd z = dm(f.z), W = dm(f.W); auto rb = (Factor::robustFactorType)f.robust;
    switch (f.k) {
        case F1P2: return std::make_shared<Factor1Pose2d>(Mat31(z), a, Mat3(W), rb); case F2P2: return std::make_shared<Factor2Poses2d>(Mat31(z), a, b, Mat3(W), init, rb);
        case FODO: return std::make_shared<Factor2Poses2dOdom>(Mat31(z), a, b, Mat3(W), init, rb); case FPL2: return std::make_shared<Factor1Pose1Landmark2d>(Mat21(z), a, b, Mat2(W), init, rb);
        case F1P3: if (f.ctor) return std::make_shared<Factor1Pose3d>(Mat4(z), a, Mat6(W), rb); return std::make_shared<Factor1Pose3d>(SE3(Mat4(z)), a, Mat6(W), rb);
        case F2P3: if (f.ctor) return std::make_shared<Factor2Poses3d>(Mat4(z), a, b, Mat6(W), init, rb); return std::make_shared<Factor2Poses3d>(SE3(Mat4(z)), a, b, Mat6(W), init, rb);
        case FPL3: return std::make_shared<Factor1Pose1Landmark3d>(Mat31(z), a, b, Mat3(W), init, rb); default: return std::make_shared<Factor1Pose1Plane4d>(Mat41(z), a, b, Mat4(W), rb);
    }
}
template <class G> struct Built {
    std::shared_ptr<G> g; std::vector<NP> n; std::vector<FP> f; std::vector<int> nid, fid;     // by abstract index
    std::vector<int> norder, forder;                                                            // abstract index by id
};
// op sequence: node i >=0 ; factor j as -1-j
inline std::vector<int> creation(const Spec &s, mon::Rng &r, int how = -1) {
    if (how < 0) how = r.i(0, 3);
    std::vector<int> nn, ff, o; for (int i = 0; i < (int)s.n.size(); ++i) nn.push_back(i); for (int j = 0; j < (int)s.f.size(); ++j) ff.push_back(j);
    if (how >= 1) { r.shuffle(nn); r.shuffle(ff); }
    if (how <= 1) { o = nn; for (int j : ff) o.push_back(-1 - j); return o; }
    std::vector<char> have(s.n.size()), done(s.f.size());                              // interleaved: factors as soon as / some time after possible
    for (int i : nn) { o.push_back(i); have[i] = 1; for (int j : ff) if (!done[j] && have[s.f[j].a] && (s.f[j].b < 0 || have[s.f[j].b]) && (how == 2 || r.p(0.5))) { o.push_back(-1 - j); done[j] = 1; } }
    for (int j : ff) if (!done[j]) o.push_back(-1 - j);
    return o;
}
template <class G> Built<G> build(const Spec &s, const std::vector<int> &ops) {
    Built<G> B; B.g = std::make_shared<G>(); B.n.resize(s.n.size()); B.f.resize(s.f.size()); B.nid.assign(s.n.size(), -1); B.fid.assign(s.f.size(), -1);
    for (int o : ops) {
        if (o >= 0) { B.n[o] = mknode(s.n[o]); B.nid[o] = (int)B.g->add_node(B.n[o]); B.norder.push_back(o); }
        else { int j = -1 - o; auto &f = s.f[j]; B.f[j] = mkfac(f, B.n[f.a], f.b >= 0 ? B.n[f.b] : NP()); B.fid[j] = (int)B.g->add_factor(B.f[j]); B.forder.push_back(j); }
    }
    return B;
}
inline Eigen::MatrixXd state(const NP &n) { return Eigen::MatrixXd(n->get_state()); }
template <class G> std::vector<MX> states(const Built<G> &B) { std::vector<MX> v; for (auto &n : B.n) v.push_back(n ? lm(n->get_state()) : MX(MX::Zero(1, 1))); return v; }

// ---------------------------------------------------------------- reference normal equations
struct Sys { MX A, W, H; VX r, b; L chi2 = 0; std::vector<L> fchi2, u; std::vector<int> col, row; int N = 0, M = 0; };
inline Sys assemble(const Spec &s, const std::vector<MX> &x, const std::vector<int> &norder, const std::vector<int> &forder, bool robust = true) {
    Sys y; y.col.assign(s.n.size(), -1); y.row.assign(s.f.size(), -1); y.fchi2.assign(s.f.size(), 0); y.u.assign(s.f.size(), 0);
    for (int i : norder) if (!s.n[i].anchor) { y.col[i] = y.N; y.N += ndim(s.n[i].k); }
    for (int j : forder) { y.row[j] = y.M; y.M += fdim(s.f[j].k); }
    y.A = MX::Zero(y.M, y.N); y.W = MX::Zero(y.M, y.M); y.r = VX::Zero(y.M);
    static const MX none;
    for (int j : forder) {
        auto &f = s.f[j]; const MX &a = x[f.a], &b = f.b >= 0 ? x[f.b] : none; NK kb = f.b >= 0 ? s.n[f.b].k : P2; int m = fdim(f.k), q = y.row[j];
        VX r = element(f, a, b).v; y.r.segment(q, m) = r; y.fchi2[j] = chi2ref(f, r); y.chi2 += y.fchi2[j]; y.u[j] = std::sqrt(y.fchi2[j]);
        y.W.block(q, q, m, m) = f.W * (robust ? weight(f.robust, y.u[j]) : 1);
        if (y.col[f.a] >= 0) y.A.block(q, y.col[f.a], m, ndim(s.n[f.a].k)) = numjac(f, a, b, s.n[f.a].k, kb, 0);
        if (f.b >= 0 && y.col[f.b] >= 0) y.A.block(q, y.col[f.b], m, ndim(kb)) = numjac(f, a, b, s.n[f.a].k, kb, 1);
    }
    y.H = MX::Zero(y.N, y.N); y.b = VX::Zero(y.N);
    for (int j : forder) {
        auto &f = s.f[j]; int m = fdim(f.k), q = y.row[j]; MX W = y.W.block(q, q, m, m); int nd[2] = {f.a, f.b};
        for (int u = 0; u < 2; ++u) if (nd[u] >= 0 && y.col[nd[u]] >= 0) { int cu = y.col[nd[u]], du = ndim(s.n[nd[u]].k); MX Ju = y.A.block(q, cu, m, du); y.b.segment(cu, du) += Ju.transpose() * (W * y.r.segment(q, m)); for (int v = 0; v < 2; ++v) if (nd[v] >= 0 && y.col[nd[v]] >= 0) { int cv = y.col[nd[v]], dv = ndim(s.n[nd[v]].k); MX Jv = y.A.block(q, cv, m, dv); y.H.block(cu, cv, du, dv) += Ju.transpose() * W * Jv; } }
    }
    return y;
}
inline L refchi2(const Spec &s, const std::vector<MX> &x) { static const MX none; L c = 0; for (auto &f : s.f) c += chi2ref(f, element(f, x[f.a], f.b >= 0 ? x[f.b] : none).v); return c; }
// distance from the places where the model is not differentiable / the log is inaccurate
inline L margin(const Spec &s, const std::vector<MX> &x) {
    static const MX none; L g = 1;
    for (auto &f : s.f) {
        const MX &a = x[f.a], &b = f.b >= 0 ? x[f.b] : none; Res r = element(f, a, b);
        if (r.grp) g = std::min(g, PI - r.v.head(3).norm());
        for (int i = 0; i < r.v.size(); ++i) if (angular(f.k, i)) g = std::min(g, PI - std::fabs(r.v(i)));
        if (f.k == FPL2) g = std::min(g, std::hypot(b(0) - a(0), b(1) - a(1)));
        if (f.k == FPPL) { V4 p = m4(a).transpose() * V4(b); g = std::min(g, std::fabs(p(3))); }
        if (f.robust == 1 || f.robust == 4) { L u = std::sqrt(chi2ref(f, r.v)); g = std::min(g, std::fabs(u - 1) * 1e-3L + 1e-4L * (f.robust == 1) + (std::fabs(u - 1) > 1e-9L) * 1e-3L); }
    }
    return g;
}
// solution of the scaled system, with its condition number
struct Step { VX dx; VX D; L cond; L sn; };
inline Step solve(const MX &H, const VX &b) {
    Step s; int n = (int)H.rows(); s.D.resize(n); for (int i = 0; i < n; ++i) s.D(i) = H(i, i) > 0 ? std::sqrt(H(i, i)) : 1;
    MX S(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) S(i, j) = H(i, j) / s.D(i) / s.D(j);
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(dm(MX((S + S.transpose()) / 2)), Eigen::EigenvaluesOnly); double lo = es.eigenvalues()(0), hi = es.eigenvalues()(n - 1);
    s.cond = lo > 0 ? hi / lo : INFINITY; VX c = b.cwiseQuotient(s.D); VX y = S.ldlt().solve(c); s.sn = y.norm(); s.dx = y.cwiseQuotient(s.D); return s;
}
inline double logtol(double gap) { return gap < 1e-5 ? 1e-6 : 5e-14 + 1e-14 / gap; }   // accuracy of the pose logarithm (regeneration)
inline double gapof(const MX &T) { return (double)(PI - log3(rot(m4(T))).norm()); }

// ---------------------------------------------------------------- random problems
struct Opt {
    int mode = -1;            // 0: 2-D, 1: 3-D, 2: both
    int maxposes = 6, maxland = 3;
    double noise = 0;         // observation noise
    double init = 0;          // perturbation of the initial states
    bool kernels = false;     // random robust kernels
    bool planes = true; bool odom = true;
    double wscale = 2;        // decades of information
    double angle = 3.141592653589793; double size = 5;
    double anchors = 0.25;    // extra anchors
    bool planeAnchored = false;
    bool large = false; int busy = 0; double wall = 1;   // wall: common factor of all information matrices
    // sometimes another scale of the scene, sometimes (rarely) a graph of dozens of nodes
    void spread(mon::Rng &r, bool thorough, double plarge = 0.004) { if (r.p(0.12)) size = r.logu(0.5, 300); if (r.p(0.12)) wall = r.logu(1e-6, 1e6); if (r.p(0.008)) busy = r.i(40, 300); if (r.p(thorough ? 2 * plarge : plarge)) { large = true; maxposes = r.i(20, 36); maxland = 8; } else if (r.p(0.05)) maxposes = std::max(maxposes, 12); }
};
inline MX spd(mon::Rng &r, int n, double decades) {
    Eigen::MatrixXd F(n, n); for (int i = 0; i < n * n; ++i) F.data()[i] = r.g(); int k = r.i(0, 3);
    Eigen::MatrixXd S = k == 0 ? Eigen::MatrixXd::Identity(n, n) : Eigen::MatrixXd(F * F.transpose() / n + 0.3 * Eigen::MatrixXd::Identity(n, n));
    if (k == 1) { Eigen::VectorXd d(n); for (int i = 0; i < n; ++i) d(i) = r.u(0.3, 3); S = d.asDiagonal(); }
    S *= std::pow(10.0, r.u(-decades, decades)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) S(i, j) = S(j, i);
    return lm(S);
}
inline MX dbl(const MX &x) { return lm(dm(x)); }      // round to double
inline VX gauss(mon::Rng &r, int n, double s) { VX v(n); for (int i = 0; i < n; ++i) v(i) = s > 0 ? s * r.g() : 0; return v; }
inline MX perfect(const FacS &f, const MX &a, const MX &b) {
    switch (f.k) {
        case F1P2: case F1P3: return a;
        case F2P2: { L c = std::cos(a(2)), s = std::sin(a(2)), dx = b(0) - a(0), dy = b(1) - a(1); VX z(3); z << c * dx + s * dy, -s * dx + c * dy, wrap(b(2) - a(2)); return z; }
        case FODO: { L dx = b(0) - a(0), dy = b(1) - a(1), d = std::hypot(dx, dy), al = std::atan2(dy, dx); VX z(3); z << wrap(al - a(2)), d, wrap(b(2) - al); return z; }
        case FPL2: { L dx = b(0) - a(0), dy = b(1) - a(1); VX z(2); z << std::hypot(dx, dy), wrap(std::atan2(dy, dx) - a(2)); return z; }
        case F2P3: return inv(m4(a)) * m4(b);
        case FPL3: return act(inv(m4(a)), V3(b));
        default: { V4 p = m4(a).transpose() * V4(b); return p; }
    }
}
inline MX noisy(mon::Rng &r, const FacS &f, const MX &z, double s) {
    if (s <= 0) return dbl(z); if (f.k == F1P3 || f.k == F2P3) return dbl(exp6(V6(gauss(r, 6, s))) * m4(z));
    MX y = z + gauss(r, (int)z.rows(), s); if (f.k == FPPL) { V3 n = y.topRows(3); y.topRows(3) = n / n.norm(); } return dbl(y);
}
// a busy node: dozens to hundreds of factors on it, repeated observations of the same neighbours among them
inline void hub(Spec &s, mon::Rng &r, int n) {
    if (s.f.empty()) return; const FacS f0 = s.f[r.i(0, (int)s.f.size() - 1)]; std::vector<FacS> on; for (auto &f : s.f) if (f.a == f0.a || f.b == f0.a) on.push_back(f);
    for (int t = 0; t < n; ++t) { FacS f = on[r.i(0, (int)on.size() - 1)]; f.W = dbl(MX(f.W * (L)r.logu(0.1, 1))); s.f.push_back(f); }
}
inline Spec gen(mon::Rng &r, const Opt &o) {
    Spec s; int mode = o.mode < 0 ? r.i(0, 2) : o.mode;
    auto node = [&](NK k, const MX &truth) { NodeS n; n.k = k; n.truth = dbl(truth); s.n.push_back(n); return (int)s.n.size() - 1; };
    auto fac = [&](FK k, int a, int b) {
        FacS f; f.k = k; f.a = a; f.b = b; f.W = spd(r, fdim(k), o.wscale); if (o.wall != 1) f.W = dbl(MX(f.W * (L)o.wall)); f.robust = o.kernels ? r.i(0, 3) : 0; f.ctor = r.i(0, 1); static const MX none;
        f.z = perfect(f, s.n[a].truth, b >= 0 ? s.n[b].truth : none); if (k == FPPL && f.z(3) < 0) f.z = -f.z; f.z = noisy(r, f, f.z, o.noise); s.f.push_back(f); };
    if (mode != 1) {
        int np = r.i(1, o.maxposes), first = (int)s.n.size(); 
        for (int i = 0; i < np; ++i) { VX x(3); x << r.u(-1, 1) * o.size, r.u(-1, 1) * o.size, r.u(-1, 1) * std::min(o.angle, 3.14159); node(P2, x); }
        bool anch = r.p(0.5); if (anch) s.n[first + r.i(0, np - 1)].anchor = true; if (!anch || r.p(0.3)) fac(F1P2, first + r.i(0, np - 1), -1);
        for (int i = 1; i < np; ++i) { int j = r.p(0.7) ? i - 1 : r.i(0, i - 1); int a = first + j, b = first + i; if (r.p(0.3)) std::swap(a, b); fac(o.odom && r.p(0.35) ? FODO : F2P2, a, b); }
        for (int k = r.i(0, 2); k > 0 && np > 1; --k) { int a = r.i(0, np - 1), b = r.i(0, np - 1); if (a != b) fac(r.p(0.7) ? F2P2 : o.odom ? FODO : F2P2, first + a, first + b); }
        for (int k = r.i(0, o.maxland); k > 0; --k) { VX x(2); x << r.u(-1, 1) * o.size, r.u(-1, 1) * o.size; int l = node(L2, x); int c = 0; for (int i = 0; i < np; ++i) if (r.p(0.6) || (i == np - 1 && !c)) { if ((s.n[first + i].truth.topRows(2) - x).norm() < 0.3) continue; fac(FPL2, first + i, l); ++c; } if (!c) s.n.pop_back(); else if (r.p(o.anchors)) s.n[l].anchor = true; }
        if (r.p(o.anchors)) s.n[first + r.i(0, np - 1)].anchor = true;
    }
    if (mode != 0) {
        int np = r.i(1, o.maxposes), first = (int)s.n.size();
        for (int i = 0; i < np; ++i) node(P3, MX(lm(pose(r, std::min(o.angle, 3.1), o.size))));
        bool anch = r.p(0.5); if (anch) s.n[first + r.i(0, np - 1)].anchor = true; if (!anch || r.p(0.3)) fac(F1P3, first + r.i(0, np - 1), -1);
        for (int i = 1; i < np; ++i) { int j = r.p(0.7) ? i - 1 : r.i(0, i - 1); int a = first + j, b = first + i; if (r.p(0.3)) std::swap(a, b); fac(F2P3, a, b); }
        for (int k = r.i(0, 2); k > 0 && np > 1; --k) { int a = r.i(0, np - 1), b = r.i(0, np - 1); if (a != b) fac(F2P3, first + a, first + b); }
        for (int k = r.i(0, o.maxland); k > 0; --k) { int l = node(L3, MX(lm(tvec(r, o.size)))); int c = 0; for (int i = 0; i < np; ++i) if (r.p(0.6) || (i == np - 1 && !c)) { fac(FPL3, first + i, l); ++c; } if (r.p(o.anchors)) s.n[l].anchor = true; }
        for (int k = o.planes ? r.i(0, o.maxland) : 0; k > 0; --k) { V4 p; p << lv(unit3(r)), 2 * o.size * r.u(1.0, 2.0); int l = node(PL, p); int c = 0; for (int i = 0; i < np; ++i) if (r.p(0.6) || (i == np - 1 && !c)) { fac(FPPL, first + i, l); ++c; } if (o.planeAnchored || r.p(o.anchors)) s.n[l].anchor = true; }
        if (r.p(o.anchors)) s.n[first + r.i(0, np - 1)].anchor = true;
    }
    bool any = false; for (auto &n : s.n) any |= !n.anchor; if (!any) s.n[0].anchor = false;
    if (s.f.empty()) fac(s.n[0].k == P2 ? F1P2 : F1P3, 0, -1);
    if (!any) fac(s.n[0].k == P2 ? F1P2 : F1P3, 0, -1);
    for (auto &n : s.n) { n.x = n.truth; if (!n.anchor && o.init > 0) n.x = dbl(retract(n.k, n.truth, gauss(r, ndim(n.k), o.init))); if (n.k == PL) { V3 q = n.x.topRows(3); n.x.topRows(3) = q / q.norm(); n.x = dbl(n.x); } }
    if (o.busy) hub(s, r, o.busy);
    return s;
}
// largest difference of two states of one node (headings modulo a turn)
inline L nodeerr(NK k, const MX &a, const MX &b) { MX d = a - b; if (k == P2) d(2) = wrap(d(2)); L e = 0; for (int i = 0; i < d.size(); ++i) { L q = std::fabs(d.data()[i]); if (!(q == q)) return INFINITY; if (q > e) e = q; } return e; }
inline bool finite(const std::vector<MX> &x, L lim = 1e9L) { for (auto &m : x) for (int i = 0; i < m.size(); ++i) if (!(std::fabs(m.data()[i]) < lim)) return false; return true; }
// states after the increments -dx (columns of y) and the sensitivity of every state to errors e of the increments
inline std::vector<MX> stepped(const Spec &s, const std::vector<MX> &x, const Sys &y, const VX &dx) { std::vector<MX> v = x; for (size_t i = 0; i < s.n.size(); ++i) if (y.col[i] >= 0) v[i] = retract(s.n[i].k, x[i], VX(-dx.segment(y.col[i], ndim(s.n[i].k)))); return v; }
inline double stepsens(const Spec &s, const std::vector<MX> &x, const Sys &y, const VX &e, const VX &dx, int i) {
    int n = ndim(s.n[i].k); double m = 0; for (int j = 0; j < n; ++j) m += (double)std::fabs(e(y.col[i] + j)); double big = 0; for (int j = 0; j < n; ++j) big = std::max(big, (double)std::fabs(dx(y.col[i] + j)));
    return m * (1 + (double)x[i].cwiseAbs().maxCoeff() + big) * (s.n[i].k == PL ? 4 : 1);
}
inline std::string desc(const Spec &s) {
    std::string o; int na = 0; for (auto &n : s.n) { o += NKN[n.k]; if (n.anchor) { o += "*"; ++na; } o += " "; } o += "| ";
    for (auto &f : s.f) o += mon::fmt("%s(%d,%d)%s ", FKN[f.k], f.a, f.b, f.robust ? mon::fmt("r%d", f.robust).c_str() : ""); return o;
}
inline void mark(mon::Case &c, const Spec &s) { for (auto &n : s.n) c.mark(dm(n.x)); for (auto &f : s.f) { c.mark(dm(f.z)); c.mark(dm(f.W)); int q[4] = {f.k, f.a, f.b, f.robust}; c.mark(q, sizeof q); } }
} // namespace gg
#endif
