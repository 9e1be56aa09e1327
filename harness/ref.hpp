// Independent reference mathematics (long double, own formulas; nothing from mrob).
// Twists are ordered [w, v] as documented by the library.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include "mon.hpp"
#include <Eigen/Dense>
namespace ref {
typedef long double L;
typedef Eigen::Matrix<L, 2, 1> V2; typedef Eigen::Matrix<L, 3, 1> V3; typedef Eigen::Matrix<L, 4, 1> V4; typedef Eigen::Matrix<L, 6, 1> V6;
typedef Eigen::Matrix<L, 2, 2> M2; typedef Eigen::Matrix<L, 3, 3> M3; typedef Eigen::Matrix<L, 4, 4> M4; typedef Eigen::Matrix<L, 6, 6> M6;
typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VX; typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> MX;
static const L PI = 3.14159265358979323846264338327950288L;
typedef Eigen::Matrix<double, 3, 1> D3; typedef Eigen::Matrix<double, 6, 1> D6; typedef Eigen::Matrix<double, 4, 1> D4; typedef Eigen::Matrix<double, 2, 1> D2;
typedef Eigen::Matrix<double, 3, 3, Eigen::RowMajor> DM3; typedef Eigen::Matrix<double, 4, 4, Eigen::RowMajor> DM4; typedef Eigen::Matrix<double, 6, 6, Eigen::RowMajor> DM6;

template <class D> VX lv(const Eigen::DenseBase<D> &v) { VX r(v.size()); for (int i = 0; i < v.size(); ++i) r(i) = (L)v(i); return r; }
template <class D> MX lm(const Eigen::DenseBase<D> &v) { MX r(v.rows(), v.cols()); for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) r(i, j) = (L)v(i, j); return r; }
template <class D> Eigen::MatrixXd dm(const Eigen::DenseBase<D> &v) { Eigen::MatrixXd r(v.rows(), v.cols()); for (int i = 0; i < v.rows(); ++i) for (int j = 0; j < v.cols(); ++j) r(i, j) = (double)v(i, j); return r; }

inline M3 hat(const V3 &w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
inline M4 hat6(const V6 &x) { M4 m = M4::Zero(); m.topLeftCorner<3, 3>() = hat(x.head<3>()); m.topRightCorner<3, 1>() = x.tail<3>(); return m; }

// matrix exponential by scaling and squaring of the Taylor series
template <class M> M expm(const M &A) {
    L n = A.cwiseAbs().sum(); int s = 0; while (n > 0.25L) { n /= 2; ++s; }
    M B = A / std::pow((L)2, s), T = M::Identity(A.rows(), A.cols()), R = T;
    for (int k = 1; k < 30; ++k) { T = (T * B / (L)k).eval(); R += T; }
    for (int k = 0; k < s; ++k) R = (R * R).eval();
    return R;
}
inline L sinc(L o) { return o < 1e-4L ? 1 - o * o / 6 + o * o * o * o / 120 : std::sin(o) / o; }
inline L cosc(L o) { L h = sinc(o / 2); return h * h / 2; }                   // (1-cos o)/o^2
inline L sinc3(L o) {                                                          // (o - sin o)/o^3
    if (o > 0.5L) return (o - std::sin(o)) / (o * o * o);
    L t = 1 / 6.0L, s = 0, o2 = o * o; for (int k = 1; k < 20; ++k) { s += t; t *= -o2 / ((2 * k + 2) * (2 * k + 3)); } return s;
}
inline M3 exp3(const V3 &w) { L o = w.norm(); M3 h = hat(w); return M3::Identity() + sinc(o) * h + cosc(o) * h * h; }
inline M3 Vmat(const V3 &w) { L o = w.norm(); M3 h = hat(w); return M3::Identity() + cosc(o) * h + sinc3(o) * h * h; }
inline M4 mk(const M3 &R, const V3 &t) { M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = t; return T; }
inline M4 exp6(const V6 &x) { V3 w = x.head<3>(), v = x.tail<3>(); V3 t = Vmat(w) * v; return mk(exp3(w), t); }
inline M3 rot(const M4 &T) { return T.topLeftCorner<3, 3>(); }
inline V3 tra(const M4 &T) { return T.topRightCorner<3, 1>(); }
inline M4 inv(const M4 &T) { M3 R = rot(T).transpose(); V3 t = -(R * tra(T)); return mk(R, t); }
inline V3 act(const M4 &T, const V3 &p) { return rot(T) * p + tra(T); }
inline M6 adj(const M4 &T) { M6 A = M6::Zero(); M3 R = rot(T); V3 t = tra(T); A.topLeftCorner<3, 3>() = R; A.bottomRightCorner<3, 3>() = R; A.bottomLeftCorner<3, 3>() = hat(t) * R; return A; }
// quaternion (x,y,z,w) of a rotation matrix: eigenvector-free, largest component first
inline V4 quat(const M3 &R) {
    L t[4] = {1 + R(0,0) - R(1,1) - R(2,2), 1 - R(0,0) + R(1,1) - R(2,2), 1 - R(0,0) - R(1,1) + R(2,2), 1 + R(0,0) + R(1,1) + R(2,2)};
    int k = 0; for (int i = 1; i < 4; ++i) if (t[i] > t[k]) k = i;
    V4 q;
    if (k == 0) q << t[0], R(0,1) + R(1,0), R(0,2) + R(2,0), R(2,1) - R(1,2);
    if (k == 1) q << R(0,1) + R(1,0), t[1], R(1,2) + R(2,1), R(0,2) - R(2,0);
    if (k == 2) q << R(0,2) + R(2,0), R(1,2) + R(2,1), t[2], R(1,0) - R(0,1);
    if (k == 3) q << R(2,1) - R(1,2), R(0,2) - R(2,0), R(1,0) - R(0,1), t[3];
    return q / q.norm();
}
inline M3 quat2R(V4 q) {
    q /= q.norm(); L x = q(0), y = q(1), z = q(2), w = q(3); M3 R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
    return R;
}
inline V3 log3(const M3 &R) {
    V4 q = quat(R); if (q(3) < 0) q = -q; V3 v = q.head<3>(); L n = v.norm();
    if (n == 0) return V3::Zero();
    L o = 2 * std::atan2(n, q(3));
    return v * (o / n);
}
inline V6 log6(const M4 &T) { V3 w = log3(rot(T)); M3 V = Vmat(w); V3 t = tra(T); V3 v = V.fullPivLu().solve(t); V6 x; x << w, v; return x; }
inline M3 orth(const M3 &A) { Eigen::JacobiSVD<Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic>> s(MX(A), Eigen::ComputeFullU | Eigen::ComputeFullV); M3 U = s.matrixU(), V = s.matrixV(); M3 R = U * V.transpose(); if (R.determinant() < 0) { U.col(2) *= -1; R = U * V.transpose(); } return R; }
inline L wrap(L a) { a = std::fmod(a + PI, 2 * PI); if (a < 0) a += 2 * PI; return a - PI; }

// ---------------------------------------------------------------- generators
inline D3 unit3(mon::Rng &r) {
    for (;;) {
        int k = r.i(0, 9);
        if (k == 0) { D3 a = D3::Zero(); a(r.i(0, 2)) = r.sgn(); return a; }                        // axis aligned
        if (k == 1) { D3 a(r.i(-1, 1), r.i(-1, 1), r.i(-1, 1)); if (a.norm() > 0) return a / a.norm(); continue; } // lattice directions
        D3 a(r.g(), r.g(), r.g()); if (k == 2) a(r.i(0, 2)) *= 1e-8;                                // nearly in a coordinate plane
        if (a.norm() > 1e-6) return a / a.norm();
    }
}
inline double angle(mon::Rng &r, double maxa = 3.141592653589793) {
    const double P = 3.141592653589793;
    double a;
    switch (r.i(0, 9)) {
        case 0: a = 0; break;
        case 1: a = r.logu(1e-18, 1e-6); break;
        case 2: a = r.logu(1e-6, 1e-1); break;
        case 3: { double th[] = {1e-5, 1e-3, 5e-3, 1e-2, 1e-7}; a = th[r.i(0, 4)] * (1 + r.sgn() * r.logu(1e-12, 0.3)); break; }
        case 4: a = P - r.logu(1e-16, 1e-1); break;
        case 5: a = P / 2 + r.sgn() * r.logu(1e-16, 1e-1); break;
        case 6: { double th[] = {P / 2, P, P / 3, 2 * P / 3, P / 4, P - 1e-8, P - 1e-7, P - 6e-8}; a = th[r.i(0, 7)]; break; }
        default: a = r.u(0, P);
    }
    return a > maxa ? r.u(0, maxa) : a;
}
inline D3 rvec(mon::Rng &r, double maxa = 3.141592653589793) { D3 u = unit3(r); return u * angle(r, maxa); }
inline D3 tvec(mon::Rng &r, double scale = 0) {
    if (r.p(0.08)) return D3::Zero();
    double s = scale > 0 ? scale : (r.p(0.5) ? r.u(0.1, 10) : r.logu(1e-6, 1e4));
    D3 t(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); if (r.p(0.1)) t(r.i(0, 2)) = 0; return t * s;
}
inline D6 twist(mon::Rng &r, double maxa = 3.141592653589793, double scale = 0) { D6 x; x << rvec(r, maxa), tvec(r, scale); return x; }
inline DM4 pose(mon::Rng &r, double maxa = 3.141592653589793, double scale = 0) { D6 x = twist(r, maxa, scale); M4 T = exp6(V6(lv(x))); V3 t = lv(D3(x.tail<3>())); return dm(mk(rot(T), t)); }
inline DM3 rotm(mon::Rng &r, double maxa = 3.141592653589793) { return dm(exp3(V3(lv(rvec(r, maxa))))); }
} // namespace ref
#endif
