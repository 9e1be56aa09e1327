// C03: validity predicates and rotation-format conversions.
#include "ref.hpp"
#include "mrob/SE3.hpp"
using namespace ref; using namespace mon; using mrob::SO3; using mrob::SE3; using mrob::Mat3; using mrob::Mat4; using mrob::Mat31; using mrob::Mat41;

static DM4 T4(const DM3 &R, const D3 &t) { DM4 T = DM4::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = t; return T; }
// how far from a rotation: max(|R R^T - I|, |det - 1|)
static double defect(const DM3 &R) { M3 L = lm(R); return std::max((double)(L * L.transpose() - M3::Identity()).norm(), std::fabs((double)L.determinant() - 1)); }

SCENARIO(accept, 4) {
    DM3 R = rotm(c.r); double d = c.r.p(0.4) ? 0 : c.r.logu(1e-17, 1e-9); for (int i = 0; i < 9; ++i) R.data()[i] += d * c.r.u(-1, 1);
    D3 t = tvec(c.r); if (c.r.p(0.1)) t *= 1e6; c.mark(Mat3(R)); c.mark(t); c.note = "R=" + ms(R) + " t=" + ms(t);
    c.ok(mrob::isSO3(R), "isSO3-rejects-rotation"); c.ok(mrob::isSE3(T4(R, t)), "isSE3-rejects-transform");
    DM4 T = T4(R, t); for (int j = 0; j < 4; ++j) T(3, j) += d * c.r.u(-1, 1); c.ok(mrob::isSE3(T), "isSE3-rejects-rounded-last-row");
    c.seen(d == 0 ? "exact" : "rounded");
}
SCENARIO(accept_library, 2) { // everything the library itself produces
    SE3 A(mrob::Mat61(twist(c.r, 100))), B(mrob::Mat61(twist(c.r, 100))); c.mark(Mat4(A.T())); c.note = "A=" + ms(A.T());
    c.ok(mrob::isSE3((A * B).T()) && mrob::isSE3(A.inv().T()) && mrob::isSO3(A.R()) && mrob::isSO3((SO3(A.R()) * SO3(B.R())).R()), "predicate-rejects-library-pose");
    D3 v(c.r.u(-7, 7), c.r.u(-7, 7), c.r.u(-7, 7)); c.ok(mrob::isSO3(mrob::rpy_to_so3(v)), "predicate-rejects-rpy");
    D4 q(c.r.g(), c.r.g(), c.r.g(), c.r.g()); if (q.norm() > 1e-3) c.ok(mrob::isSO3(mrob::quat_to_so3(q)), "predicate-rejects-quat");
}
SCENARIO(reject_rotation, 6) {
    DM3 R = rotm(c.r), B = R; int k = c.r.i(0, 8); std::string what;
    double e = c.r.p(0.5) ? c.r.logu(1e-4, 0.5) : c.r.u(0.1, 3);
    DM3 U = rotm(c.r);
    switch (k) {
        case 0: what = "reflection"; { D3 n = unit3(c.r); B = (DM3::Identity() - 2 * n * n.transpose()) * R; } break;
        case 1: what = "scaled"; B = R * (c.r.p(0.5) ? 1 + e : 1 / (1 + e)); break;
        case 2: what = "negated"; B = -R; break;
        case 3: what = "volume-preserving-stretch"; { D3 s(1 + e, 1 / (1 + e), 1); int p = c.r.i(0, 2); std::swap(s(p), s(2)); B = U * s.asDiagonal() * U.transpose() * R; } break;
        case 4: what = "shear"; { DM3 S = DM3::Identity(); int i = c.r.i(0, 2), j = (i + c.r.i(1, 2)) % 3; S(i, j) = c.r.sgn() * e; B = c.r.p(0.5) ? DM3(S * R) : DM3(R * S); } break;
        case 5: what = "random"; for (int i = 0; i < 9; ++i) B.data()[i] = c.r.u(-2, 2); break;
        case 6: what = "single-entry"; B(c.r.i(0, 2), c.r.i(0, 2)) += c.r.sgn() * e; break;
        case 7: what = "rank-deficient"; B.row(c.r.i(0, 2)).setZero(); break;
        case 8: what = "non-finite"; { double bad[] = {NAN, INFINITY, -INFINITY}; B(c.r.i(0, 2), c.r.i(0, 2)) = bad[c.r.i(0, 2)]; } break;
    }
    c.mark(Mat3(B)); c.note = what + " R=" + ms(B);
    if (k != 8 && defect(B) < 5e-5) c.skip();
    c.ok(!mrob::isSO3(B), "isSO3-accepts-" + what); c.ok(!mrob::isSE3(T4(B, tvec(c.r))), "isSE3-accepts-" + what); c.seen(what);
}
SCENARIO(reject_row, 5) {
    DM4 T = T4(rotm(c.r), tvec(c.r)); double e = c.r.p(0.5) ? c.r.logu(1e-4, 1) : c.r.u(0.1, 10); int k = c.r.i(0, 5); std::string what;
    switch (k) {
        case 0: what = "one-entry"; T(3, c.r.i(0, 3)) += c.r.sgn() * e; break;
        case 1: what = "negative-entry"; T(3, c.r.i(0, 3)) -= e; break;
        case 2: what = "cancelling-entries"; { int i = c.r.i(0, 3), j = (i + c.r.i(1, 3)) % 4; T(3, i) += e; T(3, j) -= e; } break;
        case 3: what = "zero-row"; T.row(3).setZero(); break;
        case 4: what = "random-row"; for (int j = 0; j < 4; ++j) T(3, j) = c.r.u(-2, 2); break;
        case 5: what = "nan-row"; T(3, c.r.i(0, 3)) = c.r.p(0.5) ? NAN : INFINITY; break;
    }
    if ((T.row(3) - Eigen::RowVector4d(0, 0, 0, 1)).norm() < 5e-5) c.skip();
    c.mark(Mat4(T)); c.note = what + " T=" + ms(T); c.ok(!mrob::isSE3(T), "isSE3-accepts-" + what); c.seen(what);
}
SCENARIO(quaternion, 6) {
    D4 q(c.r.g(), c.r.g(), c.r.g(), c.r.g());
    int k = c.r.i(0, 7); if (k == 0) { q.setZero(); q(c.r.i(0, 3)) = c.r.sgn(); } if (k == 1) { q(3) = c.r.sgn() * c.r.logu(1e-18, 1e-2); } if (k == 2) q << q.head<3>() * c.r.logu(1e-18, 1e-2), c.r.sgn(); if (k == 3) q << c.r.i(-1, 1), c.r.i(-1, 1), c.r.i(-1, 1), c.r.i(-1, 1);
    if (k == 4) { D3 w = rvec(c.r); double o = w.norm(); if (o > 0) q << std::sin(o / 2) * w / o, std::cos(o / 2); }
    if (q.norm() < 1e-9) c.skip(); q /= q.norm(); D4 u = q; if (c.r.p(0.7)) q *= c.r.logu(1e-100, 1e100);
    c.mark(q); c.note = "q=" + ms(q); Mat41 q0 = q;
    Mat3 R = mrob::quat_to_so3(q); c.near(R, dm(quat2R(V4(lv(u)))), 4e-15, "quat-to-rotation"); c.same(q, q0, "quat-argument");
    c.near(mrob::quat_to_so3(D4(-q)), R, 1e-15, "quat-antipodal");
    c.near(R * R.transpose(), Eigen::Matrix3d::Identity(), 1e-14, "quat-orthogonal"); c.near(R.determinant(), 1, 1e-14, "quat-det");
    Mat41 p = mrob::so3_to_quat(R); double d = std::min((p - u).norm(), (p + u).norm()); c.bound(d, 1e-14, "quat-round-trip", [&] { return "got " + ms(p); }); c.near(p.norm(), 1, 1e-14, "quat-unit");
}
SCENARIO(rotation_to_quaternion, 6) {
    DM3 R = rotm(c.r); if (c.r.p(0.15)) { D3 n = unit3(c.r); R = 2 * n * n.transpose() - Eigen::Matrix3d::Identity(); } if (c.r.p(0.1)) R = DM3(rotm(c.r) * rotm(c.r)); c.mark(Mat3(R)); c.note = "R=" + ms(R); Mat3 R0 = R;
    Mat41 p = mrob::so3_to_quat(R); V4 l = quat(M3(lm(R))); c.same(R, R0, "quat-argument");
    double d = std::min((p - dm(l)).norm(), (p + dm(l)).norm()); c.bound(d, 2e-14, "rotation-to-quat", [&] { return "got " + ms(p) + " expected +-" + ms(dm(l)); }); c.near(p.norm(), 1, 1e-14, "rotation-to-quat-unit");
    c.near(mrob::quat_to_so3(p), R, 2e-14, "matrix-quat-round-trip");
}
SCENARIO(roll_pitch_yaw, 4) {
    auto a = [&] { int k = c.r.i(0, 4); return k == 0 ? c.r.i(-4, 4) * M_PI / 2 : k == 1 ? c.r.sgn() * c.r.logu(1e-18, 1e-3) : k == 2 ? c.r.u(-50, 50) : c.r.u(-M_PI, M_PI); };
    D3 v(a(), a(), a()); c.mark(v); c.note = "rpy=" + ms(v); Mat31 v0 = v;
    V3 x(v(0), 0, 0), y(0, v(1), 0), z(0, 0, v(2)); M3 E = exp3(x) * exp3(y) * exp3(z);
    Mat3 R = mrob::rpy_to_so3(v); c.near(R, dm(E), 4e-15 * (1 + v.cwiseAbs().maxCoeff()), "rpy-to-rotation"); c.same(v, v0, "rpy-argument"); c.near(R * R.transpose(), Eigen::Matrix3d::Identity(), 1e-14, "rpy-orthogonal"); c.near(R.determinant(), 1, 1e-14, "rpy-det");
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
