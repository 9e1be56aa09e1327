// C01: exponential / logarithm maps against long-double references.
#include "ref.hpp"
#include "mrob/SE3.hpp"
using namespace ref; using namespace mon; using mrob::SO3; using mrob::SE3;

static double slack(double o) { return 1 + o; }

static D3 any_w(Rng &r) {
    if (r.p(0.25)) { // many turns, neighbourhoods of multiples of pi
        double k = r.i(1, 200) * M_PI; double a = r.p(0.5) ? k + r.sgn() * r.logu(1e-14, 1e-1) : r.logu(3.2, 1e5);
        return unit3(r) * a;
    }
    if (r.p(0.1)) return D3(r.sgn() * r.logu(1e-300, 1e2), r.sgn() * r.logu(1e-300, 1), r.sgn() * r.logu(1e-30, 1));
    return rvec(r, 1e9);
}
SCENARIO(exp_rotation, 4) {
    D3 w = any_w(c.r); double o = w.norm(); c.note = "w=" + ms(w); c.mark(w);
    SO3 R(w); M3 E = exp3(V3(lv(w)));
    c.near(R.R(), dm(E), 2e-15 * slack(o), "exp-rotation-value");
    if (o < 60) { M3 X = expm<M3>(hat(V3(lv(w)))); c.near(R.R(), dm(X), 2e-14 * slack(o), "exp-rotation-matrix-exponential"); }
    c.near(R.R() * R.R().transpose(), Eigen::Matrix3d::Identity(), 1e-14, "exp-rotation-orthogonal");
    c.near(ref::lm(R.R()).determinant(), 1.0, 1e-14, "exp-rotation-det");
    SO3 Q(mrob::Mat3(mrob::Mat3::Identity())); Q.exp(mrob::hat3(w)); c.same(Q.R(), R.R(), "exp-from-hat");
    c.seen(o < 1e-5 ? "w<1e-5" : o < 3.1 ? "w<3.1" : o < 3.2 ? "w~pi" : "many-turns");
}
SCENARIO(exp_pose, 5) {
    D6 x; x << any_w(c.r), tvec(c.r); if (c.r.p(0.05)) x.tail<3>() = D3(c.r.sgn() * c.r.logu(1e-100, 1e100), 0, 0);
    double o = x.head<3>().norm(), t = x.tail<3>().norm(); c.note = "xi=" + ms(x); c.mark(x);
    SE3 T(x); M4 E = exp6(V6(lv(x)));
    c.near(T.R(), dm(rot(E)), 2e-15 * slack(o), "exp-pose-rotation");
    c.near(T.t(), dm(tra(E)), (4e-13 + 1e-14 * o) * t + 1e-300, "exp-pose-translation");
    c.near(Eigen::MatrixXd(T.T().row(3)), Eigen::RowVector4d(0, 0, 0, 1), 1e-300, "exp-pose-last-row");
    c.near(T.R() * T.R().transpose(), Eigen::Matrix3d::Identity(), 1e-14, "exp-pose-orthogonal");
    if (o < 30 && t < 1e6) { M4 X = expm<M4>(ref::hat6(V6(lv(x)))); c.near(Eigen::MatrixXd(T.T()), dm(X), (1e-12 + 1e-14 * o) * (1 + t), "exp-pose-matrix-exponential"); }
    SE3 Q; Q.exp(mrob::hat6(x)); c.same(Eigen::MatrixXd(Q.T()), Eigen::MatrixXd(T.T()), "exp-from-hat6");
}
static void check_ln_rot(Case &c, const DM3 &R) {
    SO3 S{mrob::Mat3(R)}; double o = -1; mrob::Mat3 H = S.ln(&o); mrob::Mat31 w = S.ln_vee();
    V3 lw = log3(M3(lm(R))); double a = (double)lw.norm(), gap = M_PI - a;
    c.note = "R=" + ms(R) + fmt(" angle=%.17g", a); c.mark(mrob::Mat3(R));
    c.ok(w.allFinite(), "ln-rotation-finite", ms(w));
    c.near(H, -H.transpose(), 1e-300, "ln-rotation-skew");
    c.same(mrob::vee3(H), w, "ln-vee-of-ln");
    c.ok(w.norm() <= M_PI * (1 + 1e-15) + 1e-15, "ln-rotation-range", fmt("norm %.17g", w.norm()));
    // near the half turn acos carries sqrt(eps)
    double tolw = gap < 1e-5 ? 1e-6 : 5e-14 + 1e-14 / gap;
    c.near(std::fabs(o), w.norm(), 3e-7, "ln-rotation-angle-out");
    if (gap > 1e-9) {
        c.near(w, dm(lw), tolw, gap < 1e-5 ? "ln-rotation-value-near-pi" : "ln-rotation-value");
    } else { // sign of the axis is arbitrary at the half turn
        double d = std::min((w - dm(lw).col(0)).norm(), (w + dm(lw).col(0)).norm());
        c.bound(d, tolw, "ln-rotation-value-at-pi", [&] { return "got " + ms(w) + " expected +-" + ms(dm(lw)); });
    }
    c.near(dm(exp3(V3(lv(w)))), R, gap < 1e-5 ? 1e-6 : 5e-14 + 1e-14 / gap, gap < 1e-5 ? "exp-of-ln-rotation-near-pi" : "exp-of-ln-rotation");
    c.near(SO3(w).R(), R, gap < 1e-5 ? 1e-6 : 5e-14 + 1e-14 / gap, gap < 1e-5 ? "exp-of-ln-near-pi" : "exp-of-ln");
    c.seen(gap < 1e-5 ? "ln~pi" : a < 1e-5 ? "ln<1e-5" : a > M_PI / 2 ? "ln>pi/2" : "ln<pi/2");
}
SCENARIO(ln_rotation, 5) { check_ln_rot(c, rotm(c.r)); }
SCENARIO(ln_rotation_product, 3) { // rotations with rounding of products, including almost-identity with trace above 3
    D3 a = rvec(c.r), d = unit3(c.r) * c.r.logu(1e-16, 1e-3);
    SO3 A(a), B(mrob::Mat31(-a)); SO3 P = SO3(mrob::Mat31(d)) * A * B;
    if (c.r.p(0.3)) { SO3 X(rvec(c.r)); P = X * P * X.inv(); }
    if (c.r.p(0.3)) P = P * SO3(rvec(c.r));
    check_ln_rot(c, P.R());
}
SCENARIO(ln_rotation_special, 2) { // signed permutation matrices, exact half turns, products of exact matrices
    int p[3] = {0, 1, 2}; for (int k = 2; k > 0; --k) std::swap(p[k], p[c.r.i(0, k)]);
    DM3 R = DM3::Zero(); for (int i = 0; i < 3; ++i) R(i, p[i]) = c.r.sgn();
    if (R.determinant() < 0) R = -R;
    if (c.r.p(0.5)) { D3 n = unit3(c.r); R = 2 * n * n.transpose() - Eigen::Matrix3d::Identity(); } // exact half turn about n
    check_ln_rot(c, R);
}
static void check_ln_pose(Case &c, const DM4 &T) {
    SE3 S{mrob::Mat4(T)}; mrob::Mat61 x = S.ln_vee(); mrob::Mat4 H = S.ln(); V6 lx = log6(M4(lm(T)));
    double a = (double)lx.head<3>().norm(), gap = M_PI - a, t = T.topRightCorner<3, 1>().norm();
    c.note = "T=" + ms(T) + fmt(" angle=%.17g", a); c.mark(mrob::Mat4(T));
    c.ok(x.allFinite(), "ln-pose-finite", ms(x));
    c.same(mrob::vee6(H), x, "ln-pose-vee");
    c.near(mrob::hat6(x), H, 1e-300, "ln-pose-hat");
    c.same(mrob::Mat31(x.head<3>()), SO3(S.R()).ln_vee(), "ln-pose-rotation-part");
    double tw = gap < 1e-5 ? 1e-6 : 5e-14 + 1e-14 / gap;
    if (gap > 1e-9) c.near(mrob::Mat31(x.tail<3>()), dm(lx.tail<3>()), (1e-11 + 3 * tw) * t + 1e-300, gap < 1e-5 ? "ln-pose-translation-near-pi" : "ln-pose-translation");
    M4 E = exp6(V6(lv(x)));
    c.near(dm(rot(E)), Eigen::MatrixXd(T.topLeftCorner<3, 3>()), tw, gap < 1e-5 ? "exp-of-ln-pose-rotation-near-pi" : "exp-of-ln-pose-rotation");
    c.near(dm(tra(E)), Eigen::MatrixXd(T.topRightCorner<3, 1>()), (gap < 1e-5 ? 1e-11 : 2e-13) * t + 1e-300, gap < 1e-5 ? "exp-of-ln-pose-translation-near-pi" : "exp-of-ln-pose-translation");
    SE3 B(x); c.near(Eigen::MatrixXd(B.T()), T, (1e-11 + 6 * tw) * (1 + t), gap < 1e-5 ? "exp-of-ln-pose-near-pi" : "exp-of-ln-pose");
}
SCENARIO(ln_pose, 6) { check_ln_pose(c, pose(c.r)); }
SCENARIO(ln_pose_product, 3) {
    SE3 A(mrob::Mat61(twist(c.r, M_PI, 3))), D(mrob::Mat61(twist(c.r, c.r.logu(1e-14, 1e-2), c.r.logu(1e-9, 1))));
    SE3 P = D * A * A.inv(); if (c.r.p(0.3)) P = A * A.inv(); if (c.r.p(0.3)) P = P * SE3(mrob::Mat61(twist(c.r, M_PI, 3)));
    check_ln_pose(c, Eigen::MatrixXd(P.T()));
}
SCENARIO(ln_of_exp, 5) { // Ln(Exp(x)) = x below pi
    D6 x = twist(c.r, M_PI - (c.r.p(0.2) ? 1e-6 : 1e-4)); double a = x.head<3>().norm(), gap = M_PI - a, t = x.tail<3>().norm();
    if (gap < 1e-7) c.skip();
    c.note = "xi=" + ms(x); c.mark(x);
    double tw = gap < 1e-5 ? 1e-6 : 5e-14 + 1e-14 / gap;
    c.near(SO3(mrob::Mat31(x.head<3>())).ln_vee(), Eigen::MatrixXd(x.head<3>()), tw, gap < 1e-5 ? "ln-exp-rotation-near-pi" : "ln-exp-rotation");
    mrob::Mat61 y = SE3(x).ln_vee();
    c.near(y.head<3>(), Eigen::MatrixXd(x.head<3>()), tw, gap < 1e-5 ? "ln-exp-pose-w-near-pi" : "ln-exp-pose-w");
    // translation: V^-1 grows like 1/gap at 2 pi only; relative to |v|
    c.near(y.tail<3>(), Eigen::MatrixXd(x.tail<3>()), (2e-11 + 6 * tw) * t + 1e-300, gap < 1e-5 ? "ln-exp-pose-v-near-pi" : "ln-exp-pose-v");
}
SCENARIO(hat_vee, 1) {
    D6 x; for (int i = 0; i < 6; ++i) x(i) = c.r.p(0.1) ? 0.0 : c.r.sgn() * c.r.logu(1e-300, 1e300);
    c.note = "xi=" + ms(x); c.mark(x); D3 w = x.head<3>();
    c.same(mrob::vee3(mrob::hat3(w)), w, "vee-hat3"); c.same(mrob::vee6(mrob::hat6(x)), x, "vee-hat6");
    c.same(mrob::hat3(w), dm(ref::hat(V3(lv(w)))), "hat3"); c.same(mrob::hat6(x), dm(ref::hat6(V6(lv(x)))), "hat6");
    D3 p(c.r.g(), c.r.g(), c.r.g()), q(c.r.g(), c.r.g(), c.r.g());
    c.near(mrob::hat3(p) * q, p.cross(q), 1e-14, "hat3-cross-product");
}
int main(int a, char **b) { return mon::main_loop(a, b); }
