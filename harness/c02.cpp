// C02: group laws, actions, adjoint, updates, distances against long-double 4x4 algebra.
#include "ref.hpp"
#include "mrob/SE3.hpp"
using namespace ref; using namespace mon; using mrob::SO3; using mrob::SE3; using mrob::Mat3; using mrob::Mat4; using mrob::Mat31; using mrob::Mat61; using mrob::MatX;

static Eigen::MatrixXd E(const Mat4 &m) { return Eigen::MatrixXd(m); }
static double tn(const DM4 &T) { return T.topRightCorner<3, 1>().norm(); }
static SE3 mkpose(Rng &r, DM4 &raw) { raw = pose(r, M_PI, r.p(0.7) ? 5 : 0); return SE3(Mat4(raw)); }

SCENARIO(compose_inverse, 6) {
    DM4 a, b; SE3 A = mkpose(c.r, a), B = mkpose(c.r, b); c.mark(Mat4(a)); c.mark(Mat4(b)); c.note = "A=" + ms(a) + " B=" + ms(b);
    M4 la = lm(a), lb = lm(b); double s = 1 + tn(a) + tn(b);
    DM4 exp = dm(M4(la * lb));
    c.near(E((A * B).T()), exp, 2e-15 * s, "compose"); c.near(E(A.mul(B).T()), exp, 2e-15 * s, "mul");
    c.same(E(A.T()), a, "compose-left-operand-modified"); c.same(E(B.T()), b, "compose-right-operand-modified");
    c.near(E(A.inv().T()), dm(inv(la)), 2e-15 * s, "inverse"); c.same(E(A.T()), a, "inverse-operand-modified");
    c.near(E((A * A.inv()).T()), Eigen::Matrix4d::Identity(), 1e-14 * s, "T-Tinv"); c.near(E((A.inv() * A).T()), Eigen::Matrix4d::Identity(), 1e-14 * s, "Tinv-T");
    c.near(E(A.inv().inv().T()), a, 1e-14 * s, "inverse-inverse");
    SE3 id; c.same(E(id.T()), Eigen::Matrix4d::Identity(), "default-identity"); c.same(E((A * id).T()), a, "right-identity"); c.same(E((id * A).T()), a, "left-identity");
    // aliasing
    SE3 X(A); X = X * B; c.same(E(X.T()), E((A * B).T()), "assign-product-left-alias");
    SE3 Y(B); Y = A * Y; c.same(E(Y.T()), E((A * B).T()), "assign-product-right-alias");
    SE3 Z(A); Z = Z * Z; c.near(E(Z.T()), dm(M4(la * la)), 2e-15 * s * 2, "square-alias"); Z = A; Z = Z; c.same(E(Z.T()), a, "self-assign");
    Z = A; Z = Z.inv(); c.same(E(Z.T()), E(A.inv().T()), "assign-inverse-alias");
    // independent copies
    SE3 C1(A); C1.ref2T()(0, 3) += 1; c.same(E(A.T()), a, "copy-shares-state"); c.ok(C1.T()(0, 3) == a(0, 3) + 1, "ref2T-writes");
    c.same(Eigen::MatrixXd(A.R()), Eigen::MatrixXd(a.topLeftCorner<3, 3>()), "R-accessor"); c.same(A.t(), Eigen::MatrixXd(a.topRightCorner<3, 1>()), "t-accessor");
    // constructors
    c.same(E(SE3(SO3(Mat3(a.topLeftCorner<3, 3>())), Mat31(a.topRightCorner<3, 1>())).T()), a, "construct-SO3-t");
    c.same(E(SE3(Mat3(a.topLeftCorner<3, 3>()), Mat31(a.topRightCorner<3, 1>())).T()), a, "construct-R-t");
    c.seen("poses", 2);
}
SCENARIO(rotation_group, 4) {
    DM3 a = rotm(c.r), b = rotm(c.r); if (c.r.p(0.2)) b = dm(M3(exp3(V3(lv(D3(unit3(c.r) * c.r.logu(1e-14, 1e-1))))) * M3(lm(a)))); SO3 A{Mat3(a)}, B{Mat3(b)}; c.mark(Mat3(a)); c.mark(Mat3(b)); c.note = "A=" + ms(a) + " B=" + ms(b);
    DM3 ab = dm(M3(M3(lm(a)) * M3(lm(b))));
    c.near((A * B).R(), ab, 2e-15, "so3-compose"); c.near(A.mul(B).R(), ab, 2e-15, "so3-mul"); c.same(A.inv().R(), a.transpose(), "so3-inverse"); c.same(A.R(), a, "so3-operand"); c.same(B.R(), b, "so3-operand");
    SO3 X(A); X = X * B; c.same(X.R(), (A * B).R(), "so3-alias"); X = B; X = A * X; c.same(X.R(), (A * B).R(), "so3-alias-right"); X = A; X = X * X; c.near(X.R(), dm(M3(M3(lm(a)) * M3(lm(a)))), 2e-15, "so3-square");
    c.same(SO3().R(), Eigen::Matrix3d::Identity(), "so3-default"); c.same(A.adj(), a, "so3-adj");
    D3 w = rvec(c.r, 10), p = tvec(c.r);
    // R Exp(w) R^T = Exp(R w)
    c.near((A * SO3(w) * A.inv()).R(), SO3(Mat31(A.adj() * w)).R(), 1e-13, "so3-adjoint-law");
    SO3 L(A); L.update_lhs(w); c.near(L.R(), dm(M3(exp3(V3(lv(w))) * M3(lm(a)))), 2e-14, "so3-update-lhs");
    SO3 Rr(A); Rr.update_rhs(w); c.near(Rr.R(), dm(M3(M3(lm(a)) * exp3(V3(lv(w))))), 2e-14, "so3-update-rhs");
    double d = (double)log3(M3(M3(lm(a)) * M3(lm(b)).transpose())).norm(), gap = M_PI - d; 
    c.near(A.distance(B), d, gap < 1e-5 ? 1e-6 : 1e-13 + 4e-15 / gap, "so3-distance"); c.near(A.distance(A), 0, 1e-13, "so3-distance-self"); c.near(B.distance(A), A.distance(B), gap < 1e-5 ? 3e-6 : 1e-13 + 8e-15 / gap, "so3-distance-symmetric");
    SO3 C1(A); C1.ref2R()(1, 1) += 2; c.same(A.R(), a, "so3-copy-shares");
}
SCENARIO(action, 5) {
    DM4 a, b; SE3 A = mkpose(c.r, a), B = mkpose(c.r, b); D3 p = tvec(c.r); c.mark(Mat4(a)); c.mark(p); c.note = "A=" + ms(a) + " B=" + ms(b) + " p=" + ms(p);
    V3 lp = lv(p); double s = 1 + p.norm() + tn(a) + tn(b);
    c.near(A.transform(p), dm(act(M4(lm(a)), lp)), 2e-15 * s, "transform");
    c.near((A * B).transform(p), A.transform(B.transform(p)), 2e-14 * s, "action-law");
    c.near(A.inv().transform(A.transform(p)), p, 2e-14 * s, "action-inverse");
    int n = c.r.p(0.1) ? c.r.i(0, 1) : c.r.p(0.005) ? c.r.i(300, 5000) : c.r.i(2, 40); MatX P(n, 3); double m = 0; for (int i = 0; i < n; ++i) { P.row(i) = tvec(c.r).transpose(); m = std::max(m, P.row(i).norm()); }
    MatX P0 = P, Q = A.transform_array(P); c.same(P, P0, "transform-array-input-modified");
    c.ok(Q.rows() == n && Q.cols() == 3, "transform-array-shape");
    for (int i = 0; i < n; ++i) c.near(Eigen::MatrixXd(Q.row(i).transpose()), dm(act(M4(lm(a)), V3(lv(P.row(i))))), 2e-15 * (s + m), "transform-array");
    P = A.transform_array(P); c.same(P, Q, "transform-array-alias");
    c.same(E(A.T()), a, "action-pose-modified"); c.seen("array-points", n);
}
SCENARIO(adjoint, 5) {
    DM4 a; SE3 A = mkpose(c.r, a); D6 x = twist(c.r, c.r.p(0.5) ? M_PI : 1.0, 3); c.mark(Mat4(a)); c.mark(x); c.note = "A=" + ms(a) + " x=" + ms(x);
    M6 ad = ref::adj(M4(lm(a))); double s = 1 + tn(a);
    c.near(A.adj(), dm(ad), 4e-15 * s, "adj-value"); c.same(E(A.T()), a, "adj-operand");
    Mat61 y = A.adj() * x;
    c.near(E((A * SE3(Mat61(x)) * A.inv()).T()), E(SE3(y).T()), 1e-12 * s * (1 + x.norm()), "adjoint-law");
    DM4 b; SE3 B = mkpose(c.r, b); c.near((A * B).adj(), A.adj() * B.adj(), 1e-14 * s * (1 + tn(b)), "adj-product"); c.near(A.inv().adj() * A.adj(), Eigen::Matrix<double, 6, 6>::Identity(), 2e-14 * s * s, "adj-inverse");
}
SCENARIO(updates, 5) {
    DM4 a; SE3 A = mkpose(c.r, a); D6 x = twist(c.r, 20, 3); if (c.r.p(0.3)) x *= c.r.logu(1e-14, 1e-1) / (1e-300 + x.norm()); c.mark(Mat4(a)); c.mark(x); c.note = "A=" + ms(a) + " x=" + ms(x); double s = 1 + tn(a) + x.tail<3>().norm();
    M4 ex = exp6(V6(lv(x))); Mat61 x0 = x, xi = x; SE3 L(A); L.update_lhs(xi); c.near(E(L.T()), dm(M4(ex * M4(lm(a)))), 2e-12 * s, "update-lhs"); c.same(xi, x0, "update-argument");
    SE3 R(A); R.update_rhs(xi); c.near(E(R.T()), dm(M4(M4(lm(a)) * ex)), 2e-12 * s, "update-rhs"); c.same(xi, x0, "update-argument");
    L.update_lhs(-x); c.near(E(L.T()), a, 4e-12 * s, "update-lhs-undo"); R.update_rhs(-x); c.near(E(R.T()), a, 4e-12 * s, "update-rhs-undo");
    // left and right updates related by the adjoint
    SE3 P(A), Q(A); P.update_rhs(x); Q.update_lhs(A.adj() * x); c.near(E(P.T()), E(Q.T()), 1e-11 * s * s, "update-lhs-rhs");
}
SCENARIO(distances, 4) {
    DM4 a, b; SE3 A = mkpose(c.r, a), B = mkpose(c.r, b);
    if (c.r.p(0.4)) { D6 x = twist(c.r, 0.5, 1); if (c.r.p(0.5)) x *= c.r.logu(1e-14, 1e-1) / (1e-300 + x.norm()); b = dm(M4(exp6(V6(lv(x))) * M4(lm(a)))); B = SE3(Mat4(b)); }
    c.mark(Mat4(a)); c.mark(Mat4(b)); c.note = "A=" + ms(a) + " B=" + ms(b);
    M4 rel = M4(lm(a)) * inv(M4(lm(b))); V6 l = log6(rel); double d = (double)l.norm(), o = (double)l.head<3>().norm(), gap = M_PI - o, s = 1 + tn(a) + tn(b), tl = (double)tra(rel).norm();
    double tw = gap < 1e-5 ? 1e-6 : 1e-13 + 4e-15 / gap;
    c.near(A.distance_rotation(B), o, tw, "distance-rotation");
    c.near(A.distance_trans(B), (double)(tra(M4(lm(a))) - tra(M4(lm(b)))).norm(), 2e-15 * s, "distance-trans");
    c.near(A.distance(B), d, tw * (1 + 3 * tl) + 1e-11 * tl + 1e-14 * s, "distance"); c.near(A.distance(A), 0, 1e-13 * s, "distance-self");
    double da = (double)log6(M4(lm(a))).norm(); double oa = (double)log6(M4(lm(a))).head<3>().norm(); double ga = M_PI - oa;
    c.near(A.distance(), da, (ga < 1e-5 ? 1e-6 : 1e-13 + 4e-15 / ga) * (1 + 3 * tn(a)) + 1e-11 * tn(a), "distance-default");
    c.same(E(A.T()), a, "distance-operand"); c.same(E(B.T()), b, "distance-operand");
}
SCENARIO(chain, 1) { // long histories of compositions, inverses and updates, tracked by an exact double
    int n = c.thorough ? c.r.i(200, 3000) : c.r.i(20, 300); DM4 a; SE3 A = mkpose(c.r, a); M4 X = lm(a); SO3 R(Mat3(a.topLeftCorner<3, 3>())); M3 Y = rot(X); double big = tn(a) + 1;
    c.mark(Mat4(a)); c.note = fmt("chain of %d from ", n) + ms(a); c.mark(n);
    for (int k = 0; k < n; ++k) {
        D6 x = twist(c.r, c.r.p(0.7) ? 0.3 : 6.0, 1); c.mark(x); M4 ex = exp6(V6(lv(x)));
        switch (c.r.i(0, 6)) {
            case 0: A.update_lhs(x); X = ex * X; break; case 1: A.update_rhs(x); X = X * ex; break;
            case 2: A = A * SE3(Mat61(x)); X = X * ex; break; case 3: A = SE3(Mat61(x)) * A; X = ex * X; break;
            case 4: A = A.inv(); X = inv(X); break;
            case 5: R.update_lhs(x.head<3>()); Y = exp3(V3(lv(D3(x.head<3>())))) * Y; break; default: R = R.inv() * SO3(Mat31(x.head<3>())); Y = Y.transpose().eval() * exp3(V3(lv(D3(x.head<3>()))));
        }
        big = std::max(big, (double)tra(X).norm());
    }
    double tol = 2e-15 * (n + 10);
    c.near(E(A.T()), dm(X), 20 * tol * big, "chain-pose"); c.near(R.R(), dm(Y), 10 * tol, "chain-rotation");
    c.near(A.R() * A.R().transpose(), Eigen::Matrix3d::Identity(), 10 * tol, "chain-orthogonal"); c.same(Eigen::MatrixXd(A.T().row(3)), Eigen::RowVector4d(0, 0, 0, 1), "chain-last-row"); c.ok(mrob::isSE3(A.T()) && mrob::isSO3(R.R()), "chain-valid");
    DM4 pre = E(A.T()); A.regenerate();
    double g = M_PI - (double)log3(rot(X)).norm(), tr = g < 1e-5 ? 1e-6 : 20 * tol + 4e-15 / g;
    c.near(Eigen::MatrixXd(A.R()), Eigen::MatrixXd(pre.topLeftCorner<3, 3>()), tr, "regenerate-rotation"); c.near(A.t(), Eigen::MatrixXd(pre.topRightCorner<3, 1>()), (1e-11 + 10 * tr) * (1 + tn(pre)), "regenerate-translation");
    c.near(A.R() * A.R().transpose(), Eigen::Matrix3d::Identity(), 1e-14, "regenerate-orthogonal"); c.seen("chain-operations", n);
}
SCENARIO(regenerate, 2) { // regeneration removes drift, never moves the pose
    DM4 a; SE3 A = mkpose(c.r, a); double d = c.r.logu(1e-16, 1e-9); SE3 B(A); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) B.ref2T()(i, j) += d * c.r.u(-1, 1);
    c.mark(Mat4(a)); c.mark(d); c.note = "A=" + ms(a) + fmt(" drift %g", d);
    double o = (double)log3(rot(M4(lm(a)))).norm(), g = M_PI - o, tr = g < 1e-4 ? 1e-6 + 3 * std::sqrt(d) : (2e-14 + 20 * d) * (1 + 1 / g) + 1e-15 / g; if (o < 1e-3) tr += 2e-7 + 3 * d; tr *= 4;
    B.regenerate(); c.near(Eigen::MatrixXd(B.R()), Eigen::MatrixXd(a.topLeftCorner<3, 3>()), tr, "regenerate-small-drift"); c.near(B.t(), Eigen::MatrixXd(a.topRightCorner<3, 1>()), (1e-11 + 10 * tr) * tn(a) + 1e-300, "regenerate-keeps-translation");
    c.near(B.R() * B.R().transpose(), Eigen::Matrix3d::Identity(), 1e-14, "regenerate-removes-drift");
}
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
