// C04: pose covariance compounding against an independent operator form of the published law.
#include "ref.hpp"
#include "mrob/SE3cov.hpp"
using namespace ref; using namespace mon; using mrob::SE3; using mrob::SE3Cov; using mrob::Mat4; using mrob::Mat6; using mrob::Mat61;

static M6 curly(const V6 &x) { M6 m = M6::Zero(); m.topLeftCorner<3, 3>() = ref::hat(V3(x.head<3>())); m.bottomRightCorner<3, 3>() = m.topLeftCorner<3, 3>(); m.bottomLeftCorner<3, 3>() = ref::hat(V3(x.tail<3>())); return m; }
struct Cov { M6 S; M6 F; };   // S = F F^T
static Cov cov(Rng &r) {
    M6 F = M6::Zero(); int k = r.i(0, 5); double s = r.p(0.5) ? r.logu(1e-6, 1) : 1;
    if (k == 0) return {M6::Zero(), M6::Zero()};
    if (k == 1) { for (int i = 0; i < 6; ++i) F(i, i) = r.u(0, 1); }
    else if (k == 2) { int rank = r.i(1, 5); for (int i = 0; i < 6; ++i) for (int j = 0; j < rank; ++j) F(i, j) = r.g(); }
    else { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) F(i, j) = r.g(); }
    if (k == 3) { double a = r.logu(1e-3, 1e3); F.topRows<3>() *= a; }
    F *= s; Mat6 S; for (int i = 0; i < 6; ++i) for (int j = 0; j <= i; ++j) { L v = 0; for (int q = 0; q < 6; ++q) v += F(i, q) * F(j, q); S(i, j) = S(j, i) = (double)v; }
    return {M6(lm(S)), F};
}
// columns of F are the sigma directions: A = sum curly(l)^2, B = sum curly(l) S2' curly(l)^T
static M6 Aop(const M6 &F) { M6 A = M6::Zero(); for (int k = 0; k < 6; ++k) { M6 q = curly(V6(F.col(k))); A += q * q; } return A; }
static M6 second(const M4 &T1, const M6 &S1, const M6 &S2) { M6 ad = ref::adj(T1); return S1 + ad * S2 * ad.transpose(); }
static M6 fourth(const M4 &T1, const Cov &c1, const Cov &c2) {
    M6 ad = ref::adj(T1), F2 = ad * c2.F, S2 = ad * c2.S * ad.transpose(), A1 = Aop(c1.F), A2 = Aop(F2), B = M6::Zero();
    for (int k = 0; k < 6; ++k) { M6 q = curly(V6(c1.F.col(k))); B += q * S2 * q.transpose(); }
    return c1.S + S2 + (A1 * S2 + S2 * A1.transpose() + A2 * c1.S + c1.S * A2.transpose()) / 12 + B / 4;
}
static double scale(const M6 &a) { return (double)a.cwiseAbs().maxCoeff(); }

SCENARIO(second_order, 5) {
    DM4 a = pose(c.r, M_PI, c.r.p(0.8) ? 5 : 0), b = pose(c.r, M_PI, 5); Cov u = cov(c.r), v = cov(c.r); Mat6 su = dm(u.S), sv = dm(v.S);
    c.mark(Mat4(a)); c.mark(Mat4(b)); c.mark(su); c.mark(sv); c.note = "T1=" + ms(a) + " T2=" + ms(b) + " S1=" + ms(su) + " S2=" + ms(sv);
    SE3 A{Mat4(a)}, B{Mat4(b)}; SE3Cov P(A, su), Q(B, sv);
    M6 E = second(M4(lm(a)), u.S, v.S); double tol = 1e-14 * (scale(u.S) + (1 + std::pow(a.norm(), 2)) * scale(v.S)) * 4 + 1e-300;
    double ts = 1e-14 * (1 + a.norm() + b.norm()); DM4 m = dm(M4(M4(lm(a)) * M4(lm(b))));
    struct { const char *n; SE3Cov r; } res[] = {{"compound-2nd", P.compound_2nd_order(Q)}, {"compound-2nd-pair", P.compound_2nd_order(B, sv)}, {"mul", P.mul(Q)}, {"times", P * Q}};
    for (auto &x : res) {
        c.near(x.r.cov(), dm(E), tol, std::string(x.n) + "-covariance"); c.near(Eigen::MatrixXd(x.r.T()), m, ts, std::string(x.n) + "-mean");
        c.near(x.r.cov(), x.r.cov().transpose(), tol, std::string(x.n) + "-symmetric");
        Eigen::SelfAdjointEigenSolver<Mat6> es(Mat6(0.5 * (x.r.cov() + x.r.cov().transpose()))); c.bound(std::max(0.0, -es.eigenvalues()(0)), tol, std::string(x.n) + "-psd");
        c.same(x.r.cov(), res[0].r.cov(), "call-forms-agree"); 
    }
    c.same(P.cov(), su, "operand-1-covariance"); c.same(Q.cov(), sv, "operand-2-covariance"); c.same(Eigen::MatrixXd(P.T()), a, "operand-1-mean"); c.same(Eigen::MatrixXd(Q.T()), b, "operand-2-mean");
    SE3Cov K(P); c.same(K.cov(), su, "copy-covariance"); c.same(Eigen::MatrixXd(K.T()), a, "copy-mean"); K = Q; c.same(K.cov(), sv, "assign-covariance");
    SE3Cov D; c.same(Eigen::MatrixXd(D.T()), Eigen::Matrix4d::Identity(), "default-mean"); 
    K = P; K = K * Q; c.same(K.cov(), res[3].r.cov(), "alias-covariance"); K = P; K = K * K; c.near(K.cov(), dm(second(M4(lm(a)), u.S, u.S)), 1e-14 * 4 * (2 + std::pow(a.norm(), 2)) * scale(u.S) + 1e-300, "square-covariance");
}
SCENARIO(fourth_order, 6) {
    DM4 a = pose(c.r, M_PI, c.r.p(0.8) ? 5 : 0), b = pose(c.r, M_PI, 5); Cov u = cov(c.r), v = cov(c.r); Mat6 su = dm(u.S), sv = dm(v.S);
    c.mark(Mat4(a)); c.mark(Mat4(b)); c.mark(su); c.mark(sv); c.note = "T1=" + ms(a) + " T2=" + ms(b) + " S1=" + ms(su) + " S2=" + ms(sv);
    SE3 A{Mat4(a)}, B{Mat4(b)}; SE3Cov P(A, su), Q(B, sv); SE3Cov r = P.compound_4th_order(Q), r2 = P.compound_4th_order(B, sv), r3 = P.compound_4th_order(Q);
    M6 E = fourth(M4(lm(a)), u, v); double s1 = scale(u.S), s2 = (1 + std::pow(a.norm(), 2)) * scale(v.S); double tol = 1e-13 * (s1 + s2 + s1 * s2 * 4) + 1e-300;
    c.near(r.cov(), dm(E), tol, "compound-4th-covariance"); c.near(Eigen::MatrixXd(r.T()), dm(M4(M4(lm(a)) * M4(lm(b)))), 1e-14 * (1 + a.norm() + b.norm()), "compound-4th-mean");
    c.same(r.cov(), r2.cov(), "compound-4th-call-forms"); c.same(r.cov(), r3.cov(), "compound-4th-repeat"); c.near(r.cov(), r.cov().transpose(), tol, "compound-4th-symmetric");
    c.same(P.cov(), su, "operand-1-covariance"); c.same(Q.cov(), sv, "operand-2-covariance"); c.same(Eigen::MatrixXd(P.T()), a, "operand-1-mean"); c.same(Eigen::MatrixXd(Q.T()), b, "operand-2-mean");
    // certain pose on either side: second order is exact
    SE3Cov Z(A, Mat6(Mat6::Zero())); c.near(Z.compound_4th_order(Q).cov(), dm(second(M4(lm(a)), M6::Zero(), v.S)), tol, "compound-4th-certain-left"); c.near(P.compound_4th_order(B, Mat6(Mat6::Zero())).cov(), su, tol, "compound-4th-certain-right");
    if (scale(u.S) > 0 && scale(v.S) > 0) c.seen("both-uncertain");
}
SCENARIO(chains, 2) { // associativity and history independence of second-order compounding
    int n = c.r.i(2, 12); std::vector<SE3Cov> ps; M4 T = M4::Identity(); M6 S = M6::Zero(); double sc = 1e-300, big = 1;
    SE3Cov acc{SE3(), Mat6(Mat6::Zero())};
    for (int k = 0; k < n; ++k) {
        DM4 a = pose(c.r, M_PI, 2); Cov u = cov(c.r); Mat6 su = dm(u.S); SE3Cov p(SE3(Mat4(a)), su); ps.push_back(p); c.mark(Mat4(a)); c.mark(su);
        S = second(T, S, u.S); sc += (1 + std::pow((double)tra(T).norm(), 2)) * scale(u.S) * 4; T = T * M4(lm(a)); big += a.norm();
        acc = k % 2 ? acc * p : acc.compound_2nd_order(p); }
    c.note = fmt("chain of %d", n);
    c.near(acc.cov(), dm(S), 1e-13 * sc * n, "chain-covariance"); c.near(Eigen::MatrixXd(acc.T()), dm(T), 1e-13 * big, "chain-mean");
    SE3Cov right = ps.back(); for (int k = n - 2; k >= 0; --k) right = ps[k] * right; c.near(right.cov(), dm(S), 1e-13 * sc * n * 4, "chain-associative");
}
SCENARIO(curly, 1) { D6 x = twist(c.r, 10); c.mark(x); c.note = "x=" + ms(x); c.same(mrob::curly_wedge(x), dm(curly(V6(lv(x)))), "curly-wedge"); 
    D6 y = twist(c.r, 10); Mat61 z = mrob::curly_wedge(x) * y; M4 br = ref::hat6(V6(lv(x))) * ref::hat6(V6(lv(y))) - ref::hat6(V6(lv(y))) * ref::hat6(V6(lv(x)));
    c.near(mrob::hat6(z), dm(br), 1e-14 * (1 + x.norm() * y.norm()), "curly-wedge-bracket"); }
int main(int argc, char **argv) { return mon::main_loop(argc, argv); }
