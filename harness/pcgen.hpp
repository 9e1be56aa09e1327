// Point clouds and the reference alignment (Horn's quaternion method, long double).
#ifndef VERIF_PCGEN_HPP
#define VERIF_PCGEN_HPP
#include <memory>
#include <algorithm>
#include "ref.hpp"
namespace pg {
using namespace ref; using mon::Rng;
typedef Eigen::MatrixXd MD;
enum Shape { BLOB, PLANAR, THIN, CUBE, OCTA, TETRA, SQUARE, TRIANGLE, SPHERE, GRID, NSHAPES };
static const char *SN[] = {"blob", "planar", "thin", "cube", "octahedron", "tetrahedron", "square", "triangle", "sphere", "grid"};
// N x 3 cloud about the origin of unit size
inline MD cloud(Rng &r, int shape, int nmax) {
    MD X; int n = r.i(4, nmax); auto set = [&](std::vector<D3> v) { X.resize(v.size(), 3); for (size_t i = 0; i < v.size(); ++i) X.row(i) = v[i]; };
    switch (shape) {
        case CUBE: { std::vector<D3> v; for (int i = 0; i < 8; ++i) v.push_back(D3(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i & 4 ? 1 : -1)); set(v); break; }
        case OCTA: set({D3(1, 0, 0), D3(-1, 0, 0), D3(0, 1, 0), D3(0, -1, 0), D3(0, 0, 1), D3(0, 0, -1)}); break;
        case TETRA: set({D3(1, 1, 1), D3(1, -1, -1), D3(-1, 1, -1), D3(-1, -1, 1)}); break;
        case SQUARE: set({D3(1, 1, 0), D3(1, -1, 0), D3(-1, -1, 0), D3(-1, 1, 0)}); break;
        case TRIANGLE: { double a = r.u(-3, 3), s = r.p(0.5) ? 1 : r.logu(1e-2, 1); set({D3(1, 0, 0), D3(-0.5, 0.8660254037844386 * s, 0), D3(-0.5 + 0.1 * a * (s != 1), -0.8660254037844386 * s, 0)}); break; }
        case GRID: { std::vector<D3> v; int a = r.i(2, 3), b = r.i(2, 3), d = r.i(1, 3); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) v.push_back(D3(i, j, k)); set(v); break; }
        case SPHERE: X.resize(n, 3); for (int i = 0; i < n; ++i) { D3 g(r.g(), r.g(), r.g()); X.row(i) = g / g.norm(); } break;
        default: { double sy = shape == THIN ? r.logu(1e-2, 1) : 1, sz = shape == PLANAR ? 0 : shape == THIN ? r.logu(1e-4, 1) : 1; X.resize(n, 3); for (int i = 0; i < n; ++i) X.row(i) << r.u(-1, 1), sy * r.u(-1, 1), sz * r.u(-1, 1); }
    }
    if (r.p(0.1)) { int k = X.rows(); X.conservativeResize(k + 1, 3); X.row(k) = X.row(0); }                    // a repeated point
    return X;
}
inline MD apply(const M4 &T, const MD &X) { MX Y = (rot(T) * lm(X).transpose()).colwise() + tra(T); return dm(MX(Y.transpose())); }
inline M3 cross(const MD &X, const MD &Y, const VX &w, V3 &cx, V3 &cy) { MX x = lm(X), y = lm(Y); L s = w.sum(); cx = (x.transpose() * w) / s; cy = (y.transpose() * w) / s; M3 H = M3::Zero(); for (int i = 0; i < x.rows(); ++i) H += w(i) * (V3(x.row(i)) - cx) * (V3(y.row(i)) - cy).transpose(); return H; }
inline L sse(const M4 &T, const MD &X, const MD &Y, const VX &w) { L s = 0; for (int i = 0; i < X.rows(); ++i) { V3 e = V3(lv(D3(Y.row(i)))) - act(T, V3(lv(D3(X.row(i))))); s += w(i) * e.squaredNorm(); } return s; }
// best rotation by the largest eigenvector of Horn's matrix; gap = distance to the second eigenvalue
inline M4 horn(const MD &X, const MD &Y, const VX &w, L &gap) {
    V3 cx, cy; M3 S = cross(X, Y, w, cx, cy); Eigen::Matrix<L, 4, 4> N;
    N << S(0,0) + S(1,1) + S(2,2), S(1,2) - S(2,1), S(2,0) - S(0,2), S(0,1) - S(1,0),
         0, S(0,0) - S(1,1) - S(2,2), S(0,1) + S(1,0), S(2,0) + S(0,2),
         0, 0, -S(0,0) + S(1,1) - S(2,2), S(1,2) + S(2,1),
         0, 0, 0, -S(0,0) - S(1,1) + S(2,2);
    N = N.selfadjointView<Eigen::Upper>(); Eigen::SelfAdjointEigenSolver<Eigen::Matrix<L, 4, 4>> e(N); gap = e.eigenvalues()(3) - e.eigenvalues()(2); V4 q = e.eigenvectors().col(3); V4 p(q(1), q(2), q(3), q(0)); M3 R = quat2R(p); V3 t = cy - R * cx; return mk(R, t);
}
} // namespace pg
#endif
