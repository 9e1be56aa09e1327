// Graphs of up to thousands of nodes, judged by the backward error of the step: the move observed in the states
// must solve (A^T W A + lambda I) dx = A^T W r assembled sparsely from the reference factors.
#ifndef VERIF_BIGGRAPH_HPP
#define VERIF_BIGGRAPH_HPP
#include <map>
#include "graphgen.hpp"
namespace gg {
inline Spec bigspec(mon::Rng &r, int N, bool d3, double noise, double init, bool kernels) {
    Spec s; auto node = [&](NK k, const MX &t) { NodeS n; n.k = k; n.truth = dbl(t); s.n.push_back(n); return (int)s.n.size() - 1; };
    auto fac = [&](FK k, int a, int b) { FacS f; f.k = k; f.a = a; f.b = b; f.W = spd(r, fdim(k), 1); f.robust = kernels ? r.i(0, 3) : 0; f.ctor = r.i(0, 1); static const MX none; f.z = perfect(f, s.n[a].truth, b >= 0 ? s.n[b].truth : none); f.z = noisy(r, f, f.z, noise); s.f.push_back(f); };
    int star = r.p(0.2) ? r.i(0, N - 1) : -1;                                 // one hub seen by many
    M4 T = M4::Identity(); VX x = VX::Zero(3); std::vector<int> p;
    for (int i = 0; i < N; ++i) { if (d3) { p.push_back(node(P3, MX(T))); VX d(6); for (int j = 0; j < 3; ++j) d(j) = 0.3 * r.g(); for (int j = 3; j < 6; ++j) d(j) = r.u(-1, 1); T = T * exp6(V6(d)); } else { p.push_back(node(P2, MX(x))); x(0) += r.u(0.2, 1) * std::cos(x(2)); x(1) += r.u(0.2, 1) * std::sin(x(2)); x(2) = wrap(x(2) + 0.5 * r.g()); } }
    if (r.p(0.5)) s.n[p[r.i(0, N - 1)]].anchor = true; else fac(d3 ? F1P3 : F1P2, p[r.i(0, N - 1)], -1);
    for (int i = 1; i < N; ++i) { int a = p[i - 1], b = p[i]; if (r.p(0.2)) std::swap(a, b); fac(d3 ? F2P3 : r.p(0.3) ? FODO : F2P2, a, b); }
    for (int k = N / 4; k > 0; --k) { int a = r.i(0, N - 1), b = r.p(0.7) ? std::min(N - 1, a + r.i(1, 8)) : r.i(0, N - 1); if (star >= 0 && r.p(0.5)) a = star; if (a != b) fac(d3 ? F2P3 : F2P2, p[a], p[b]); }
    for (int k = N / 8; k > 0; --k) { int a = r.i(0, N - 1); VX q(d3 ? 3 : 2); for (int j = 0; j < q.size(); ++j) q(j) = (d3 ? tra(m4(s.n[p[a]].truth))(j) : s.n[p[a]].truth(j)) + 2 * r.sgn() * r.u(0.4, 1); int l = node(d3 ? L3 : L2, q), c = 0; for (int j = std::max(0, a - 2); j <= std::min(N - 1, a + 2); ++j) { if (!d3 && (s.n[p[j]].truth.topRows(2) - s.n[l].truth).norm() < 0.3) continue; fac(d3 ? FPL3 : FPL2, p[j], l); ++c; } if (!c) s.n.pop_back(); else if (r.p(0.05)) s.n[l].anchor = true; }
    for (auto &n : s.n) { n.x = n.truth; if (!n.anchor && init > 0) n.x = dbl(retract(n.k, n.truth, gauss(r, ndim(n.k), init))); }
    return s;
}
inline double gapP3(const MX &x) { return logtol(gapof(x)); }
// judge one solve: x before, z after
template <class B_> void bigjudge(mon::Case &c, const Spec &s, const B_ &B, const std::vector<MX> &x, const std::vector<MX> &z, double lam, const std::string &key) {
    int N = 0; std::vector<int> col(s.n.size(), -1); for (int i : B.norder) if (!s.n[i].anchor) { col[i] = N; N += ndim(s.n[i].k); }
    VX dx = VX::Zero(N), er = VX::Zero(N); L sx = 1; for (auto &m : x) sx = std::max(sx, m.cwiseAbs().maxCoeff());
    for (size_t i = 0; i < s.n.size(); ++i) { if (col[i] < 0) { c.same(dm(z[i]), dm(x[i]), key + ":anchor-moved"); continue; } int k = ndim(s.n[i].k); VX d; L e = 1e-13L * (1 + x[i].cwiseAbs().maxCoeff()); if (s.n[i].k == P3) { d = -log6(M4(m4(z[i]) * inv(m4(x[i])))); if (d.head(3).norm() > 2.8L) { c.seen("not-judged"); return; } e += 20 * gapP3(z[i]) * (1 + z[i].cwiseAbs().maxCoeff()) + 1e-12L; } else { d = x[i] - z[i]; if (s.n[i].k == P2) { d(2) = wrap(d(2)); if (std::fabs(d(2)) > 2.8L) { c.seen("not-judged"); return; } } } dx.segment(col[i], k) = d; er.segment(col[i], k).setConstant(e); }
    VX v = VX::Zero(N), a = VX::Zero(N), D = VX::Zero(N); static const MX none; std::map<std::pair<int, int>, L> H; bool wantH = N < 900;
    for (int j : B.forder) { auto &f = s.f[j]; const MX &p = x[f.a], &q = f.b >= 0 ? x[f.b] : none; NK kb = f.b >= 0 ? s.n[f.b].k : P2; VX r = element(f, p, q).v; L u = std::sqrt(chi2ref(f, r)); MX W = f.W * weight(f.robust, u); int nd[2] = {f.a, f.b}; MX J[2]; VX t = -r, ta = r.cwiseAbs() * 1e-2L; VX te = VX::Zero(r.size());
        if (f.robust == 1 && std::fabs(u - 1) < 1e-7L) { c.seen("not-judged"); return; }
        for (int w = 0; w < 2; ++w) if (nd[w] >= 0 && col[nd[w]] >= 0) { J[w] = numjac(f, p, q, s.n[f.a].k, kb, w); auto seg = dx.segment(col[nd[w]], J[w].cols()); t += J[w] * seg; ta += J[w].cwiseAbs() * seg.cwiseAbs(); te += J[w].cwiseAbs() * er.segment(col[nd[w]], J[w].cols()); }
        for (int w = 0; w < 2; ++w) if (J[w].size()) { int cw = col[nd[w]]; v.segment(cw, J[w].cols()) += J[w].transpose() * (W * t); a.segment(cw, J[w].cols()) += J[w].cwiseAbs().transpose() * (W.cwiseAbs() * (1e-6L * ta + 10 * te)); MX h = J[w].transpose() * W * J[w]; D.segment(cw, J[w].cols()) += h.diagonal(); if (wantH) for (int w2 = 0; w2 < 2; ++w2) if (J[w2].size()) { MX g = J[w].transpose() * W * J[w2]; for (int i = 0; i < g.rows(); ++i) for (int k = 0; k < g.cols(); ++k) H[{cw + i, col[nd[w2]] + k}] += g(i, k); } } }
    v += lam * dx; a += (lam * (dx.cwiseAbs() * 1e-9L + er)); L nv = 0, na = 0; for (int i = 0; i < N; ++i) { L d = std::sqrt(D(i) + lam); if (!(d > 0)) d = 1; nv += std::pow(v(i) / d, 2); na += std::pow(a(i) / d, 2); }
    c.bound((double)std::sqrt(nv), (double)std::sqrt(na) + 1e-300, key + ":normal-equations", [&] { return mon::fmt("%d nodes %d factors %d states lambda %.6g: the move leaves %.6g of the normal equations (allowed %.6g)", (int)s.n.size(), (int)s.f.size(), N, lam, (double)std::sqrt(nv), (double)std::sqrt(na)); });
    mrob::SMatCol I = B.g->get_information_matrix(); c.ok(I.rows() == N && I.cols() == N && (int)B.g->get_vector_b().size() == N && (int)B.g->get_dimension_state() == N, key + ":size"); if (c.nviol || !wantH) { c.seen("big-systems"); c.seen("big-nodes", s.n.size()); return; }
    for (int k = 0; k < I.outerSize(); ++k) for (mrob::SMatCol::InnerIterator it(I, k); it; ++it) { auto h = H.find({(int)it.row(), (int)it.col()}); L want = (h == H.end() ? 0 : h->second) + (it.row() == it.col() ? lam : 0), sc = std::sqrt((D((int)it.row()) + lam) * (D((int)it.col()) + lam)); c.bound((double)std::fabs(it.value() - want), (double)(1e-7L * sc * (1 + 1e-2L * sx)) + 1e-300, key + ":information-matrix"); if (h != H.end()) H.erase(h); }
    for (auto &h : H) { L sc = std::sqrt((D(h.first.first) + lam) * (D(h.first.second) + lam)); c.bound((double)std::fabs(h.second), (double)(1e-7L * sc * (1 + 1e-2L * sx)), key + ":information-matrix-missing-entry"); }
    c.seen("big-systems"); c.seen("big-nodes", s.n.size());
}
} // namespace gg
#endif
