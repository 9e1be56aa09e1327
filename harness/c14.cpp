// C14: purity of queries, dependence on the current problem only, reproducibility, dense ids.
#include "graphgen.hpp"
using namespace gg; using namespace mon;
typedef mrob::FGraphSolve GS;
static std::vector<Eigen::MatrixXd> snap(const Built<GS> &B) { std::vector<Eigen::MatrixXd> v; for (auto &n : B.n) if (n) v.push_back(state(n)); return v; }
static bool bits(const std::vector<Eigen::MatrixXd> &a, const std::vector<Eigen::MatrixXd> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].size() != b[i].size() || memcmp(a[i].data(), b[i].data(), sizeof(double) * a[i].size())) return false; return true; }
static std::string show(const std::vector<Eigen::MatrixXd> &a) { std::string o; for (auto &m : a) o += ms(m) + " "; return o.substr(0, 900); }
static void queries(Case &c, Built<GS> &B, Rng &r, int n) { // every observer of a graph
    c.seen("queries", n);
    std::ostringstream sink; struct Redirect { std::streambuf *old; Redirect(std::streambuf *b) : old(std::cout.rdbuf(b)) { std::cout.clear(); } ~Redirect() { std::cout.rdbuf(old); std::cout.setstate(std::ios::failbit); } } redirect(sink.rdbuf()); // restored when a violation leaves the case
    for (; n > 0; --n) { int q = r.i(0, 11); bool full = q == 8 && r.p(0.5) && B.g->number_factors(); if (full && r.p(0.3)) B.g->chi2(true);
        bool pure = q && q != 10; double c0 = pure ? B.g->chi2(false) : 0; Eigen::MatrixXd v0; if (pure) v0 = mrob::MatX1(B.g->get_chi2_array()); switch (q) {
        case 0: B.g->chi2(true); break; case 1: B.g->chi2(false); break; case 2: B.g->get_chi2_array(); break; case 3: B.g->get_estimated_state(); break; case 4: if (B.g->number_factors()) B.g->get_information_matrix(); break; case 5: B.g->get_adjacency_matrix(); break; case 6: B.g->get_W_matrix(); break; case 7: B.g->get_vector_b(); break;
        case 8: B.g->print(full); break; case 9: if (B.g->number_nodes()) B.g->get_node(r.i(0, (int)B.g->number_nodes() - 1))->get_state(); break; case 10: if (B.g->number_factors()) { auto &f = B.g->get_factor(r.i(0, (int)B.g->number_factors() - 1)); f->evaluate_residuals(); f->evaluate_jacobians(); f->evaluate_chi2(); f->get_residual(); f->get_jacobian(); f->evaluate_robust_weight(0.5); f->get_obs(); } break; default: B.g->get_dimension_state(); B.g->get_dimension_obs(); B.g->get_build_matrix_method(); }
        if (pure) { double c1 = B.g->chi2(false); Eigen::MatrixXd v1 = mrob::MatX1(B.g->get_chi2_array()); c.ok(memcmp(&c0, &c1, 8) == 0 && v0.size() == v1.size() && memcmp(v0.data(), v1.data(), sizeof(double) * v0.size()) == 0, fmt("query-changes-chi2:%d", q), fmt("%.17g then %.17g", c0, c1)); } }
}
static void add(Built<GS> &B, const Spec &s, int op) { if (B.n.size() < s.n.size()) { B.n.resize(s.n.size()); B.f.resize(s.f.size()); B.nid.assign(s.n.size(), -1); B.fid.assign(s.f.size(), -1); } if (op >= 0) { B.n[op] = mknode(s.n[op]); B.nid[op] = (int)B.g->add_node(B.n[op]); B.norder.push_back(op); } else { int j = -1 - op; auto &f = s.f[j]; B.f[j] = mkfac(f, B.n[f.a], f.b >= 0 ? B.n[f.b] : NP()); B.fid[j] = (int)B.g->add_factor(B.f[j]); B.forder.push_back(j); } }
struct Act { int kind; int op; int iters; double lam, tol; }; // 0 add, 1 GN, 2 LM, 3 a node is changed from outside
static std::vector<Act> history(Rng &r, const std::vector<int> &ops) {
    std::vector<Act> h; size_t k = 0; int early = r.p(0.6) ? (int)ops.size() : r.i(0, (int)ops.size()); bool sol = false;
    for (; k < ops.size(); ++k) { h.push_back({0, ops[k], 0, 0, 0}); if ((int)k >= early && r.p(0.4)) h.push_back({2, 0, r.i(1, 4), r.logu(1e-6, 10), r.logu(1e-9, 1)}); }
    for (int t = r.i(1, 4); t > 0; --t) { if (r.p(0.5)) h.push_back({1, 0, 0, 0, 0}); else h.push_back({2, 0, r.i(1, 6), r.logu(1e-6, 10), r.logu(1e-9, 1)}); } (void)sol;
    if (r.p(0.5)) for (int t = r.i(1, 3); t > 0; --t) { int at = r.i(1, (int)h.size()); if (r.p(0.5)) at = (int)h.size(); h.insert(h.begin() + at, {3, r.i(0, 99), (int)r.i(0, 1 << 30), r.logu(1e-3, 1), 0}); }
    return h;
}
static bool solvable(Built<GS> &B) { return B.g->get_dimension_state() > 0 && B.g->get_dimension_obs() > 0; }
static void nudge(Built<GS> &B, const Spec &s, const Act &a) { // a user moves one node, by update or by assignment
    std::vector<int> have; for (size_t i = 0; i < B.n.size(); ++i) if (B.n[i] && !s.n[i].anchor) have.push_back((int)i); if (have.empty()) return; int i = have[a.op % have.size()]; Rng q((uint64_t)a.iters, 5); Eigen::MatrixXd d = dm(MX(gauss(q, ndim(s.n[i].k), a.lam))); if (q.p(0.5)) B.n[i]->update(mrob::MatX1(d)); else B.n[i]->set_state(dm(retract(s.n[i].k, lm(state(B.n[i])), lv(mrob::MatX1(d)))));
}
static void apply(Built<GS> &B, const Spec &s, const Act &a) { if (a.kind == 0) add(B, s, a.op); else if (a.kind == 3) nudge(B, s, a); else if (solvable(B)) { if (a.kind == 1) B.g->solve(GS::GN); else B.g->solve(GS::LM, a.iters, a.lam, a.tol); } }
static Spec problem(Case &c) { Rng &r = c.r; Opt o; o.noise = r.p(0.2) ? 0 : r.logu(1e-4, 0.3); o.init = r.logu(1e-4, 0.5); o.kernels = r.p(0.5); o.maxposes = c.thorough && r.p(0.1) ? 12 : 5; o.spread(r, c.thorough); return gen(r, o); }

SCENARIO(queries_are_pure, 4) { // the same history with and without observers in between, plus a third run: bit-identical
    Rng &r = c.r; Spec s = problem(c); auto ops = creation(s, r); auto h = history(r, ops); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); Built<GS> A, B, X; A.g = std::make_shared<GS>(); B.g = std::make_shared<GS>(); Spec xs = problem(c); X = build<GS>(xs, creation(xs, r));
    uint64_t k = 0; for (auto &a : h) { apply(A, s, a); if (r.p(0.5)) X.g->solve(GS::LM, 2, 1e-3, 1e-3); queries(c, B, r, r.i(0, 3)); auto b0 = snap(B); queries(c, B, r, r.i(0, 4)); c.ok(bits(b0, snap(B)), "query-changes-state", "before " + show(b0) + " after " + show(snap(B))); apply(B, s, a); ++k;
        if (a.kind) { auto sa = snap(A), sb = snap(B); c.ok(bits(sa, sb), "observed-history-differs", show(sa) + " vs " + show(sb)); double ca = A.g->chi2(true), cb = B.g->chi2(true); c.ok(memcmp(&ca, &cb, 8) == 0, "observed-chi2-differs", fmt("%.17g vs %.17g", ca, cb)); mrob::MatX1 va = A.g->get_chi2_array(), vb = B.g->get_chi2_array(); c.same(va, vb, "observed-chi2-array-differs"); if (c.nviol) return; c.seen("solves"); if (!finite(states(A))) return; } }
}
SCENARIO(only_the_current_problem, 4) { // used graph against a fresh graph built at the used graph's states
    Rng &r = c.r; Spec s = problem(c); auto ops = creation(s, r); auto h = history(r, ops); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); Built<GS> A; A.g = std::make_shared<GS>(); for (auto &a : h) { apply(A, s, a); if (a.kind && !solvable(A)) continue; bool ok = true; for (auto &n : A.n) if (n && !state(n).allFinite()) ok = false; if (!ok) return; }
    auto x = states(A); if (!finite(x)) return; Spec f = s; for (size_t i = 0; i < s.n.size(); ++i) f.n[i].x = x[i]; std::vector<int> so; for (int i : A.norder) so.push_back(i); for (int j : A.forder) so.push_back(-1 - j); auto F = build<GS>(f, so); for (size_t i = 0; i < s.n.size(); ++i) if (s.n[i].k == PL) F.n[i]->set_state(dm(x[i]));
    bool same = bits(snap(A), snap(F)); if (!same) c.seen("constructor-rounding"); Eigen::VectorXd y; double cf = F.g->chi2(true), ca = A.g->chi2(true); c.near(ca, cf, 1e-9 * cf + 1e-20, "fresh-chi2-differs"); double lam = r.logu(1e-3, 10); int it = r.i(1, 3); bool gn = r.p(0.5);
    if (gn) { A.g->solve(GS::GN); F.g->solve(GS::GN); } else { A.g->solve(GS::LM, it, lam, 1e-6); F.g->solve(GS::LM, it, lam, 1e-6); }
    Eigen::MatrixXd IA(mrob::SMatCol(A.g->get_information_matrix())), IF(mrob::SMatCol(F.g->get_information_matrix())); c.ok(IA.rows() == IF.rows(), "fresh-size"); if (c.nviol) return; Step st = solve(lm(IF), lv(mrob::MatX1(F.g->get_vector_b()))); if (!(st.cond < 1e7L) || st.dx.cwiseAbs().maxCoeff() > 100) { c.seen("not-judged"); return; }
    if (!gn && !same) { c.seen("not-judged"); return; } c.near(IA, IF, 1e-8 * IF.cwiseAbs().maxCoeff(), "fresh-information-matrix"); c.near(Eigen::MatrixXd(mrob::SMatCol(A.g->get_adjacency_matrix())), Eigen::MatrixXd(mrob::SMatCol(F.g->get_adjacency_matrix())), 1e-7 * (1 + Eigen::MatrixXd(mrob::SMatCol(F.g->get_adjacency_matrix())).cwiseAbs().maxCoeff()), "fresh-adjacency");
    auto z = states(A), w = states(F); for (size_t i = 0; i < z.size(); ++i) c.bound((double)nodeerr(s.n[i].k, z[i], w[i]), (same ? 1e-9 : 1e-6) * (1 + (double)w[i].cwiseAbs().maxCoeff() + (double)st.dx.cwiseAbs().maxCoeff()) * (1 + 1e-3 * (double)st.cond), "history-dependent-estimate:" + std::string(gn ? "gn" : "lm") + ":" + NKN[s.n[i].k], [&] { return fmt("node %d ", (int)i) + ms(dm(z[i])) + " fresh " + ms(dm(w[i])) + " from " + ms(dm(x[i])); }); c.seen("fresh-comparisons");
}
SCENARIO(solve_parameters_do_not_stick, 2) { // earlier solves with other methods/parameters from the same states leave no trace
    Rng &r = c.r; Spec s = problem(c); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); auto A = build<GS>(s, ops), F = build<GS>(s, ops); std::vector<Eigen::MatrixXd> x0 = snap(F); for (auto &n : F.n) n->set_state(state(n)); 
    for (int t = r.i(1, 3); t > 0; --t) { if (r.p(0.4)) A.g->solve(GS::GN); else A.g->solve(GS::LM, r.i(1, 12), r.logu(1e-9, 1e3), r.logu(1e-12, 10)); } for (size_t i = 0; i < A.n.size(); ++i) A.n[i]->set_state(state(F.n[i])); if (!bits(snap(A), snap(F))) { c.seen("not-restored"); return; }
    bool gn = r.p(0.4), def = r.p(0.3); int it = r.i(1, 8); double lam = r.logu(1e-6, 10), tol = r.logu(1e-9, 1); for (auto *g : {&A, &F}) { if (gn) g->g->solve(GS::GN); else if (def) g->g->solve(GS::LM); else g->g->solve(GS::LM, it, lam, tol); }
    c.ok(bits(snap(A), snap(F)), "earlier-solve-leaves-trace", show(snap(A)) + " fresh " + show(snap(F))); c.seen("restored-solves");
}
SCENARIO(bookkeeping, 2) {
    Rng &r = c.r; Spec s = problem(c); auto ops = creation(s, r); gg::mark(c, s); c.mark(ops.data(), ops.size() * sizeof(int)); c.note = desc(s); Built<GS> B; B.g = std::make_shared<GS>(); size_t nn = 0, nf = 0, sd = 0, od = 0;
    for (int op : ops) { add(B, s, op); if (op >= 0) { c.ok((size_t)B.nid[op] == nn, "node-id"); ++nn; if (!s.n[op].anchor) sd += ndim(s.n[op].k); } else { int j = -1 - op; c.ok((size_t)B.fid[j] == nf, "factor-id"); ++nf; od += fdim(s.f[j].k); }
        c.ok(B.g->number_nodes() == nn && B.g->number_factors() == nf, "counts"); c.ok(B.g->get_dimension_state() == sd && B.g->get_dimension_obs() == od, "dimensions"); if (r.p(0.1) && solvable(B)) B.g->solve(GS::LM, 1, 1e-2, 1e-2); }
    for (size_t i = 0; i < s.n.size(); ++i) { c.ok(B.g->get_node(B.nid[i]) == B.n[i] && (int)B.n[i]->get_id() == B.nid[i], "get-node"); size_t k = 0; for (auto &f : s.f) k += f.a == (int)i || f.b == (int)i; c.ok(B.n[i]->get_neighbour_factors()->size() == k, "neighbour-factors", fmt("%d expected %d", (int)B.n[i]->get_neighbour_factors()->size(), (int)k)); }
    for (size_t j = 0; j < s.f.size(); ++j) c.ok(B.g->get_factor(B.fid[j]) == B.f[j] && (int)B.f[j]->get_id() == B.fid[j], "get-factor"); for (int bad : {0, 1, 100}) { bool threw = false; try { B.g->get_node(nn + bad); } catch (std::exception &) { threw = true; } c.ok(threw, "invalid-node-id"); threw = false; try { B.g->get_factor(nf + bad); } catch (std::exception &) { threw = true; } c.ok(threw, "invalid-factor-id"); }
    // removing a factor from a node's list removes that one only
    int i = r.i(0, (int)s.n.size() - 1); auto *l = B.n[i]->get_neighbour_factors(); auto before = *l; int j = r.i(0, (int)s.f.size() - 1); bool is = s.f[j].a == i || s.f[j].b == i; bool got = B.n[i]->rm_factor(B.f[j]); c.ok(got == is, "rm-factor-result"); auto want = before; if (is) want.erase(std::find(want.begin(), want.end(), B.f[j])); c.ok(*l == want, "rm-factor-list"); c.seen("graphs");
}
int main(int argc, char **argv) { std::cout.setstate(std::ios::failbit); return mon::main_loop(argc, argv); }
