// Monitor runtime shared by all workloads: deterministic case generation, online checks,
// violation and coverage records, per-case CPU-time bound (bounded progress).
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <Eigen/Core>

namespace mon {

// ---------------------------------------------------------------- random choices
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t &x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    Rng(uint64_t seed = 1, uint64_t k = 0) { uint64_t x = seed * 0x2545F4914F6CDD1DULL ^ (k * 0xd1342543de82ef95ULL + 77); s[0] = mix(x); s[1] = mix(x); }
    uint64_t next() {
        uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b;
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }              // [0,1)
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }       // inclusive
    bool p(double q) { return u() < q; }
    double g() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    double sgn() { return p(0.5) ? 1.0 : -1.0; }
    double logu(double lo, double hi) { return std::exp(u(std::log(lo), std::log(hi))); } // log-uniform, positive
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T> &v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ULL; }
    return h;
}

struct Skip {};      // case outside the property's domain: discarded, counted apart
struct Abandon {};   // enough violations in this case

struct Case;
struct Scenario { const char *name; int weight; void (*fn)(Case &); };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char *n, int w, void (*f)(Case &)) { scenarios().push_back({n, w, f}); } };

struct Global {
    FILE *out = nullptr;
    int progress_fd = -1;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, double> ratio;      // worst observed error / tolerance per monitor
    std::vector<std::string> samples;
    uint64_t evaluations = 0, skipped = 0, checks = 0, violations = 0;
    bool thorough = false;
    int verbose = 0;
};
inline Global &G() { static Global g; return g; }

inline std::string fmt(const char *f, ...) {
    char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
template <class D> std::string ms(const Eigen::DenseBase<D> &m) {
    std::ostringstream o; o.precision(17);
    o << "[";
    for (int r = 0; r < m.rows(); ++r) { for (int c = 0; c < m.cols(); ++c) o << (c ? " " : "") << (double)m(r, c); if (r + 1 < m.rows()) o << "; "; }
    o << "]"; return o.str();
}

struct Case {
    Rng r;
    uint64_t seed, idx;
    const Scenario *sc;
    bool thorough;
    std::string note;        // description of the case, for samples and replays
    uint64_t h = 1469598103934665603ULL;
    bool nontrivial = false;
    int nviol = 0;
    Case(uint64_t s, uint64_t k, const Scenario *q) : r(s, k), seed(s), idx(k), sc(q), thorough(G().thorough) {}

    void describe(const std::string &s) { note = s; }
    void viol(const std::string &key, const std::string &msg) {
        std::string m = msg + " | " + note; for (auto &ch : m) if (ch == '\n' || ch == '\t') ch = ' ';
        if (m.size() > 3000) m.resize(3000);
        fprintf(G().out, "V\t%llu\t%s\t%s\t%s\n", (unsigned long long)idx, sc->name, key.c_str(), m.c_str()); fflush(G().out);
        G().violations++;
        if (++nviol >= 5) throw Abandon();
    }
    void seen(const std::string &what, uint64_t n = 1) { G().counters[what] += n; }
    void trivial() {}
    void mark(const void *p, size_t n) { h = hash_bytes(p, n, h); nontrivial = true; }
    template <class D> void mark(const Eigen::PlainObjectBase<D> &m) { mark(m.data(), sizeof(typename D::Scalar) * m.size()); }
    void mark(double x) { mark(&x, sizeof x); }
    // The monitors -------------------------------------------------------------
    void ok(bool cond, const std::string &key, const std::string &msg = "") {
        G().checks++;
        if (!cond) viol(key, msg);
    }
    // err must be finite and <= tol
    void bound(double err, double tol, const std::string &key, const std::function<std::string()> &msg = [] { return std::string(); }) {
        G().checks++;
        double q = err / tol; if (!(err == err)) q = INFINITY; if (err == 0) q = 0;
        auto &w = G().ratio[key]; if (q > w) { w = q; if (G().verbose) fprintf(stderr, "ratio %s %.3g (err %.3g tol %.3g) case %llu %s %s\n", key.c_str(), q, err, tol, (unsigned long long)idx, note.c_str(), G().verbose > 1 ? msg().c_str() : ""); }
        if (!(q <= 1)) viol(key, fmt("error %.6g exceeds %.3g; ", err, tol) + msg());
    }
    template <class A, class B> void near(const Eigen::DenseBase<A> &a, const Eigen::DenseBase<B> &b, double tol, const std::string &key) {
        if (a.rows() != b.rows() || a.cols() != b.cols()) { G().checks++; viol(key, fmt("size %dx%d, expected %dx%d", (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols())); return; }
        double e = 0;
        for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
            double x = (double)a(i, j), y = (double)b(i, j); double d = std::fabs(x - y); if (x == y) d = 0;
            if (!(d == d)) { e = NAN; } if (d > e) e = d; }
        bound(e, tol, key, [&] { return "got " + ms(a) + " expected " + ms(b); });
    }
    void near(double a, double b, double tol, const std::string &key) {
        bound(a == b ? 0 : std::fabs(a - b), tol, key, [&] { return fmt("got %.17g expected %.17g", a, b); });
    }
    template <class A, class B> void same(const Eigen::DenseBase<A> &a, const Eigen::DenseBase<B> &b, const std::string &key) {
        G().checks++;
        bool eq = a.rows() == b.rows() && a.cols() == b.cols();
        if (eq) for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!(a(i, j) == b(i, j)) && !(a(i, j) != a(i, j) && b(i, j) != b(i, j))) eq = false;
        if (!eq) viol(key, "got " + ms(a) + " expected exactly " + ms(b));
    }
    [[noreturn]] void skip() { throw Skip(); }
};

#define SCENARIO(name, weight) \
    static void scen_##name(mon::Case &c); \
    static mon::Reg reg_##name(#name, weight, scen_##name); \
    static void scen_##name(mon::Case &c)

inline std::string jesc(const std::string &s) {
    std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if ((unsigned char)ch < 32) o += ' '; else o += ch; } return o;
}
inline void on_prof(int) { const char m[] = "VERIF-CPU-LIMIT\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
inline void arm(double sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)sec; t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6); setitimer(ITIMER_PROF, &t, nullptr);
}

// usage: harness --seed S --from A --to B --stride K --out FILE --progress FILE --limit CPUSEC [--thorough] [--verbose] [--only SCEN]
inline int main_loop(int argc, char **argv) {
    uint64_t seed = 1, from = 0, to = 1, stride = 1; double limit = 30; std::string out = "/dev/stdout", prog, only;
    for (int k = 1; k < argc; ++k) {
        std::string a = argv[k];
        auto val = [&]() -> std::string { return argv[++k]; };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(val().c_str(), 0, 10);
        else if (a == "--out") out = val();
        else if (a == "--progress") prog = val();
        else if (a == "--limit") limit = atof(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--thorough") G().thorough = true;
        else if (a == "--verbose") G().verbose = 1;
        else if (a == "--vv") G().verbose = 2;
        else if (a == "--list") { int w = 0; for (auto &s : scenarios()) { printf("%s %d\n", s.name, s.weight); w += s.weight; } return 0; }
    }
    G().out = fopen(out.c_str(), "a");
    if (!G().out) { fprintf(stderr, "cannot open %s\n", out.c_str()); return 3; }
    if (!prog.empty()) G().progress_fd = open(prog.c_str(), O_WRONLY | O_CREAT, 0644);
    signal(SIGPROF, on_prof);
    struct NullBuf : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
    static NullBuf nb; std::cout.rdbuf(&nb);       // the library narrates on stdout
    int total = 0; for (auto &s : scenarios()) total += s.weight;
    std::unordered_set<uint64_t> distinct;
    for (uint64_t k = from; k < to; k += stride) {
        int w = (int)(k % total); const Scenario *sc = nullptr;
        for (auto &s : scenarios()) { if (w < s.weight) { sc = &s; break; } w -= s.weight; }
        if (!only.empty() && only != sc->name) continue;
        if (G().progress_fd >= 0) { char b[64]; int n = snprintf(b, sizeof b, "%020llu %-40s\n", (unsigned long long)k, sc->name); (void)!pwrite(G().progress_fd, b, n, 0); }
        arm(limit);
        Case c(seed, k, sc);
        try { sc->fn(c); G().evaluations++; G().counters[std::string("scenario:") + sc->name]++; if (c.nontrivial) distinct.insert(c.h); }
        catch (Skip &) { G().skipped++; }
        catch (Abandon &) { G().evaluations++; }
        catch (std::exception &e) {
            std::string t = typeid(e).name();
            try { c.viol("unexpected-exception", std::string("exception ") + t + ": " + e.what()); } catch (Abandon &) {}
            G().evaluations++;
        }
        arm(0);
        if (c.nviol == 0 && !c.note.empty() && G().samples.size() < 4 && (k / stride) % 7 == 3) G().samples.push_back(fmt("case %llu %s: ", (unsigned long long)k, sc->name) + c.note.substr(0, 600));
        if (G().violations >= 40) break;
    }
    FILE *o = G().out;
    fprintf(o, "E\t%llu\t%llu\t%llu\n", (unsigned long long)G().evaluations, (unsigned long long)G().skipped, (unsigned long long)G().checks);
    for (auto &p : G().counters) fprintf(o, "C\t%s\t%llu\n", p.first.c_str(), (unsigned long long)p.second);
    for (auto &p : G().ratio) fprintf(o, "R\t%s\t%.6g\n", p.first.c_str(), p.second);
    for (auto &s : G().samples) fprintf(o, "S\t%s\n", s.c_str());
    fprintf(o, "D"); for (auto x : distinct) fprintf(o, "\t%llx", (unsigned long long)x); fprintf(o, "\n");
    fprintf(o, "DONE\n");
    fclose(o);
    return 0;
}
} // namespace mon
#endif
