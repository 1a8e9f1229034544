// Small property-based-testing engine: every random decision of a case is a
// recorded "choice" (an integer below a bound); shrinking edits the recorded
// choice list and re-runs the case, so every generator shrinks for free and a
// replay file is simply the list of choices.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hstr(const char *s) {
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
    return h;
}

// a plain PRNG whose seed is itself a choice (used to expand signals)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }   // [0,1)
    double sym() { return 2 * uni() - 1; }
    double gauss() {
        double u = uni(), v = uni();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
    }
    int i(int lo, int hi) { return lo + int(next() % uint64_t(int64_t(hi) - lo + 1)); }
};

static const int MAX_CHOICES = 1 << 15;

struct Src {
    // recording area (may live in shared memory so that a crash leaves it readable)
    uint64_t *rec; volatile int *nrec;
    // mode
    bool replay; const uint64_t *in; int nin; int pos;
    Rng rng;
    // bytes mode (libFuzzer)
    const uint8_t *bytes; size_t nbytes; size_t bpos;
    // results
    bool nontriv = false;
    std::string desc;
    bool wantDesc = false;
    bool flavorPlain = false;

    Src(uint64_t *r, volatile int *n) : rec(r), nrec(n), replay(false), in(nullptr), nin(0), pos(0), rng(0), bytes(nullptr), nbytes(0), bpos(0) { *nrec = 0; }

    uint64_t draw(uint64_t n) {                // uniform in [0,n), n>=1
        uint64_t v;
        if (replay) { v = pos < nin ? in[pos] : 0; ++pos; if (n && v >= n) v = v % n; }
        else if (bytes) {
            uint64_t x = 0; uint64_t m = n - 1; 
            while (m) { x = (x << 8) | (bpos < nbytes ? bytes[bpos] : 0); ++bpos; m >>= 8; }
            v = n ? x % n : x;
        } else v = n ? rng.next() % n : rng.next();
        if (*nrec >= MAX_CHOICES) throw Discard();
        rec[*nrec] = v; *nrec = *nrec + 1;
        return v;
    }
    // --- integers -------------------------------------------------------
    int i(int lo, int hi) { return lo + int(draw(uint64_t(int64_t(hi) - lo) + 1)); }
    bool b() { return draw(2) == 1; }
    bool chance(int oneIn) { return draw(oneIn) == uint64_t(oneIn - 1); }   // shrinks to false
    // size biased to small values, reaching hi regularly
    // as sz(lo, hi), but one in `rare` lies between hi and `large` (log-uniform)
    int szl(int lo, int hi, int rare, int large) {
        if (hi < lo) hi = lo;
        if (large <= hi || !chance(rare)) return sz(lo, hi);
        double x = std::log(hi + 1.0) + (std::log(large + 1.0) - std::log(hi + 1.0)) * (draw(1 << 20) / double(1 << 20));
        int v = int(std::exp(x)); return v < lo ? lo : v > large ? large : v;
    }
    // number of calls made on one object: mostly lo..hi, one in `rare` up to `top`
    // as far as `cost` operations per call leave room
    int hist(int lo, int hi, double cost, int rare = 12, int top = 300, double budget = 4e6) {
        double most = budget / (cost > 1 ? cost : 1); int large = most < top ? int(most) : top;
        if (large <= hi || !chance(rare)) return i(lo, hi);
        int v = int(std::exp(std::log(hi + 1.0) + (std::log(large + 1.0) - std::log(hi + 1.0)) * (draw(1 << 20) / double(1 << 20)))); note("%d calls", v);
        return v < lo ? lo : v > large ? large : v;
    }
    int sz(int lo, int hi) {
        if (hi <= lo) return lo;
        uint64_t k = draw(8);
        int64_t span = int64_t(hi) - lo;
        if (k < 3) { int64_t h = span < 8 ? span : 8; return lo + int(draw(h + 1)); }
        if (k < 5) { int64_t h = span < 40 ? span : 40; return lo + int(draw(h + 1)); }
        if (k < 7) {   // log-uniform
            double l = std::log(double(span) + 1);
            double x = std::exp(l * (draw(1 << 20) / double(1 << 20))) - 1;
            int64_t v = int64_t(x); if (v > span) v = span;
            return lo + int(v);
        }
        return lo + int(draw(span + 1));
    }
    template <typename T> T pick(std::initializer_list<T> l) {
        size_t k = draw(l.size()); return *(l.begin() + k);
    }
    template <typename T> const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }
    // --- doubles --------------------------------------------------------
    double unit() { return draw(1u << 30) / double(1u << 30); }             // [0,1)
    double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logu(double lo, double hi) { return lo * std::exp(std::log(hi / lo) * unit()); }
    // varied value of magnitude up to m
    double val(double m = 100) {
        switch (draw(8)) {
        case 0: return 0.0;
        case 1: { double v = double(draw(4)) ; return v > m ? m : v; }
        case 2: { double v = -double(draw(4)); return v < -m ? -m : v; }
        case 3: return double(int(draw(33)) - 16) / 8.0 * (m < 2 ? m / 2 : 1);
        case 4: case 5: return uni(-m, m);
        case 6: return (b() ? -1 : 1) * logu(1e-9, m);
        default: return (b() ? -1 : 1) * m * (draw(3) + 1) / 3.0;
        }
    }
    double pos_val(double m = 100) { return std::fabs(val(m)); }
    uint64_t seed() { return draw(1u << 24); }

    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!wantDesc) return;
        if (desc.size() > 4000) return;
        char buf[600]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (!desc.empty()) desc += "; ";
        desc += buf;
    }
    template <typename V> void notev(const char *name, const V &v) {
        if (!wantDesc) return;
        std::string s = name; s += "=[";
        size_t k = 0;
        for (auto x : v) { if (k++ >= 12) { s += ",..."; break; } char b[40]; snprintf(b, sizeof b, "%s%.6g", k > 1 ? "," : "", double(x)); s += b; }
        s += "]"; char b[32]; snprintf(b, sizeof b, "(n=%zu)", size_t(v.size())); s += b;
        if (!desc.empty()) desc += "; ";
        desc += s;
    }
    void nontrivial(bool c = true) { if (c) nontriv = true; }
};

[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fail(const char *fmt, ...) {
    char buf[1500]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Failure{buf};
}
#define REQUIRE(c, ...) do { if (!(c)) ::pbt::fail(__VA_ARGS__); } while (0)

typedef void (*SubFn)(Src &);
struct Sub { const char *prop; const char *name; SubFn fn; int quick; const char *rule; int c39; };
std::vector<Sub> &registry();
struct Reg { Reg(const char *p, const char *n, SubFn f, int q, const char *rule, int c39) { registry().push_back({p, n, f, q, rule, c39}); } };
// SUB(prop, name, cases at the quick tier per flavor, non-triviality rule)
// called in every worker of C38 before its first case
inline void (*&workerHook())() { static void (*h)() = nullptr; return h; }
#define SUB(prop, name, quick, rule) \
    static void sub_##prop##_##name(pbt::Src &s); \
    static pbt::Reg reg_##prop##_##name(#prop, #name, sub_##prop##_##name, quick, rule, 1); \
    static void sub_##prop##_##name(pbt::Src &s)
// the same, but not re-run by the memory-safety property
#define SUBX(prop, name, quick, rule) \
    static void sub_##prop##_##name(pbt::Src &s); \
    static pbt::Reg reg_##prop##_##name(#prop, #name, sub_##prop##_##name, quick, rule, 0); \
    static void sub_##prop##_##name(pbt::Src &s)

// ---------------------------------------------------------------- compare
inline bool close(double a, double b, double tol) {
    if (a == b) return true;
    return std::fabs(a - b) <= tol;     // false for NaN
}
inline double maxabs(const std::vector<double> &v) { double m = 0; for (double x : v) if (std::fabs(x) > m) m = std::fabs(x); return m; }
inline void same(const char *what, const std::vector<double> &got, const std::vector<double> &want, double tol) {
    if (got.size() != want.size()) fail("%s: length %zu, expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i)
        if (!close(got[i], want[i], tol)) fail("%s: index %zu of %zu is %.17g, expected %.17g (tolerance %.3g)", what, i, got.size(), got[i], want[i], tol);
}
inline void sameBits(const char *what, const std::vector<double> &got, const std::vector<double> &want) {
    if (got.size() != want.size()) fail("%s: length %zu, expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i)
        if (!(got[i] == want[i] || (got[i] != got[i] && want[i] != want[i]))) fail("%s: index %zu of %zu is %.17g, expected %.17g (exactly)", what, i, got.size(), got[i], want[i]);
}
inline void finite(const char *what, const std::vector<double> &v) {
    for (size_t i = 0; i < v.size(); ++i) if (!std::isfinite(v[i])) fail("%s: index %zu of %zu is %g, not finite", what, i, v.size(), v[i]);
}

// ---------------------------------------------------------------- exactly sized heap buffers
// (so that the address sanitizer sees a read or write one element outside)
template <typename T> struct Buf {
    T *p; size_t n;
    explicit Buf(size_t n_, T fill = T()) : p((T *)malloc(n_ ? n_ * sizeof(T) : 1)), n(n_) { for (size_t i = 0; i < n; ++i) p[i] = fill; }
    explicit Buf(const std::vector<T> &v) : p((T *)malloc(v.size() ? v.size() * sizeof(T) : 1)), n(v.size()) { for (size_t i = 0; i < n; ++i) p[i] = v[i]; }
    Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
    ~Buf() { free(p); }
    operator T *() { return p; }
    T &operator[](size_t i) { return p[i]; }
    std::vector<T> vec() const { return std::vector<T>(p, p + n); }
    std::vector<T> vec(size_t k) const { return std::vector<T>(p, p + (k < n ? k : n)); }
    size_t size() const { return n; }
};
typedef Buf<double> DBuf;

// ---------------------------------------------------------------- signals
// n samples; the kind, level and seed are choices.
inline std::vector<double> signal(Src &s, int n, double amp = 1.0, const char *name = "signal") {
    std::vector<double> v(n, 0.0);
    int kind = int(s.draw(10));
    double a = amp;
    switch (s.draw(4)) { case 0: case 1: break; case 2: a = amp * 1e-3; break; default: a = amp * 0.37; }
    Rng r(s.seed());
    switch (kind) {
    case 0: for (int i = 0; i < n; ++i) v[i] = a * r.sym(); break;
    case 1: break;                                                        // silence
    case 2: for (int i = 0; i < n; ++i) v[i] = a; break;                   // constant
    case 3: if (n) v[r.i(0, n - 1)] = a; break;                           // impulse
    case 4: { double w = M_PI * r.uni(), ph = 6.3 * r.uni(); for (int i = 0; i < n; ++i) v[i] = a * sin(w * i + ph); break; }
    case 5: for (int i = 0; i < n; ++i) v[i] = a * (n > 1 ? double(i) / (n - 1) : 1); break;   // ramp
    case 6: for (int i = 0; i < n; ++i) v[i] = r.uni() < 0.15 ? a * r.sym() : 0; break;        // sparse
    case 7: for (int i = 0; i < n; ++i) v[i] = (i & 1) ? -a : a; break;   // nyquist
    case 8: { double w = 0.3 * r.uni(), w2 = M_PI * r.uni(); for (int i = 0; i < n; ++i) v[i] = a * (0.6 * sin(w * i) + 0.3 * sin(w2 * i) + 0.1 * r.gauss()); break; }
    default: { double x = 0; for (int i = 0; i < n; ++i) { x = 0.95 * x + 0.3 * r.gauss(); v[i] = a * x; } }
    }
    static const char *names[] = {"noise", "silence", "constant", "impulse", "sine", "ramp", "sparse", "nyquist", "mixture", "random-walk"};
    s.note("%s: %s n=%d amp=%g", name, names[kind], n, a);
    return v;
}
// small explicit arrays (shrink element by element) or longer generated ones
inline std::vector<double> values(Src &s, int n, double m = 100, const char *name = "values") {
    std::vector<double> v(n);
    if (n <= 12 || s.chance(4)) {
        if (n > 400) { Rng r(s.seed()); for (auto &x : v) x = m * r.sym(); }
        else for (auto &x : v) x = s.val(m);
    } else {
        Rng r(s.seed()); int k = int(s.draw(4));
        for (auto &x : v) {
            switch (k) { case 0: x = m * r.sym(); break; case 1: x = r.i(-3, 3); if (std::fabs(x) > m) x = m; break; case 2: x = m * std::fabs(r.sym()); break; default: x = r.uni() < 0.5 ? 0 : m * r.gauss() / 5; }
        }
    }
    s.notev(name, v);
    return v;
}
// cut n into block lengths (zeros allowed when allowZero)
inline std::vector<int> partition(Src &s, int n, bool allowZero, int maxBlocks = 60) {
    std::vector<int> p; int left = n;
    int style = int(s.draw(4));
    int fixed = style == 1 ? s.sz(1, n > 1 ? n : 1) : 0;
    while (left > 0) {
        int k;
        if (int(p.size()) >= maxBlocks) k = left;
        else if (style == 0) k = left;
        else if (style == 1) k = fixed < left ? fixed : left;
        else if (style == 2) k = s.i(allowZero ? 0 : 1, left < 9 ? left : 9);
        else k = s.sz(allowZero ? 0 : 1, left);
        p.push_back(k); left -= k;
    }
    if (allowZero && s.chance(5)) p.push_back(0);
    s.notev("blocks", p);
    return p;
}

} // namespace pbt
