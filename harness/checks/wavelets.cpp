// C34 wavelet filters
#include "pbt.hpp"
#include "dsp/wavelet/Wavelet.h"
#include <set>
using namespace pbt;
typedef std::vector<double> V;

// family, number (of vanishing moments of the high-pass filter; of its dual)
struct Fam { char f; int a, b; double orth, mom; };
static Fam family(int t) {
    static const Fam tab[] = {
        {'D', 1, 1, 0, 0}, {'D', 2, 2, 0, 0}, {'D', 3, 3, 0, 0}, {'D', 4, 4, 0, 0}, {'D', 5, 5, 0, 0}, {'D', 6, 6, 0, 0}, {'D', 7, 7, 0, 0}, {'D', 8, 8, 0, 0}, {'D', 9, 9, 0, 0}, {'D', 10, 10, 0, 0}, {'D', 20, 20, 0, 0}, {'D', 40, 40, 3e-5, 0},
        {'S', 2, 2, 0, 0}, {'S', 3, 3, 0, 0}, {'S', 4, 4, 0, 0}, {'S', 5, 5, 0, 0}, {'S', 6, 6, 0, 0}, {'S', 7, 7, 0, 0}, {'S', 8, 8, 0, 0}, {'S', 9, 9, 0, 0}, {'S', 10, 10, 0, 0}, {'S', 20, 20, 0, 0}, {'S', 30, 30, 3e-8, 0},
        {'C', 1, 1, 0, 0}, {'C', 2, 2, 0, 0}, {'C', 3, 3, 0, 0}, {'C', 4, 4, 0, 0}, {'C', 5, 5, 2e-8, 2e-9},
        {'B', 1, 3, 0, 0}, {'B', 1, 5, 0, 0}, {'B', 2, 2, 0, 0}, {'B', 2, 4, 0, 0}, {'B', 2, 6, 0, 0}, {'B', 2, 8, 0, 0}, {'B', 3, 1, 0, 0}, {'B', 3, 3, 0, 0}, {'B', 3, 5, 0, 0}, {'B', 3, 7, 0, 0}, {'B', 3, 9, 0, 0}, {'B', 4, 4, 0, 0}, {'B', 5, 4, 0, 0}, {'B', 6, 8, 0, 0},
        {'M', 0, 0, 5e-6, 5e-6}};
    static_assert(sizeof tab / sizeof *tab == Wavelet::LastType + 1, "table");
    Fam f = tab[t]; if (f.orth == 0) f.orth = 1e-10; if (f.mom == 0) f.mom = 1e-10; return f;
}
static int pickType(Src &s) { int t = s.i(0, Wavelet::LastType); s.note("%s", Wavelet::getWaveletName(Wavelet::Type(t)).c_str()); return t; }
static void filters(Src &s, int t, V &l, V &h) { int junk = s.i(0, 3); if (junk == 1) l.assign(s.i(0, 90), 7.0); if (junk == 2) h.assign(s.i(0, 90), -3.0); Wavelet::createDecompositionFilters(Wavelet::Type(t), l, h); }
static double moment(const V &f, int j, bool alt) { int n = int(f.size()); double q = 0; for (int k = 0; k < n; ++k) q += (alt && k % 2 ? -1 : 1) * f[k] * std::pow((2.0 * k - (n - 1)) / n, j); return q; }

SUB(C34, conditions, 600, "every case: one wavelet's filters against length, sums, orthonormality, mirror, vanishing moments and symmetry") {
    int t = pickType(s), m; Fam f = family(t); V l, h; filters(s, t, l, h); int n = int(l.size());
    REQUIRE(l.size() == h.size() && n >= 2 && n % 2 == 0, "lengths %zu and %zu", l.size(), h.size());
    if (f.f == 'D' || f.f == 'S') REQUIRE(n == 2 * f.a, "length %d, expected %d", n, 2 * f.a);
    if (f.f == 'C') REQUIRE(n == 6 * f.a, "length %d, expected %d", n, 6 * f.a);
    double sl = 0, sh = 0; for (double x : l) sl += x; for (double x : h) sh += x; REQUIRE(close(sl, M_SQRT2, 1e-12), "the low-pass filter sums to %.15g", sl); REQUIRE(close(sh, 0, f.mom), "the high-pass filter sums to %.3g", sh);
    int a = f.f == 'C' ? 2 * f.a : f.a, b = f.f == 'C' ? 2 * f.b : f.b;
    for (m = 0; m < a; ++m) REQUIRE(close(moment(h, m, false), 0, f.mom), "moment %d of the high-pass filter is %.3g", m, moment(h, m, false));
    for (m = 0; m < b; ++m) REQUIRE(close(moment(l, m, true), 0, f.mom), "moment %d at the Nyquist frequency of the low-pass filter is %.3g", m, moment(l, m, true));
    if (f.f == 'B') {
        // linear phase: the filters are symmetric or antisymmetric about some centre
        for (const V *x : {&l, &h}) { int lo = 0, hi = n - 1; while (lo < n && std::fabs((*x)[lo]) < 1e-12) ++lo; while (hi > lo && std::fabs((*x)[hi]) < 1e-12) --hi; double sg = (*x)[lo] * (*x)[hi] > 0 ? 1 : -1; for (int k = lo; k <= hi; ++k) REQUIRE(close((*x)[k], sg * (*x)[hi - (k - lo)], 1e-11), "%s filter is not symmetric at %d: %.14g and %.14g", x == &l ? "low-pass" : "high-pass", k, (*x)[k], sg * (*x)[hi - (k - lo)]); }
    } else {
        for (int k = 0; k < n; ++k) REQUIRE(close(h[k], (k % 2 ? 1 : -1) * l[n - 1 - k], 1e-15), "high-pass coefficient %d is %.14g, the alternating mirror has %.14g", k, h[k], (k % 2 ? 1 : -1) * l[n - 1 - k]);
        for (m = 0; m < n / 2; ++m) { double q = 0; for (int k = 0; k + 2 * m < n; ++k) q += l[k] * l[k + 2 * m]; REQUIRE(close(q, m == 0, f.orth), "the low-pass filter times itself shifted by %d is %.10g", 2 * m, q); }
    }
    if (f.f == 'C') { double mu = 0; for (int k = 0; k < n; ++k) mu += k * l[k] / M_SQRT2; REQUIRE(close(mu, std::floor(mu + 0.5), 1e-6), "coiflet centred at %.10g", mu); for (m = 1; m < a; ++m) { double q = 0; for (int k = 0; k < n; ++k) q += l[k] * std::pow((k - mu) / n * 2, m); REQUIRE(close(q, 0, f.mom), "moment %d of a coiflet's low-pass filter is %.3g", m, q); } }
    s.nontrivial();
}
// among all orthogonal filters with the same moments (Symlets are others of them), Daubechies' are those of extremal phase
SUB(C34, phase, 200, "a number of moments for which both families are present") {
    int d = s.pick<int>({Wavelet::Daubechies_2, Wavelet::Daubechies_3, Wavelet::Daubechies_4, Wavelet::Daubechies_5, Wavelet::Daubechies_6, Wavelet::Daubechies_7, Wavelet::Daubechies_8, Wavelet::Daubechies_9, Wavelet::Daubechies_10, Wavelet::Daubechies_20}), y = d - Wavelet::Daubechies_2 + Wavelet::Symlet_2; if (d == Wavelet::Daubechies_20) y = Wavelet::Symlet_20;
    V l, h, m; filters(s, d, l, h); Wavelet::createDecompositionFilters(Wavelet::Type(y), m, h); int n = int(l.size()); REQUIRE(n == int(m.size()), "lengths %d and %zu", n, m.size()); double el = 0, em = 0, worst = 0; s.note("%d moments", n / 2);
    for (int k = n - 1; k >= 0; --k) { el += l[k] * l[k]; em += m[k] * m[k]; REQUIRE(el >= em - 1e-9, "the last %d coefficients of the Daubechies filter have energy %.10g, of the Symlet %.10g", n - k, el, em); worst = std::max(worst, el - em); }
    if (n <= 6) REQUIRE(worst < 1e-9, "Daubechies and Symlet filters of %d coefficients differ", n); else REQUIRE(worst > 1e-3, "Daubechies and Symlet filters of %d coefficients are the same", n);
    // the energy of all reflected versions of the Daubechies filter is later: its own mirror image
    double r = 0, e = 0; for (int k = 0; k < n / 2; ++k) { r += l[k] * l[k]; e += l[n - 1 - k] * l[n - 1 - k]; } REQUIRE(e > r, "the filter's energy is at its other end"); s.nontrivial();
}
// circular multi-level decomposition and reconstruction with the filters' implied dual
SUB(C34, reconstruction, 800, "a signal that is not silent, through one or more levels") {
    int t = pickType(s); Fam f = family(t); V l, h; filters(s, t, l, h); int n = int(l.size()); REQUIRE(n == int(h.size()) && n % 2 == 0, "lengths %d and %zu", n, h.size()); int levels = s.i(1, 3), len = (1 << levels) * s.i(1, 40); V x = signal(s, len); s.note("levels=%d", levels);
    V g0(n), g1(n); for (int k = 0; k < n; ++k) { g0[k] = (k % 2 ? 1 : -1) * h[k]; g1[k] = (k % 2 ? -1 : 1) * l[k]; }
    std::vector<V> det; V a = x; double gain = 0; for (int k = 0; k < n; ++k) gain += std::fabs(l[k]) + std::fabs(h[k]);
    for (int lev = 0; lev < levels; ++lev) { int m = int(a.size()); V lo(m / 2, 0.0), hi(m / 2, 0.0); for (int i = 0; i < m / 2; ++i) for (int k = 0; k < n; ++k) { double v = a[((2 * i - k) % m + m) % m]; lo[i] += l[k] * v; hi[i] += h[k] * v; } det.push_back(hi); a = lo; }
    if (f.f != 'B') { double e = 0, w = 0; for (double v : a) e += v * v; for (auto &d : det) for (double v : d) e += v * v; for (double v : x) w += v * v; REQUIRE(close(e, w, 60 * f.orth * w + 1e-300), "the coefficients have energy %.12g, the signal %.12g", e, w); }
    for (int lev = levels - 1; lev >= 0; --lev) { int m = int(a.size()) * 2; V y(m, 0.0); for (int i = 0; i < m / 2; ++i) for (int k = 0; k < n; ++k) { int o = ((2 * i + k - (n - 1)) % m + m) % m; y[o] += a[i] * g0[k] + det[lev][i] * g1[k]; } a = y; }
    same("reconstructed signal", a, x, 20 * f.orth * gain * (1e-3 + maxabs(x)));
    // a constant signal has no detail
    V c(len, 1.0); for (int i = 0; i < len / 2; ++i) { double q = 0; for (int k = 0; k < n; ++k) q += h[k] * c[((2 * i - k) % len + len) % len]; REQUIRE(close(q, 0, f.mom), "detail %.3g of a constant signal", q); }
    s.nontrivial(maxabs(x) > 0);
}
SUB(C34, requests, 400, "two or more requests into the same vectors") {
    int n = s.i(1, 8); V l, h; for (int c = 0; c < n; ++c) { int t = pickType(s); V a, b; Wavelet::createDecompositionFilters(Wavelet::Type(t), a, b); Wavelet::createDecompositionFilters(Wavelet::Type(t), l, h); sameBits("low-pass filter requested into a used vector", l, a); sameBits("high-pass filter requested into a used vector", h, b); }
    std::set<std::string> names; for (int t = 0; t <= Wavelet::LastType; ++t) { std::string nm = Wavelet::getWaveletName(Wavelet::Type(t)); REQUIRE(!nm.empty() && nm != "(unknown)", "type %d is named '%s'", t, nm.c_str()); REQUIRE(names.insert(nm).second, "two types are named '%s'", nm.c_str());
        Fam f = family(t); const char *fam = t == 0 ? "Haar" : f.f == 'D' ? "Daubechies" : f.f == 'S' ? "Symlet" : f.f == 'C' ? "Coiflet" : f.f == 'B' ? "Biorthogonal" : "Meyer"; std::string w = fam; char nb[20] = ""; if (f.f == 'B') snprintf(nb, sizeof nb, " %d.%d", f.a, t == Wavelet::Biorthogonal_5_5 ? 5 : f.b); else if (t && f.f != 'M') snprintf(nb, sizeof nb, " %d", f.a); w += nb; REQUIRE(nm == w, "type %d is named '%s', expected '%s'", t, nm.c_str(), w.c_str()); }
    s.nontrivial(n > 1);
}
