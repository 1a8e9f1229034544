// C12 MedianFilter, C13 statistics, C14 scalar helpers and Pitch, C15 vector conditioning
#include "pbt.hpp"
#include "ref.hpp"
#include <deque>
#include <algorithm>
#include "maths/MathUtilities.h"
#include "maths/MedianFilter.h"
#include "base/Pitch.h"
#include <unistd.h>
#include <fcntl.h>
using namespace pbt;
typedef std::vector<double> V;

// ------------------------------------------------------------------ C12
struct Quiet {   // the library warns on stderr when a NaN is pushed
    int saved; Quiet() { fflush(stderr); saved = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); }
    ~Quiet() { dup2(saved, 2); close(saved); }
};
template <typename T> struct Val { static T get(Src &s) { switch (s.draw(20)) { case 0: return T(INFINITY); case 1: return T(-INFINITY); case 2: return T(NAN); case 3: case 4: case 5: return T(s.val(1e6)); case 6: return T(-0.0); default: return T(int(s.draw(9)) - 4) / T(2); } } };
template <> struct Val<int> { static int get(Src &s) { return s.chance(4) ? s.i(-1000000, 1000000) : int(s.draw(9)) - 4; } };
static float pct(Src &s, bool &exact) {
    exact = true;
    switch (s.draw(5)) { case 0: return 50.f; case 1: return float(s.i(0, 100)); case 2: return float(s.i(-300, 400)); case 3: return float(s.i(0, 400)) / 4; default: exact = false; return float(s.uni(-20, 130)); }
}
template <typename T> static void checkPct(T got, std::deque<T> w, int n, float p, bool exact) {
    std::sort(w.begin(), w.end());
    double q = double(n) * double(p) / 100.0;
    int i0 = int(std::floor(q - (exact ? 0 : 1e-5 * (1 + std::fabs(q))))), i1 = int(std::floor(q + (exact ? 0 : 1e-5 * (1 + std::fabs(q)))));
    i0 = std::max(0, std::min(n - 1, i0)); i1 = std::max(0, std::min(n - 1, i1));
    for (int i = i0; i <= i1; ++i) if (got == w[i]) return;
    fail("percentile %g of the last %d values is %.9g, expected %.9g (sorted index %d)", double(p), n, double(got), double(w[i0]), i0);
}
template <typename T> static void medianHistory(Src &s) {
    int n = s.chance(12) ? 25 * s.i(1, 8) : s.szl(1, s.chance(10) ? 300 : 40, 60, 3000); bool ex; float p = pct(s, ex); bool def = s.chance(4);
    if (def) { p = 50; ex = true; }
    s.note("size=%d percentile=%g", n, double(p));
    MedianFilter<T> *f = def ? new MedianFilter<T>(n) : new MedianFilter<T>(n, p);
    struct D { MedianFilter<T> *f; ~D() { delete f; } } del{f};
    Quiet q;
    REQUIRE(f->getSize() == n, "size %d, expected %d", f->getSize(), n);
    std::deque<T> w(n, T(0)); int pushes = 0;
    int ops = s.szl(1, s.chance(8) ? 600 : 60, 150, 6000);
    bool longRun = ops > 80; Rng r(longRun ? s.seed() : 1);
    for (int k = 0; k < ops; ++k) {
        int op = longRun ? int(r.next() % 16) : int(s.draw(16));
        if (op < 11) {
            T v = longRun ? T(r.i(-6, 6)) / T(2) : Val<T>::get(s);
            s.note("push %g", double(v)); f->push(v); w.pop_front(); w.push_back(v != v ? T(0) : v); ++pushes;
        } else if (op < 13) { bool e2; float p2 = pct(s, e2); checkPct(f->getAt(p2), w, n, p2, e2); }
        else if (op < 14) { p = pct(s, ex); s.note("setPercentile %g", double(p)); f->setPercentile(p); }
        else if (op < 15 && !longRun) { if (s.chance(4)) { f->reset(); s.note("reset"); w.assign(n, T(0)); } }
        checkPct(f->get(), w, n, p, ex);
    }
    if (s.b()) { std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; Rng z(s.seed()); for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[z.i(0, i)]); for (int i = 0; i < n; ++i) { f->push(T(pm[i] - n / 3)); w.pop_front(); w.push_back(T(pm[i] - n / 3)); } s.note("distinct values"); }
    for (int i = 0; i <= 100; ++i) checkPct(f->getAt(float(i)), w, n, float(i), true);
    for (int i = 0; i < n && i < 60; ++i) { float a = float(100.0 * (i + 0.5) / n); checkPct(f->getAt(a), w, n, a, false); }
    s.nontrivial(pushes > 2 && n > 1);
}
SUB(C12, doubles, 4000, "size > 1 and more than two pushes: history of push/get/getAt/setPercentile/reset against a sorted window") { medianHistory<double>(s); }
SUB(C12, floats, 2000, "as above, single precision") { medianHistory<float>(s); }
SUB(C12, ints, 2000, "as above, integers") { medianHistory<int>(s); }
SUB(C12, vector, 4000, "more than two values and window larger than one: whole-vector filter against medians of centred windows") {
    int size = s.szl(1, s.chance(8) ? 200 : 30, 150, 1500), n = s.szl(0, s.chance(8) ? 400 : 50, 150, 3000);
    V x = values(s, n, 20, "in"); s.note("size=%d", size);
    V got = MedianFilter<double>::filter(size, x), want(n);
    for (int k = 0; k < n; ++k) {
        V w; for (int i = k + size / 2 - size + 1; i <= k + size / 2; ++i) w.push_back(i >= 0 && i < n ? x[i] : 0.0);
        std::sort(w.begin(), w.end()); want[k] = w[size / 2];
    }
    sameBits("median-filtered vector", got, want);
    s.nontrivial(n > 2 && size > 1);
}

// ------------------------------------------------------------------ C13
static V arr(Src &s, int lo, int hi) { int n = s.szl(lo, hi, 100, 20000); V v = values(s, n, s.pick<double>({10, 1000, 1, 1e-3})); if (s.chance(5)) for (auto &x : v) x = -std::fabs(x) - 1; return v; }
SUB(C13, stats, 6000, "more than two values, not all equal: mean, sum, median, extremes, maximum position, norms") {
    V v = arr(s, 1, 300); int n = int(v.size()); DBuf b(v);
    long double sum = 0, sab = 0; for (double x : v) { sum += x; sab += std::fabs(x); }
    double tol = (1e-13 + 1e-15 * n) * double(sab) + 1e-300;
    REQUIRE(close(MathUtilities::sum(b, n), double(sum), tol), "sum %.17g, expected %.17g", MathUtilities::sum(b, n), double(sum));
    REQUIRE(close(MathUtilities::mean(b, n), double(sum / n), tol), "mean %.17g, expected %.17g", MathUtilities::mean(b, n), double(sum / n));
    double med = ref::median(v);
    REQUIRE(close(MathUtilities::median(b, n), med, 1e-15 * std::fabs(med)), "median %.17g, expected %.17g", MathUtilities::median(b, n), med);
    double mn = 0, mx = 0; MathUtilities::getFrameMinMax(b, n, &mn, &mx);
    REQUIRE(mn == *std::min_element(v.begin(), v.end()) && mx == *std::max_element(v.begin(), v.end()), "extremes %g %g, expected %g %g", mn, mx, *std::min_element(v.begin(), v.end()), *std::max_element(v.begin(), v.end()));
    int at = int(std::max_element(v.begin(), v.end()) - v.begin());
    double m1 = -7, m2 = -7;
    int g1 = MathUtilities::getMax(b, n, &m1), g2 = MathUtilities::getMax(v, &m2);
    REQUIRE(g1 == at && m1 == v[at], "maximum at %d (%g), expected %d (%g)", g1, m1, at, v[at]);
    REQUIRE(g2 == at && m2 == v[at], "maximum of vector at %d (%g), expected %d (%g)", g2, m2, at, v[at]);
    REQUIRE(MathUtilities::getMax(b, n) == at && MathUtilities::getMax(v) == at, "maximum position without value");
    int alpha = s.i(1, 9); long double a = 0; for (double x : v) a += powl(std::fabs(x), alpha);
    double an = double(powl(a / n, 1.0L / alpha)), ln = double(powl(a, 1.0L / alpha)), got = -1;
    MathUtilities::getAlphaNorm(b, n, alpha, &got);
    REQUIRE(close(got, an, 1e-11 * an) && close(MathUtilities::getAlphaNorm(v, alpha), an, 1e-11 * an), "alpha norm (%d) %.15g / %.15g, expected %.15g", alpha, got, MathUtilities::getAlphaNorm(v, alpha), an);
    REQUIRE(close(MathUtilities::getLpNorm(v, alpha), ln, 1e-11 * ln), "L%d norm %.15g, expected %.15g", alpha, MathUtilities::getLpNorm(v, alpha), ln);
    sameBits("array after the calls", b.vec(), v);
    int st = s.i(0, n), ct = s.i(0, n - st); long double sub = 0; for (int i = st; i < st + ct; ++i) sub += v[i];
    double mm = MathUtilities::mean(v, st, ct), wm = ct ? double(sub / ct) : 0;
    REQUIRE(close(mm, wm, tol), "mean of %d values from %d is %.17g, expected %.17g", ct, st, mm, wm);
    s.nontrivial(n > 2 && mn < mx);
}
SUB(C13, empty, 50, "empty arrays: mean, sum, median and extremes are zero") {
    int k = s.i(0, 3); double one[1] = {s.val()}; s.note("case %d", k);
    if (k == 0) REQUIRE(MathUtilities::mean(one, 0) == 0, "mean of nothing");
    if (k == 1) REQUIRE(MathUtilities::sum(one, 0) == 0, "sum of nothing");
    if (k == 2) REQUIRE(MathUtilities::median(one, 0) == 0, "median of nothing");
    if (k == 3) { double a = 3, b = 4; MathUtilities::getFrameMinMax(one, 0, &a, &b); REQUIRE(a == 0 && b == 0, "extremes of nothing %g %g", a, b); }
    s.nontrivial();
}

// ------------------------------------------------------------------ C14
static double arg(Src &s) {
    switch (s.draw(7)) {
    case 0: return s.i(-1000, 1000);
    case 1: return s.i(-1000, 1000) + 0.5;
    case 2: { double x = (s.b() ? s.i(-1000, 1000) : s.i(-3, 3)) + 0.5; return std::nextafter(x, s.b() ? 1e9 : -1e9); }
    case 3: return s.uni(-10, 10);
    case 4: return M_PI * s.i(-40, 40) / s.pick<double>({1, 2, 4});
    case 5: { double x = M_PI * s.i(-40, 40); return std::nextafter(x, s.b() ? 1e9 : -1e9); }
    default: return (s.b() ? 1 : -1) * s.logu(1e-12, 1e8);
    }
}
SUB(C14, scalar, 20000, "non-zero argument: rounding, modulus, principal argument") {
    double x = s.chance(25) ? (s.b() ? 1 : -1) * (std::floor(s.logu(1, 4e15)) + (s.chance(3) ? 0 : 0.5)) : s.chance(40) ? (s.b() ? 1 : -1) * std::floor(s.logu(1e15, 1e18)) : arg(s); s.note("x=%.17g", x);
    double r = MathUtilities::round(x);
    REQUIRE(r == (x < 0 ? -1 : 1) * (std::floor(std::fabs(x)) + (std::fabs(x) - std::floor(std::fabs(x)) >= 0.5)), "round(%.17g) = %.17g", x, r);
    if (std::fabs(x) - std::floor(std::fabs(x)) == 0.5) REQUIRE(std::fabs(r) > std::fabs(x), "round(%.17g) = %.17g: a half rounds away from zero", x, r);
    double p = MathUtilities::princarg(x), t = 1e-15 * (std::fabs(x) + 10);
    REQUIRE(p >= -M_PI - t && p <= M_PI + t, "princarg(%.17g) = %.17g outside [-pi,pi]", x, p);
    double k = (x - p) / (2 * M_PI);
    REQUIRE(std::fabs(k - std::floor(k + 0.5)) * 2 * M_PI <= 4 * t, "princarg(%.17g) = %.17g is not congruent modulo 2 pi", x, p);
    double y = s.b() ? s.i(1, 12) : s.logu(0.01, 100); if (s.b()) y = -y; s.note("y=%.17g", y);
    if (std::fabs(x / y) < 1e9) {
        double m = MathUtilities::mod(x, y), tm = 1e-15 * (std::fabs(x) + std::fabs(y)) * 4;
        if (y > 0) REQUIRE(m >= -tm && m <= y + tm, "mod(%.17g,%.17g) = %.17g", x, y, m); else REQUIRE(m <= tm && m >= y - tm, "mod(%.17g,%.17g) = %.17g", x, y, m);
        double q = (x - m) / y; REQUIRE(std::fabs(q - std::floor(q + 0.5)) * std::fabs(y) <= 4 * tm, "mod(%.17g,%.17g) = %.17g is not congruent", x, y, m);
        if (x == std::floor(x) && y == std::floor(y) && std::fabs(x) < 1e6) { double w = std::fmod(x, y); if (w != 0 && (w < 0) != (y < 0)) w += y; REQUIRE(m == w, "mod(%g,%g) = %g, expected %g", x, y, m, w); }
    }
    s.nontrivial(x != 0);
}
SUB(C14, integers, 20000, "argument > 2: power-of-two helpers, greatest common divisor and factorial against their definitions") {
    int x = s.b() ? s.i(-5, 2000) : int(s.logu(1, 1073741824.0)); if (s.chance(4)) { x = (1 << s.i(0, 30)) ; if (x < (1 << 30) && s.b()) x += s.i(-2, 2); else if (s.chance(4)) { x = x / 2 * 3 > 0 && x / 2 * 3 < (1 << 30) ? x / 2 * 3 : x; if (x > 2 && x < (1 << 30)) x += s.i(-2, 2); } }
    if (x > (1 << 30)) x = 1 << 30;
    s.note("x=%d", x);
    bool pow2 = false; long nx = 1, pv = 1; for (long k = 1; k <= (1L << 31); k <<= 1) { if (k == x) pow2 = true; if (nx < x) nx = k; if (k <= x) pv = k; }
    REQUIRE(MathUtilities::isPowerOfTwo(x) == pow2, "isPowerOfTwo(%d) = %d", x, int(MathUtilities::isPowerOfTwo(x)));
    REQUIRE(MathUtilities::nextPowerOfTwo(x) == nx, "nextPowerOfTwo(%d) = %d, expected %ld", x, MathUtilities::nextPowerOfTwo(x), nx);
    REQUIRE(MathUtilities::previousPowerOfTwo(x) == pv, "previousPowerOfTwo(%d) = %d, expected %ld", x, MathUtilities::previousPowerOfTwo(x), pv);
    long nr = x < 1 ? 1 : (x - pv < nx - x ? pv : nx);
    REQUIRE(MathUtilities::nearestPowerOfTwo(x) == nr, "nearestPowerOfTwo(%d) = %d, expected %ld", x, MathUtilities::nearestPowerOfTwo(x), nr);
    int a = s.sz(1, 100000), b = s.sz(1, 100000), g = s.sz(1, 300); a *= g; b *= g; int c = a, d = b; while (d) { int t = c % d; c = d; d = t; }
    REQUIRE(MathUtilities::gcd(a, b) == c, "gcd(%d,%d) = %d, expected %d", a, b, MathUtilities::gcd(a, b), c);
    int f = s.i(0, 170); long double w = 1; for (int i = 2; i <= f; ++i) w *= i;
    REQUIRE(std::fabs(MathUtilities::factorial(f) - double(w)) <= 1e-13 * double(w), "factorial(%d) = %.17g, expected %.17g", f, MathUtilities::factorial(f), double(w));
    s.nontrivial(x > 2);
}
SUB(C14, pitch, 10000, "pitch with a non-zero cents offset or another concert pitch: equal temperament and the way back") {
    int p = s.i(0, 127); float cents = s.chance(3) ? 0.f : float(s.uni(-49.9, 49.9)); float A = s.b() ? 440.f : float(s.uni(390, 480));
    bool def = s.chance(5); if (def) A = 440.f; s.note("pitch=%d cents=%g A=%g", p, double(cents), double(A));
    double want = double(A) * std::pow(2.0, (p + double(cents) / 100 - 69) / 12);
    float f = def ? (cents == 0 ? Pitch::getFrequencyForPitch(p) : Pitch::getFrequencyForPitch(p, cents)) : Pitch::getFrequencyForPitch(p, cents, A);
    REQUIRE(std::fabs(f - want) <= 3e-5 * want, "pitch %d%+g cents is %.9g Hz, expected %.9g", p, double(cents), double(f), want);
    float back = 999; int q = def ? Pitch::getPitchForFrequency(f, &back) : Pitch::getPitchForFrequency(f, &back, A);
    REQUIRE(std::fabs((q * 100 + double(back)) - (p * 100 + double(cents))) < 0.1, "%.9g Hz is pitch %d%+g cents, expected %d%+g", double(f), q, double(back), p, double(cents));
    REQUIRE(std::fabs(back) <= 50.1, "cents offset %g", double(back));
    if (std::fabs(cents) < 49) REQUIRE(q == p, "%.9g Hz is pitch %d, expected %d", double(f), q, p);
    REQUIRE((def ? Pitch::getPitchForFrequency(f) : Pitch::getPitchForFrequency(f, 0, A)) == q, "pitch differs without the cents return");
    s.nontrivial(cents != 0 || A != 440);
}

// ------------------------------------------------------------------ C15
SUB(C15, normalise, 5000, "more than one value, not all zero: unit sum, unit maximum, none; array and vector") {
    V v = s.chance(8) ? V(s.sz(1, 50), 0.0) : arr(s, 1, 200); int n = int(v.size()); if (s.chance(12)) { double g = s.pick<double>({1e-12, 1e-30, 1e-100, 1e100}); for (auto &x : v) x *= g; s.note("times %g", g); }
    MathUtilities::NormaliseType t = MathUtilities::NormaliseType(s.i(0, 2)); s.note("type %d", int(t));
    bool def = t == MathUtilities::NormaliseUnitMax && s.b();
    DBuf b(v); V w = v, want = v;
    if (def) { MathUtilities::normalise(b, n); MathUtilities::normalise(w); } else { MathUtilities::normalise(b, n, t); MathUtilities::normalise(w, t); }
    if (t == MathUtilities::NormaliseNone) { sameBits("array not to be normalised", b.vec(), v); sameBits("vector not to be normalised", w, v); }
    else {
        long double d = 0, sab = 0; for (double x : v) { sab += std::fabs(x); if (t == MathUtilities::NormaliseUnitSum) d += x; else if (std::fabs(x) > d) d = std::fabs(x); }
        if (t == MathUtilities::NormaliseUnitSum && std::fabs(double(d)) < 1e-6 * double(sab)) throw Discard();   // sum cancels: ill-conditioned
        if (sab == 0) { sameBits("zero array", b.vec(), v); sameBits("zero vector", w, v); }
        else { for (auto &x : want) x = double(x / d); double tol = 1e-12 * maxabs(want) * (1 + double(sab / std::fabs(d))); same("normalised array", b.vec(), want, tol); same("normalised vector", w, want, tol); }
    }
    s.nontrivial(n > 1 && maxabs(v) > 0);
}
SUB(C15, lp, 4000, "more than one value and p > 0: division by the norm, or the unit vector below the threshold") {
    V v = s.chance(8) ? V(s.sz(1, 50), 0.0) : arr(s, s.chance(20) ? 0 : 1, 200); int n = int(v.size()), p = s.i(0, 6);
    bool def = s.b(); double thr = def ? 1e-6 : s.logu(1e-9, 100); s.note("p=%d threshold=%g", p, thr);
    V c = v, got = def ? MathUtilities::normaliseLp(v, p) : MathUtilities::normaliseLp(v, p, thr); V want = v;
    sameBits("input", v, c);
    if (p > 0 && n > 0) {
        long double a = 0; for (double x : v) a += powl(std::fabs(x), p); double nm = double(powl(a, 1.0L / p));
        if (std::fabs(nm - thr) < 1e-9 * thr) throw Discard();
        for (auto &x : want) x = nm < thr ? 1.0 / std::pow(n, 1.0 / p) : x / nm;
    }
    same("normalised vector", got, want, 1e-11 * (maxabs(want) + 1e-300));
    s.nontrivial(n > 1 && p > 0);
}
SUB(C15, threshold, 4000, "more than two values, not constant: subtract the mean of 8 before to 7 after, clip at zero") {
    V v = arr(s, s.chance(20) ? 0 : 1, 120); int n = int(v.size()); V w = v, want(n); double m = maxabs(v);
    MathUtilities::adaptiveThreshold(w);
    for (int i = 0; i < n; ++i) { int lo = std::max(0, i - 8), hi = std::min(n - 1, i + 7); long double t = 0; for (int k = lo; k <= hi; ++k) t += v[k]; want[i] = std::max(0.0, double(v[i] - t / (hi - lo + 1))); }
    same("adaptively thresholded", w, want, 1e-13 * m);
    s.nontrivial(n > 2 && maxabs(want) > 0);
}
SUB(C15, shift, 4000, "more than one value and shift not a multiple of the length") {
    V v = arr(s, 1, 100); int n = int(v.size()), k = s.sz(0, 4 * n); DBuf b(v); V want(n); s.note("shift %d", k);
    for (int i = 0; i < n; ++i) want[(i + k) % n] = v[i];
    MathUtilities::circShift(b, n, k); sameBits("shifted", b.vec(), want);
    s.nontrivial(n > 1 && k % n != 0);
}
