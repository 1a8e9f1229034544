// C20 ConstantQ, C21 Chromagram, C22 GetKeyMode, C23 MFCC
#include "pbt.hpp"
#include "ref.hpp"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/mfcc/MFCC.h"
#include "base/Pitch.h"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
namespace { struct Hush { int saved; Hush() { fflush(stderr); saved = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); } ~Hush() { dup2(saved, 2); close(saved); } }; }
typedef std::vector<double> V;

struct CqGen { double fs, min, max; int bpo; double thresh; double q; int wl0, n; };
static CqGen genCq(Src &s, int maxN) {
    CqGen g; g.fs = s.pick<double>({8000, 44100, 22050, 11025, 48000, 1000, 5512.5, 6000.7});
    g.bpo = s.chance(15) ? s.pick<int>({60, 72, 84, 96, 49, 120}) : s.pick<int>({12, 1, 2, 3, 5, 7, 24, 36, 48});
    g.q = 1 / (std::pow(2, 1.0 / g.bpo) - 1);
    double lo = std::max(g.q * g.fs / maxN, g.fs / 3000), top = 0.45 * g.fs;
    if (lo > top / 1.1) { g.bpo = 12; g.q = 1 / (std::pow(2, 1.0 / 12) - 1); lo = std::max(g.q * g.fs / maxN, g.fs / 3000); }
    g.min = s.logu(lo, top / 1.05);
    if (s.chance(6)) { int P = 1; while (P < g.q * g.fs / g.min) P <<= 1; double m2 = g.q * g.fs / (P - s.pick<double>({0.5, 1.5, 0.5, 2.5, -0.5})); if (m2 >= lo && m2 <= top / 1.05) g.min = m2; }   // longest kernel about as long as the transform
    double maxOct = std::log2(top / g.min); if (maxOct > 5 && !(g.bpo <= 12 && s.chance(3))) maxOct = 5; if (maxOct > 10) maxOct = 10;
    if (s.chance(3) && maxOct >= 1) g.max = g.min * std::pow(2.0, s.i(1, int(maxOct)));   // whole octaves
    else g.max = g.min * std::pow(2.0, s.uni(0.02, maxOct));
    g.thresh = s.pick<double>({0.0054, 0, 0.0054, 1e-4, 0.02});
    g.wl0 = int(std::ceil(g.q * g.fs / g.min)); g.n = 1; while (g.n < g.wl0) g.n <<= 1;
    s.note("rate=%g min=%g max=%g bins/octave=%d threshold=%g", g.fs, g.min, g.max, g.bpo, g.thresh);
    return g;
}
// smallest and largest plausible value of ceil(x)
static int ceilLo(double x) { return int(std::ceil(x - 1e-9 * (1 + x))); }
static int ceilHi(double x) { return int(std::ceil(x + 1e-9 * (1 + x))); }

// windowed, scaled, half-rotated kernel of one bin, transformed
static bool kernel(const CqGen &g, int n, int j, V &re, V &im) {
    double x = g.q * g.fs / (g.min * std::pow(2.0, double(j) / g.bpo));
    if (ceilLo(x) != ceilHi(x)) return false;                  // length undecidable
    int wl = int(std::ceil(x)); if (wl > n) return false;
    re.assign(n, 0); im.assign(n, 0);
    int origin = n / 2 - wl / 2;
    for (int i = 0; i < wl; ++i) {
        double w = 0.54 - 0.46 * std::cos(2 * M_PI * i / wl), a = 2 * M_PI * g.q * i / wl;
        re[origin + i] = w * std::cos(a) / wl; im[origin + i] = w * std::sin(a) / wl;
    }
    re = ref::rotateHalf(re); im = ref::rotateHalf(im);
    ref::fft2(re, im, false);
    return true;
}

SUB(C20, definition, 250, "at least two bins and a spectrum that is not zero; every bin against the thresholded kernel product") {
    CqGen g = genCq(s, s.chance(12) ? 8192 : 2048);
    CQConfig c; c.FS = g.fs; c.min = g.min; c.max = g.max; c.BPO = g.bpo; c.CQThresh = g.thresh;
    ConstantQ cq(c);
    double kx = g.bpo * std::log2(g.max / g.min); int K = cq.getK(), N = cq.getFFTLength();
    REQUIRE(K >= ceilLo(kx) && K <= ceilHi(kx), "%d bins for %g octaves of %d", K, kx / g.bpo, g.bpo);
    REQUIRE(close(cq.getQ(), g.q, 1e-9 * g.q), "Q %.15g, expected %.15g", cq.getQ(), g.q);
    double wl = g.q * g.fs / g.min; int n1 = 1, n2 = 1; while (n1 < ceilLo(wl)) n1 <<= 1; while (n2 < ceilHi(wl)) n2 <<= 1;
    REQUIRE(N == n1 || N == n2, "transform length %d, expected %d", N, n2);
    REQUIRE(cq.getHop() == N / 8, "hop %d for transform length %d", cq.getHop(), N);
    cq.sparsekernel();
    if (s.chance(6)) { int again = s.hist(1, 1, double(N) * K, 3, 20, 2e6); while (again--) cq.sparsekernel(); }
    int frames = s.hist(1, 3, 4.0 * N * K, 6, 100, 1e7);
    std::vector<V> kr(K), ki(K); std::vector<char> ok(K);
    for (int j = 0; j < K; ++j) ok[j] = kernel(g, N, j, kr[j], ki[j]);
    for (int f = 0; f < frames; ++f) {
        V re = signal(s, N, s.pick<double>({1, 100}), "re"), im = s.b() ? signal(s, N, 1, "im") : V(N, 0.0);
        DBuf xr(re), xi(im), or_(K, 7.0), oi(K, 7.0);
        cq.process(xr, xi, or_, oi);
        sameBits("real input", xr.vec(), re); sameBits("imaginary input", xi.vec(), im);
        DBuf inter(2 * N); for (int i = 0; i < N; ++i) { inter[2 * i] = re[i]; inter[2 * i + 1] = im[i]; }
        const double *o2 = cq.process(inter);
        for (int j = 0; j < K; ++j) REQUIRE(close(o2[2 * j], or_[j], 1e-12 * (1 + std::fabs(or_[j]))) && close(o2[2 * j + 1], oi[j], 1e-12 * (1 + std::fabs(oi[j]))), "bin %d: interleaved form %.15g%+.15gi, separate form %.15g%+.15gi", j, o2[2 * j], o2[2 * j + 1], or_[j], oi[j]);
        for (int j = 0; j < K; ++j) if (ok[j]) {
            double a = 0, b = 0, tol = 1e-13, t2 = g.thresh * g.thresh;
            for (int col = 1; col < N; ++col) {
                double kre = kr[j][col], kim = ki[j][col], m = kre * kre + kim * kim, xr_ = re[N - col], xi_ = im[N - col];
                double mag = std::sqrt(m) * (std::fabs(xr_) + std::fabs(xi_)) / N;
                if (std::fabs(m - t2) <= 1e-9 * t2 + 1e-20) { tol += mag * 1.01; if (m <= t2) continue; }
                else if (m <= t2) continue;
                a += (kre * xr_ + kim * xi_) / N; b += (kre * xi_ - kim * xr_) / N; tol += 1e-11 * mag + 1e-14 * (std::fabs(xr_) + std::fabs(xi_)) / N;
            }
            REQUIRE(close(or_[j], a, tol) && close(oi[j], b, tol), "bin %d of %d, frame %d: %.12g%+.12gi, expected %.12g%+.12gi (tolerance %.3g)", j, K, f, or_[j], oi[j], a, b, tol);
            if (K > 1 && (a != 0 || b != 0)) s.nontrivial();
        }
    }
}

SUB(C20, unprepared, 40, "process called before the kernel has been made") {
    CqGen g = genCq(s, 512); CQConfig c; c.FS = g.fs; c.min = g.min; c.max = g.max; c.BPO = g.bpo; c.CQThresh = g.thresh;
    ConstantQ cq(c), ready(c); ready.sparsekernel(); int K = cq.getK(), N = cq.getFFTLength(); V re = signal(s, N, 1, "re"); DBuf a(re), b(N, 0.5), x(K, 7.0), y(K, 7.0), z(K, 7.0), w(K, 7.0);
    { Hush q; cq.process(a, b, x, y); }
    for (int i = 0; i < K; ++i) REQUIRE(x[i] == 7.0 && y[i] == 7.0, "bin %d written without a kernel: %g %g", i, x[i], y[i]);
    cq.sparsekernel(); cq.process(a, b, x, y); ready.process(a, b, z, w); sameBits("real part once prepared", x.vec(), z.vec()); sameBits("imaginary part once prepared", y.vec(), w.vec());
    s.nontrivial();
}
SUB(C20, centre_maximum, 200, "more than one bin; a sinusoid at a bin's centre frequency") {
    CqGen g = genCq(s, 2048); if (g.bpo < 3) { g.bpo = 12; g.q = 1 / (std::pow(2, 1.0 / 12) - 1); g.min = std::max(g.min, g.q * g.fs / 4096); g.max = std::min(0.45 * g.fs, g.min * 4); if (g.max < 1.05 * g.min) throw Discard(); }
    g.thresh = std::min(g.thresh, 0.0054);
    CQConfig c; c.FS = g.fs; c.min = g.min; c.max = g.max; c.BPO = g.bpo; c.CQThresh = g.thresh;
    ConstantQ cq(c); cq.sparsekernel(); int K = cq.getK(), N = cq.getFFTLength();
    int j = s.i(0, K - 1); double f = g.min * std::pow(2.0, double(j) / g.bpo);
    if (f > 0.4 * g.fs || g.q * g.fs / f < 24) throw Discard();
    double ph = s.uni(0, 6.28), a = s.pick<double>({1, 0.01, 100}); s.note("bin %d of %d, %g Hz", j, K, f);
    V re(N), im(N, 0.0); for (int i = 0; i < N; ++i) re[i] = a * std::cos(2 * M_PI * f * i / g.fs + ph);
    re = ref::rotateHalf(re); ref::fft2(re, im, false);
    DBuf xr(re), xi(im), or_(K), oi(K); cq.process(xr, xi, or_, oi);
    double best = std::hypot(or_[j], oi[j]);
    for (int k = 0; k < K; ++k) if (k != j) REQUIRE(std::hypot(or_[k], oi[k]) < best, "sinusoid at the centre of bin %d gives %.9g there and %.9g in bin %d", j, best, std::hypot(or_[k], oi[k]), k);
    // Hamming window gain 0.54, half of the amplitude in each of the two frequencies
    REQUIRE(best > a * 0.54 / 2 * 0.85 && best < a * 0.54 / 2 * 1.15, "level %.9g for a sinusoid of amplitude %g", best, a);
    s.nontrivial(K > 1);
}

SUB(C20, linear, 150, "two spectra that are not zero") {
    CqGen g = genCq(s, 1024);
    CQConfig c; c.FS = g.fs; c.min = g.min; c.max = g.max; c.BPO = g.bpo; c.CQThresh = g.thresh;
    ConstantQ cq(c); cq.sparsekernel(); int K = cq.getK(), N = cq.getFFTLength();
    V a = signal(s, N), b = signal(s, N); double p = s.uni(-2, 2), q = s.uni(-2, 2);
    DBuf A(a), B(b), C(N), r[3] = {DBuf(K), DBuf(K), DBuf(K)}, i_[3] = {DBuf(K), DBuf(K), DBuf(K)}; DBuf D(N);
    for (int i = 0; i < N; ++i) { C[i] = p * a[i] + q * b[i]; D[i] = p * b[i] - q * a[i]; }
    cq.process(A, B, r[0], i_[0]); cq.process(B, A, r[1], i_[1]);
    DBuf C2(N); for (int i = 0; i < N; ++i) C2[i] = p * b[i] + q * a[i];
    cq.process(C, C2, r[2], i_[2]);
    double tol = 1e-10 * (maxabs(a) + maxabs(b)) * 4 + 1e-300;
    for (int k = 0; k < K; ++k) REQUIRE(close(r[2][k], p * r[0][k] + q * r[1][k], tol) && close(i_[2][k], p * i_[0][k] + q * i_[1][k], tol), "bin %d is not linear", k);
    s.nontrivial(maxabs(a) > 0 && maxabs(b) > 0);
}

// ------------------------------------------------------------------ C21
static void foldRef(const CqGen &g, int K, ConstantQ &cq, const V &re, const V &im, int norm, V &out) {
    DBuf a(re), b(im), r(cq.getK()), i(cq.getK()); cq.process(a, b, r, i);
    out.assign(g.bpo, 0); int oct = K / g.bpo;
    for (int k = 0; k < oct * g.bpo; ++k) out[k % g.bpo] += std::hypot(r[k], i[k]);
    double sum = 0, mx = 0; for (double x : out) { sum += x; mx = std::max(mx, std::fabs(x)); }
    double d = norm == 1 ? sum : norm == 2 ? mx : 1; if (d != 0) for (auto &x : out) x /= d;
}
SUB(C21, folding, 250, "chroma not all zero; time-domain and frequency-domain frames in one history, each against the folded constant-Q magnitudes") {
    CqGen g = genCq(s, s.chance(12) ? 8192 : 2048);
    if (g.max > g.min * 8 && g.bpo > 24) g.max = g.min * 8;
    ChromaConfig c; c.FS = g.fs; c.min = g.min; c.max = g.max; c.BPO = g.bpo; c.CQThresh = g.thresh; int norm = s.i(0, 2);
    c.normalise = norm == 0 ? MathUtilities::NormaliseNone : norm == 1 ? MathUtilities::NormaliseUnitSum : MathUtilities::NormaliseUnitMax;
    Chromagram ch(c);
    double oct = std::log2(g.max / g.min); int K = ch.getK(), N = ch.getFrameSize();
    REQUIRE(K / g.bpo >= ceilLo(oct) && K / g.bpo <= ceilHi(oct) + (g.bpo == 1 && ceilLo(oct) != ceilHi(oct)), "%d bins for %g octaves of %d", K, oct, g.bpo);
    REQUIRE(ch.getHopSize() == N / 8, "hop %d for frame size %d", ch.getHopSize(), N);
    CQConfig q; q.FS = g.fs; q.min = g.min; q.max = g.min * std::pow(2.0, K / g.bpo); q.BPO = g.bpo; q.CQThresh = g.thresh;
    ConstantQ cq(q); REQUIRE(cq.getFFTLength() == N, "frame size %d, constant-Q length %d", N, cq.getFFTLength()); cq.sparsekernel();
    if (cq.getK() < K / g.bpo * g.bpo) throw Discard();
    int frames = s.hist(1, 4, 4.0 * N * K, 6, 100, 1e7);
    for (int f = 0; f < frames; ++f) {
        bool freq = s.chance(3); V re, im, got, want; s.note("frame %d %s", f, freq ? "spectrum" : "samples");
        double sc;
        if (freq) {
            re = signal(s, N); im = signal(s, N); DBuf a(re), b(im); const double *p = ch.process(a, b); got.assign(p, p + g.bpo);
            sameBits("real input", a.vec(), re); sameBits("imaginary input", b.vec(), im); sc = maxabs(re) + maxabs(im);
        } else {
            V x = signal(s, N); DBuf a(x); const double *p = ch.process(a); got.assign(p, p + g.bpo); sameBits("input", a.vec(), x);
            for (int i = 0; i < N; ++i) x[i] *= 0.54 - 0.46 * std::cos(2 * M_PI * i / N);
            re = ref::rotateHalf(x); im.assign(N, 0); ref::fft2(re, im, false); sc = maxabs(re) + maxabs(im);
        }
        foldRef(g, K, cq, re, im, norm, want);
        V raw; foldRef(g, K, cq, re, im, 0, raw); double d = 0, mx = 0; for (double v : raw) { d += v; mx = std::max(mx, v); }
        double den = norm == 1 ? d : norm == 2 ? mx : 1, tol = 1e-11 * sc * g.bpo;
        finite("chroma", got);
        if (den <= 1e4 * tol && den != 0 && norm) continue;      // nothing but rounding residue to normalise
        if (den == 0) { for (double v : got) REQUIRE(std::fabs(v) <= (norm ? 1.0000001 : tol), "chroma of silence %g", v); continue; }
        same("chroma", got, want, tol / den * 4 + 1e-12);
        s.nontrivial();
        double mxg = 0; for (double v : got) mxg = std::max(mxg, v);
        if (mxg > 0) { DBuf u(got); ch.unityNormalise(u); for (int i = 0; i < g.bpo; ++i) REQUIRE(close(u[i], got[i] / mxg, 1e-12), "unit normalised class %d is %.15g, expected %.15g", i, u[i], got[i] / mxg); }
        REQUIRE(close(ch.kabs(re[1 % N], im[1 % N]), std::hypot(re[1 % N], im[1 % N]), 1e-12 * (std::fabs(re[1 % N]) + std::fabs(im[1 % N])) + 1e-150), "modulus of %g%+gi is %g", re[1 % N], im[1 % N], ch.kabs(re[1 % N], im[1 % N]));
    }
}
SUB(C21, peak_and_scale, 150, "a sinusoid at a bin's frequency in any covered octave, first at one level and then at another on the same object") {
    CqGen g = genCq(s, 2048); if (g.bpo < 5) { g.bpo = 12; g.q = 1 / (std::pow(2, 1.0 / 12) - 1); g.min = g.q * g.fs / 2048; g.max = g.min * 4; }
    g.thresh = std::min(g.thresh, 0.0054);
    ChromaConfig c; c.FS = g.fs; c.min = g.min; c.max = g.max; c.BPO = g.bpo; c.CQThresh = g.thresh; bool none = s.b(); c.normalise = none ? MathUtilities::NormaliseNone : s.b() ? MathUtilities::NormaliseUnitMax : MathUtilities::NormaliseUnitSum;
    Chromagram ch(c); int K = ch.getK(), N = ch.getFrameSize(), oct = K / g.bpo;
    int j = s.i(0, oct * g.bpo - 1); double f = g.min * std::pow(2.0, double(j) / g.bpo);
    if (f > 0.4 * g.fs || g.q * g.fs / f < 24) throw Discard();
    // bins above the Nyquist frequency would see aliases
    if (g.min * std::pow(2.0, oct) > 0.5 * g.fs) throw Discard();
    double ph = s.uni(0, 6.28), k = s.logu(0.01, 100); s.note("bin %d of %d (%g Hz), gain %g", j, K, f, k);
    DBuf x(N); for (int i = 0; i < N; ++i) x[i] = std::cos(2 * M_PI * f * i / g.fs + ph);
    const double *p = ch.process(x); V a(p, p + g.bpo); for (int i = 0; i < N; ++i) x[i] *= k;
    p = ch.process(x); V b(p, p + g.bpo);
    for (int i = 0; i < g.bpo; ++i) if (i != j % g.bpo) REQUIRE(a[i] < a[j % g.bpo], "sinusoid in pitch class %d: chroma %.9g there, %.9g in class %d", j % g.bpo, a[j % g.bpo], a[i], i);
    for (int i = 0; i < g.bpo; ++i) REQUIRE(close(b[i], none ? k * a[i] : a[i], 1e-8 * (none ? k : 1)), "class %d: %.12g at gain 1, %.12g at gain %g", i, a[i], b[i], k);
    s.nontrivial();
}

// ------------------------------------------------------------------ C22
static const double kMaj[36] = {
    0.0384, 0.0629, 0.0258, 0.0121, 0.0146, 0.0106, 0.0364, 0.0610, 0.0267, 0.0126, 0.0121, 0.0086, 0.0364, 0.0623, 0.0279, 0.0275, 0.0414, 0.0186,
    0.0173, 0.0248, 0.0145, 0.0364, 0.0631, 0.0262, 0.0129, 0.0150, 0.0098, 0.0312, 0.0521, 0.0235, 0.0129, 0.0142, 0.0095, 0.0289, 0.0478, 0.0239 };
static const double kMin[36] = {
    0.0375, 0.0682, 0.0299, 0.0119, 0.0138, 0.0093, 0.0296, 0.0543, 0.0257, 0.0292, 0.0519, 0.0246, 0.0159, 0.0234, 0.0135, 0.0291, 0.0544, 0.0248,
    0.0137, 0.0176, 0.0104, 0.0352, 0.0670, 0.0302, 0.0222, 0.0349, 0.0164, 0.0174, 0.0297, 0.0166, 0.0222, 0.0401, 0.0202, 0.0175, 0.0270, 0.0146 };
static double corr(const V &a, const double *prof, int shift) {
    double ma = 0, mb = 0; for (int i = 0; i < 36; ++i) { ma += a[i] / 36; mb += prof[i] / 36; }
    double n = 0, x = 0, y = 0; for (int i = 0; i < 36; ++i) { double u = a[i] - ma, v = prof[((i - shift) % 36 + 36) % 36] - mb; n += u * v; x += u * u; y += v * v; }
    return x * y > 0 ? n / std::sqrt(x * y) : 0;
}
// the key's chords as a synthetic signal
static const int kChords[2][4][3] = {{{0, 4, 7}, {5, 9, 12}, {7, 11, 14}, {0, 4, 7}}, {{0, 3, 7}, {5, 8, 12}, {7, 11, 14}, {0, 3, 7}}};
static void chordInto(DBuf &x, double fs, double tuning, int tonic, int minor, int chord, double level) {
    for (size_t i = 0; i < x.size(); ++i) x[i] = 0;
    for (int k = 0; k < 3; ++k) for (int o = 0; o < 2; ++o) {
        double f = tuning * std::pow(2.0, (60 + tonic + kChords[minor][chord][k] - 12 * o - 69) / 12.0);
        for (size_t i = 0; i < x.size(); ++i) x[i] += level * std::sin(2 * M_PI * f * i / fs) / 6;
    }
}
static void keyModel(Src &s, bool longHist) {
    double fs = s.pick<double>({44100, 48000, 22050, 8000, 96000, 16000}); float tun = s.pick<float>({440.f, 432.f, 415.3f, 452.f});
    GetKeyMode::Config cf(fs, tun); cf.decimationFactor = s.pick<int>({8, 4, 8, 2}); if (fs >= 44100 && cf.decimationFactor < 4 ) cf.decimationFactor = 8;
    cf.frameOverlapFactor = s.pick<int>({1, 2, 8}); cf.hpcpAverage = s.pick<double>({10, 1, 0.2, 3.3}); cf.medianAverage = s.pick<double>({10, 1, 0.2, 4.1, 2.2});
    if (longHist) {
        fs = s.pick<double>({8000, 11025, 8000}); cf = GetKeyMode::Config(fs, tun); cf.decimationFactor = 8; cf.frameOverlapFactor = s.pick<int>({1, 4});
        cf.hpcpAverage = s.pick<double>({0.2, 2, 30, 60}); cf.medianAverage = s.pick<double>({30, 15, 60, 0.2, 20});
    }
    if (!longHist && s.chance(3)) { cf.hpcpAverage = s.uni(0.1, 8); cf.medianAverage = s.uni(0.1, 20); } if (longHist && s.chance(3)) { cf.hpcpAverage = s.uni(0.1, 60); cf.medianAverage = s.uni(0.1, 60); }
    s.note("rate=%g tuning=%g decimation=%d overlap=%d averages %g %g", fs, tun, cf.decimationFactor, cf.frameOverlapFactor, cf.hpcpAverage, cf.medianAverage);
    GetKeyMode gk(cf);
    double dfs = fs / cf.decimationFactor; int B = gk.getBlockSize();
    ChromaConfig cc; cc.normalise = MathUtilities::NormaliseUnitMax; cc.FS = dfs; cc.BPO = 36; cc.CQThresh = 0.0054;
    cc.min = tun * std::pow(2.0, (48 - 69) / 12.0); cc.max = tun * std::pow(2.0, (96 - 69) / 12.0);
    cc.min = Pitch::getFrequencyForPitch(48, 0, tun); cc.max = Pitch::getFrequencyForPitch(96, 0, tun);
    Chromagram ch(cc); int N = ch.getFrameSize();
    REQUIRE(B == N * cf.decimationFactor, "block size %d, chroma frame %d at decimation %d", B, N, cf.decimationFactor);
    REQUIRE(gk.getHopSize() == N / cf.frameOverlapFactor * cf.decimationFactor, "hop %d, block %d, overlap %d", gk.getHopSize(), B, cf.frameOverlapFactor);
    int avg = int(std::ceil(cf.hpcpAverage * dfs / N)), med = int(std::ceil(cf.medianAverage * dfs / N));
    Decimator dec(B, cf.decimationFactor);
    std::vector<V> hist; std::vector<int> lows, highs;
    int frames = longHist ? s.i(60, 160) : s.sz(1, 14), stay = 0; DBuf x(B);
    for (int f = 0; f < frames; ++f) {
        if (longHist && stay-- > 0) ; else {
        stay = longHist ? s.i(0, 25) : 0; for (int i = 0; i < B; ++i) x[i] = 0; int kind = s.i(0, 3);
        if (kind == 0) chordInto(x, fs, tun, s.i(0, 11), s.i(0, 1), s.i(0, 3), s.pick<double>({1, 0.01}));
        else if (kind == 1) { V v = signal(s, B); for (int i = 0; i < B; ++i) x[i] = v[i]; }
        else if (kind == 2) { int t = s.i(0, 11); double fr = tun * std::pow(2.0, (t - 9) / 12.0); for (int i = 0; i < B; ++i) x[i] = std::sin(2 * M_PI * fr * i / fs); s.note("tone %d", t); }
        }
        V in = x.vec(); int key = gk.process(x); sameBits("input", x.vec(), in);
        const double *kp = gk.getKeyStrengths(); V ks(kp, kp + 24);
        DBuf d(N); dec.process(x, d); const double *cp = ch.process(d); hist.push_back(V(cp, cp + 36));
        int from = int(hist.size()) > avg ? int(hist.size()) - avg : 0; V mean(36, 0.0);
        for (size_t h = from; h < hist.size(); ++h) for (int k = 0; k < 36; ++k) mean[k] += hist[h][k] / (hist.size() - from);
        V c(72); for (int k = 0; k < 36; ++k) { c[k] = corr(mean, kMaj, k - 2); c[36 + k] = corr(mean, kMin, k - 2); }
        double sd = 0, mm = 0; for (double v : mean) mm += v / 36; for (double v : mean) sd += (v - mm) * (v - mm);
        bool degenerate = sd < 1e-18; double tol = degenerate ? 2 : 1e-7;
        double best = *std::max_element(c.begin(), c.end()); int lo = 99, hi = 0;
        for (int k = 0; k < 72; ++k) if (c[k] >= best - tol) { lo = std::min(lo, k / 3 + 1); hi = std::max(hi, k / 3 + 1); }
        if (degenerate) lo = 0;
        lows.push_back(lo); highs.push_back(hi);
        int mf = int(lows.size()) > med ? int(lows.size()) - med : 0; std::vector<int> L(lows.begin() + mf, lows.end()), H(highs.begin() + mf, highs.end());
        std::sort(L.begin(), L.end()); std::sort(H.begin(), H.end()); size_t mid = (L.size() + 1) / 2 - 1;
        REQUIRE(key >= 0 && key <= 24 && key >= L[mid] && key <= H[mid], "frame %d: key %d, expected %d..%d (median of the last %zu)", f, key, L[mid], H[mid], L.size());
        if (!degenerate) for (int k = 0; k < 24; ++k) {
            double w = std::max(c[3 * k], std::max(c[3 * k + 1], c[3 * k + 2]));
            REQUIRE(close(ks[k], w, 1e-7), "frame %d: strength of key %d is %.9g, expected %.9g", f, k, ks[k], w);
        }
        for (int k = 0; k < 24; ++k) REQUIRE(ks[k] >= -1 - 1e-9 && ks[k] <= 1 + 1e-9, "strength %d is %g", k, ks[k]);
    }
    s.nontrivial(frames >= 3);
}
SUB(C22, model, 60, "three or more frames; keys and strengths of a generated history against an independent averaging, correlation and median model") {
    keyModel(s, false);
}
SUB(C22, long_history, 8, "sixty or more frames with keys that change, so that the averaging and median windows fill, wrap and forget") {
    keyModel(s, true);
}
SUB(C22, defaults, 12, "a chord or noise through a detector of default settings and one with each documented default given")  {
    double fs = s.pick<double>({44100, 48000, 32000}); float tun = s.pick<float>({440.f, 432.f}); GetKeyMode::Config d(fs, tun), e(fs, tun); e.hpcpAverage = 10; e.medianAverage = 10; e.frameOverlapFactor = 1; e.decimationFactor = 8;
    s.note("rate=%g tuning=%g", fs, tun); GetKeyMode a(d), b(e); REQUIRE(a.getBlockSize() == b.getBlockSize() && a.getHopSize() == b.getHopSize(), "block %d and hop %d by default, %d and %d with the documented values", a.getBlockSize(), a.getHopSize(), b.getBlockSize(), b.getHopSize());
    DBuf x(a.getBlockSize()); int frames = s.i(1, 30), kind = 0; Rng r(s.seed());
    for (int f = 0; f < frames; ++f) {
        if (f % 3 == 0) { kind = r.i(0, 3); chordInto(x, fs, tun, r.i(0, 11), r.i(0, 1), r.i(0, 3), 1); if (!kind) for (size_t i = 0; i < x.size(); ++i) x[i] = r.sym(); }
        int k = a.process(x), l = b.process(x); REQUIRE(k == l, "frame %d: key %d by default, %d with the documented values", f, k, l); const double *p = a.getKeyStrengths(), *q = b.getKeyStrengths(); sameBits("key strengths", V(p, p + 24), V(q, q + 24));
    }
    s.nontrivial();
}
SUB(C22, cadence, 40, "a I-IV-V-I cadence in each generated key, rate and tuning is recognised") {
    double fs = s.pick<double>({44100, 48000, 22050, 11025}); float tun = float(s.uni(415, 465));
    GetKeyMode::Config cf(fs, tun); cf.decimationFactor = fs < 20000 ? 2 : fs < 40000 ? 4 : 8; cf.frameOverlapFactor = s.pick<int>({1, 2});
    int tonic = s.i(0, 11), minor = s.i(0, 1); double lv = s.pick<double>({1, 0.001, 0.2});
    s.note("rate=%g tuning=%g tonic=%d %s level=%g", fs, tun, tonic, minor ? "minor" : "major", lv);
    GetKeyMode gk(cf); DBuf x(gk.getBlockSize()); int key = 0, reps = s.i(1, 2);
    int order[] = {0, 1, 2, 3, 0};
    for (int r = 0; r < reps; ++r) for (int q = 0; q < 5; ++q) { chordInto(x, fs, tun, tonic, minor, order[q], lv); key = gk.process(x); }
    const double *ks = gk.getKeyStrengths(); int b = 0; for (int k = 1; k < 24; ++k) if (ks[k] > ks[b]) b = k;
    int want = tonic + 12 * minor;
    REQUIRE(b == want, "strongest key %d, expected %d", b + 1, want + 1);
    if (reps == 2) REQUIRE(key == want + 1, "key %d, expected %d", key, want + 1);
    s.nontrivial();
}

// ------------------------------------------------------------------ C23
struct MelRef {
    int n, nceps; bool c0; double p; std::vector<V> w, we;      // weights; what rounding of the frequencies may do to them
    MelRef(int fs, int n_, int nc, bool c0_, double p_) : n(n_), nceps(nc), c0(c0_), p(p_), w(40, V(n_ / 2, 0.0)), we(w) {
        V f(42); for (int i = 0; i < 13; ++i) f[i] = 66.6666666 + i * 66.66666666;
        for (int i = 13; i < 42; ++i) f[i] = f[12] * std::pow(1.0711703, i - 12);
        for (int i = 0; i < 40; ++i) for (int j = 0; j < n / 2; ++j) {
            double x = double(j) * fs / n, h = 2 / (f[i + 2] - f[i]);
            double slip = 2e-15 * (x + f[i + 2]); if (x > f[i] - slip && x < f[i + 2] + slip) we[i][j] = h * slip / std::min(f[i + 1] - f[i], f[i + 2] - f[i + 1]);
            if (x > f[i] && x <= f[i + 1]) w[i][j] = h * (x - f[i]) / (f[i + 1] - f[i]);
            else if (x > f[i + 1] && x < f[i + 2]) w[i][j] = h * (f[i + 2] - x) / (f[i + 2] - f[i + 1]);
        }
    }
    bool allFilters() const { for (auto &r : w) { double t = 0; for (double x : r) t += x; if (t < 1e-6) return false; } return true; }
    // delta: error bound of one magnitude. false: undecidable
    bool run(const V &mag, double delta, V &out, double &tol) const {
        V e(40); V er(40); tol = 1e-12;
        for (int i = 0; i < 40; ++i) {
            double t = 0, sw = 0, sl = 0; for (int j = 0; j < n / 2; ++j) { t += w[i][j] * mag[j]; sw += w[i][j] + we[i][j]; sl += we[i][j] * mag[j]; }
            double d = delta * sw + 1e-13 * t + sl;
            if (d > 0 && t < 1e3 * d) return false;      // all rounding, or on the edge of it
            e[i] = t > 0 ? std::log10(t) : 0; er[i] = t > 0 ? d / t + 1e-15 * std::fabs(e[i]) : 0;
            if (p != 1) { er[i] *= std::fabs(p) * std::pow(std::fabs(e[i]) + er[i], p - 1); e[i] = std::pow(e[i], p); er[i] += 1e-14 * std::fabs(e[i]); }
            tol += er[i];
        }
        out.clear(); double mx = maxabs(e); tol += 1e-13 * 40 * mx;
        for (int k = c0 ? 0 : 1; k <= nceps; ++k) { double t = 0; for (int j = 0; j < 40; ++j) t += std::cos(k * (j + 0.5) * M_PI / 40) * e[j]; out.push_back(t * std::sqrt(2.0 / 40) * (k == 0 ? std::sqrt(0.5) : 1)); }
        return true;
    }
};
static V windowRef(WindowType t, int n) {
    V w(n); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * i / n;
        switch (t) { case HammingWindow: w[i] = 0.54 - 0.46 * cos(a); break; case HanningWindow: w[i] = 0.5 - 0.5 * cos(a); break;
            case BlackmanWindow: w[i] = 0.42 - 0.5 * cos(a) + 0.08 * cos(2 * a); break; default: w[i] = 0.5; } }
    return w;
}
SUB(C23, definition, 400, "coefficients that are not all zero; a mixed history of sample and spectrum frames, each against the filterbank, logarithm and cosine transform") {
    int fs = s.pick<int>({44100, 48000, 22050, 16000, 8000, 11025, 96000, 1000}); MFCCConfig c(fs);
    c.fftsize = s.chance(8) ? 2048 : s.pick<int>({256, 512, 64, 1024, 2, 4, 30, 300, 1000});
    c.nceps = s.chance(6) ? s.i(40, 64) : s.i(1, 39); c.logpower = s.pick<double>({1, 1, 2, 3}); c.want_c0 = s.b(); c.window = s.pick<WindowType>({HammingWindow, HanningWindow, BlackmanWindow, RectangularWindow});
    s.note("rate=%d fft=%d ceps=%d power=%g c0=%d window=%d", fs, c.fftsize, c.nceps, c.logpower, int(c.want_c0), int(c.window));
    MFCC m(c); MelRef r(fs, c.fftsize, c.nceps, c.want_c0, c.logpower); int n = c.fftsize, no = c.nceps + (c.want_c0 ? 1 : 0);
    REQUIRE(m.getfftlength() == n, "transform length %d, configured %d", m.getfftlength(), n);
    V w = windowRef(c.window, n); int frames = s.hist(1, 4, 200.0 * n, 15, 200);
    for (int f = 0; f < frames; ++f) {
        bool freq = s.b(); DBuf out(no, 1e300); V mag(n / 2), want; double delta = 0, tol; int ret;
        if (freq) {
            V re = signal(s, n / 2 + 1, s.pick<double>({1, 1e3})), im = s.b() ? signal(s, n / 2 + 1) : V(n / 2 + 1, 0.0); DBuf a(re), b(im);
            ret = m.process(a, b, out); sameBits("real input", a.vec(), re); sameBits("imaginary input", b.vec(), im);
            for (int i = 0; i < n / 2; ++i) mag[i] = std::hypot(re[i], im[i]);
            bool tiny = false; for (double v : mag) tiny |= v > 0 && v < 1e-140; if (tiny) continue;     // squares underflow
        } else {
            V x = signal(s, n, s.pick<double>({1, 1e4})); if (s.b()) { Rng g(s.seed()); double a = 1e-3 * maxabs(x); for (auto &v : x) v += a * g.sym(); }
            DBuf a(x); ret = m.process(a, out); sameBits("input", a.vec(), x);
            V y(n), re, im; double e = 0; for (int i = 0; i < n; ++i) { y[i] = x[i] * w[i]; e += std::fabs(y[i]) + 0.1 * std::fabs(x[i]); }      // a window may end on zero, or on a rounding error
            if ((n & (n - 1)) == 0) { re = y; im.assign(n, 0); ref::fft2(re, im, false); } else ref::realDft(y, n / 2, re, im);
            for (int i = 0; i < n / 2; ++i) mag[i] = std::hypot(re[i], im[i]);
            delta = 1e-14 * e;
        }
        REQUIRE(ret == c.nceps, "returned %d, %d coefficients configured", ret, c.nceps);
        finite("coefficients", out.vec());
        if (!r.run(mag, delta, want, tol)) continue;
        same("coefficients", out.vec(), want, tol * 4);
        if (maxabs(want) > 0) s.nontrivial();
    }
}
SUB(C23, defaults, 150, "a frame that is not silent through extractors of which one leaves settings at their documented defaults") {
    int fs = s.pick<int>({44100, 48000, 22050}); MFCCConfig d(fs), e(fs); e.fftsize = 2048; e.nceps = 19; e.logpower = 1; e.want_c0 = true; e.window = HammingWindow;
    if (s.b()) { d.want_c0 = e.want_c0 = false; s.note("without the zeroth"); } if (s.chance(3)) { d.fftsize = e.fftsize = 1024; s.note("fft 1024"); } if (s.chance(3)) d.nceps = e.nceps = s.i(1, 39);
    MFCC a(d), b(e); REQUIRE(a.getfftlength() == b.getfftlength(), "length %d by default, %d with the documented values", a.getfftlength(), b.getfftlength()); V x = signal(s, e.fftsize); DBuf u(x), v(x), p(e.nceps + 1, 5.5), q(e.nceps + 1, 5.5); a.process(u, p); b.process(v, q); sameBits("coefficients", p.vec(), q.vec()); s.nontrivial(maxabs(x) > 0);
}
SUB(C23, scaling, 200, "a frame that is not silent through filters that all see some bin; the frame again at another level on the same object") {
    int fs = s.pick<int>({44100, 22050, 16000, 48000}); MFCCConfig c(fs); c.fftsize = s.pick<int>({1024, 2048, 4096}); c.nceps = s.i(1, 39); c.want_c0 = true;
    MFCC m(c); MelRef r(fs, c.fftsize, c.nceps, true, 1); int n = c.fftsize; if (!r.allFilters()) throw Discard();
    Rng g(s.seed()); V x(n); double col = s.uni(0, 0.95), z = 0; for (auto &v : x) { z = col * z + g.gauss(); v = z; }
    double k = s.logu(1e-3, 1e3); s.note("rate=%d fft=%d gain=%g colour=%g", fs, n, k, col);
    DBuf a(x), o1(c.nceps + 1), o2(c.nceps + 1); m.process(a, o1); for (int i = 0; i < n; ++i) a[i] *= k; m.process(a, o2);
    REQUIRE(close(o2[0] - o1[0], std::log10(k) * std::sqrt(40.0), 1e-7), "zeroth coefficient moved by %.9g for gain %g", o2[0] - o1[0], k);
    for (int i = 1; i <= c.nceps; ++i) REQUIRE(close(o1[i], o2[i], 1e-7), "coefficient %d moved from %.12g to %.12g at gain %g", i, o1[i], o2[i], k);
    s.nontrivial();
}
