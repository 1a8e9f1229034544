// C18 PeakPicking, C19 DetectionFunction, C28 Polyfit
#include "pbt.hpp"
#include "ref.hpp"
#include "filtgen.hpp"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/transforms/FFT.h"
#include "maths/Polyfit.h"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<double> V;

// ------------------------------------------------------------------ C18
SUB(C18, peaks, 4000, "at least one candidate maximum; onsets against the definition applied to the smoothed function, up to 3 functions per object") {
    PPickParams pp; Coefs c; int mode = s.i(0, 2);
    if (mode == 0) { c.a = {1, 0}; c.b = {1, 0}; c.gain = 1; }                    // no smoothing at all
    else if (mode == 1) { c.a = {1.0, -0.5949, 0.2348}; c.b = {0.1600, 0.3200, 0.1600}; c.gain = 100; }
    else c = makeCoefs(s, s.sz(1, 4), false);
    DBuf A(c.a), B(c.b);
    int n = s.chance(6) ? s.i(1, 12) : s.szl(5, 300, 60, 5000);
    pp.length = n; pp.tau = 0.01; pp.alpha = s.pick<int>({9, 1, 2, 4}); pp.cutoff = 0.5;
    pp.LPOrd = int(c.b.size()) - 1; pp.LPACoeffs = A; pp.LPBCoeffs = B;
    int wpre = s.szl(0, 16, 30, 100), wpost = s.szl(0, 16, 30, 100); if (s.chance(6)) wpre = wpost = 0; if (wpre || wpost) pp.WinT = PPWinThresh(wpre, wpost);      // what equals the documented default is left alone
    double qa = s.pick<double>({0, 0, 1e-3, 1e9}), qc = s.pick<double>({0, 0, 1e9, 1e-2}); if (s.chance(3)) { qa = s.uni(-0.05, 0.2); qc = s.uni(-0.3, 1.5); }
    double qb = s.uni(-1, 1); if (qa || qc) pp.QuadThresh = QFitThresh(qa, qb, qc); float delta = s.b() ? 0.f : float(s.uni(-0.5, 0.8)); if (delta) pp.delta = delta;
    s.note("n=%d thresholds a=%g c=%g pre=%d post=%d delta=%g alpha=%d", n, qa, qc, wpre, wpost, delta, pp.alpha);
    PeakPicking pk(pp);
    DFProcConfig cf; cf.length = n; cf.LPOrd = pp.LPOrd; cf.LPACoeffs = A; cf.LPBCoeffs = B; cf.winPre = wpre; cf.winPost = wpost;
    cf.AlphaNormParam = pp.alpha; cf.isMedianPositive = false; cf.delta = delta;
    DFProcess dp(cf);
    int calls = s.hist(1, 3, 60.0 * n * (wpre + wpost + 2), 25, 100);
    for (int q = 0; q < calls; ++q) {
        V x = s.b() ? signal(s, n, s.pick<double>({1, 20})) : values(s, n, 5, "df");
        if (s.chance(2)) for (auto &v : x) v = std::fabs(v);
        if (s.chance(6)) for (auto &v : x) v = std::floor(v * 3) / 3;       // plateaux
        DBuf df(x), sm(n, 0.0), in(x);
        std::vector<int> on;
        pk.process(df, n, on);
        if (n < 4) { REQUIRE(on.empty(), "%zu onsets from %d points", on.size(), n); sameBits("a function too short to process", df.vec(), x); continue; }
        dp.process(in, sm);
        V y = df.vec(); double sc = maxabs(sm.vec()) + 1e-300;
        same("function after picking against its smoothed version", y, sm.vec(), 1e-9 * sc * c.gain + 1e-12);
        size_t at = 0; int cand = 0;
        for (int i = 2; i < n - 2; ++i) {
            if (!(y[i] > y[i - 1] && y[i] > y[i + 1] && y[i] > 0)) { if (at < on.size() && on[at] == i) fail("onset at %d, which is not a positive local maximum (%.9g %.9g %.9g)", i, y[i - 1], y[i], y[i + 1]); continue; }
            ++cand;
            double f = (-3 * y[i - 2] + 12 * y[i - 1] + 17 * y[i] + 12 * y[i + 1] - 3 * y[i + 2]) / 35, h = (2 * y[i - 2] - y[i - 1] - 2 * y[i] - y[i + 1] + 2 * y[i + 2]) / 14;
            double m = 0; for (int k = -2; k <= 2; ++k) m = std::max(m, std::fabs(y[i + k])); double tol = 1e-12 * m + 1e-290;
            bool sure = (h < -qa - tol) || (f > qc + tol), maybe = (h < -qa + tol) || (f > qc - tol);
            bool got = at < on.size() && on[at] == i; if (got) ++at;
            if (sure && !got) fail("maximum at %d (fit height %.9g, curvature %.9g, thresholds %g %g) not reported", i, f, h, qc, qa);
            if (!maybe && got) fail("maximum at %d (fit height %.9g, curvature %.9g) reported against thresholds %g %g", i, f, h, qc, qa);
        }
        REQUIRE(at == on.size(), "onset list has %zu entries, %zu of them explained in order; next is %d", on.size(), at, on[at]);
        s.nontrivial(cand > 0);
    }
}

// ------------------------------------------------------------------ C19
static double princ(double x) { return x - 2 * M_PI * std::floor(x / (2 * M_PI) + 0.5); }
struct DfModel {     // value and error bound of each detection function type
    int type, h; double rise; bool wh; double relax, floorv;
    V peaks, mh, p1, p2, e1, e2, eh;
    DfModel(int t, int h_, double r, bool w, double rl, double fl) : type(t), h(h_), rise(r), wh(w), relax(rl < 0 ? 0.9997 : rl), floorv(fl < 0 ? 0.01 : fl), peaks(h_, 0), mh(h_, 0), p1(h_, 0), p2(h_, 0), e1(h_, 0), e2(h_, 0), eh(h_, 0) {}
    V mags;
    void step(const V &re, const V &im, double scale, bool exact, double &val, double &lo, double &hi) {
        mags.assign(h, 0); double err = 0; val = 0; lo = hi = 0; int sure = 0, may = 0;
        for (int i = 0; i < h; ++i) {
            double m = std::hypot(re[i], im[i]), th = std::atan2(im[i], re[i]);
            double pe = exact ? 1e-12 : m > 0 ? std::min(2 * M_PI, 3e-12 * scale / m) : (scale > 0 ? 2 * M_PI : 1e-12);
            double me = 3e-13 * scale;
            if (wh) { double q = m; if (q < peaks[i]) q = q + (peaks[i] - q) * relax; if (q < floorv) q = floorv; peaks[i] = q; m /= q; me = me / q * 4 + 1e-12; }
            mags[i] = m;
            double dev = princ(th - 2 * p1[i] + p2[i]), de = pe + 2 * e1[i] + e2[i];
            switch (type) {
            case 1: val += m * (i + 1); err += me * (i + 1); break;
            case 2: { double d = std::fabs(m * m - mh[i] * mh[i]); val += std::sqrt(d); double ed = 2 * (me + eh[i]) * (m + mh[i] + me + eh[i]); err += std::sqrt(d + ed) - std::sqrt(std::max(0.0, d - ed)); } break;
            case 3: val += std::fabs(dev); err += std::min(de, M_PI); break;
            case 4: { double a = mh[i] - m * std::cos(dev), b = m * std::sin(dev); val += std::hypot(a, b); err += me + eh[i] + 1e-12 * (m + mh[i]) + m * std::min(de, M_PI); } break;
            case 5: { double hm = std::sqrt(mh[i]), he = eh[i], lim = std::pow(10, rise / 20);      // count when m > lim * previous > 0
                      double mlo = std::max(0.0, m - me), mhi = m + me, hlo = std::max(0.0, hm - he), hhi = hm + he;
                      bool canZero = exact && m == 0;
                      if (hlo > 0 && mlo > lim * hhi * (1 + 1e-9)) { ++sure; ++may; }
                      else if (hhi > 0 && !canZero && mhi > lim * hlo * (1 - 1e-9)) ++may; 
                      } break;
            }
            eh[i] = exact && m == 0 ? 0 : me;
            p2[i] = p1[i]; p1[i] = th; e2[i] = e1[i]; e1[i] = pe; mh[i] = type == 5 ? m * m : m;
        }
        if (type == 5) { lo = sure; hi = may; val = sure; } else { double t = err * 2 + 1e-11 * std::fabs(val) + 1e-12 * (type == 3 ? h : 0); lo = val - t; hi = val + t; }
    }
};
static void hann(V &x) { int n = int(x.size()); for (int i = 0; i < n; ++i) x[i] *= 0.5 - 0.5 * std::cos(2 * M_PI * i / n); }
SUB(C19, frames, 4000, "at least two non-silent frames; value and magnitudes of every frame against the published definitions") {
    DFConfig c; int n = 2 * s.sz(1, s.chance(15) ? 300 : 40); int h = n / 2 + 1;
    c.frameLength = n; c.stepSize = s.chance(3) ? s.i(1, 2 * n) : std::max(1, n / 2); c.DFType = s.i(1, 5); c.dbRise = s.pick<double>({3, 0.1, 10, -2});
    c.adaptiveWhitening = s.chance(3); c.whiteningRelaxCoeff = s.b() ? -1 : s.chance(4) ? s.i(0, 1) : s.uni(0, 1); c.whiteningFloor = s.b() ? -1 : s.logu(1e-4, 1);
    s.note("n=%d type=%d rise=%g whitening=%d relax=%g floor=%g", n, c.DFType, c.dbRise, int(c.adaptiveWhitening), c.whiteningRelaxCoeff, c.whiteningFloor);
    DetectionFunction d(c); DfModel m(c.DFType, h, c.dbRise, c.adaptiveWhitening, c.whiteningRelaxCoeff, c.whiteningFloor);
    int frames = s.chance(40) ? s.i(9, 150) : s.i(1, 8), live = 0, hush = 0; std::vector<char> off(h, 0); V lastRe, lastIm, lastX;
    for (int k = 0; k < frames; ++k) {
        V re, im; double got, scale; bool exact = false;
        int kind = hush > 0 ? 3 : int(s.draw(4));
        if (!hush && s.chance(12)) { hush = s.i(2, 4); kind = 3; int wh = s.i(0, 2); Rng z(s.seed()); for (auto &o : off) o = wh ? z.i(0, wh) != 0 : 1; s.note("bins go silent for %d frames", hush - 1); }
        if (kind <= 1) {
            V x; if (!lastX.empty() && s.chance(5)) { x = lastX; s.note("same frame again"); } else x = signal(s, n, s.pick<double>({1, 1, 30}));
            lastX = x;
            DBuf in(x); got = d.processTimeDomain(in); sameBits("frame", in.vec(), x);
            scale = maxabs(x) * n; hann(x);
            ref::realDft(ref::rotateHalf(x), h, re, im);
            if (scale > 0) for (int i = 0; i < h; ++i) {}    // rounding noise handled by the error bounds
        } else {
            if (!lastRe.empty() && s.chance(5)) { re = lastRe; im = lastIm; double g = s.pick<double>({1, 1.5, 2}); for (auto &v : re) v *= g; for (auto &v : im) v *= g; s.note("same spectrum times %g", g); }
            else { re = values(s, h, 20, "re"); im = values(s, h, 20, "im"); for (auto &v : re) if (v == 0) v = 0.0; for (auto &v : im) if (v == 0) v = 0.0; }
            if (hush && --hush) for (int i = 0; i < h; ++i) if (off[i]) re[i] = im[i] = 0;
            lastRe = re; lastIm = im;
            DBuf r(re), i(im); got = d.processFrequencyDomain(r, i);
            sameBits("real input", r.vec(), re); sameBits("imaginary input", i.vec(), im);
            scale = maxabs(re) + maxabs(im); exact = true;
        }
        double val, lo, hi; m.step(re, im, scale, exact, val, lo, hi);
        // magnitudes (after whitening)
        double *g = d.getSpectrumMagnitude();
        for (int i = 0; i < h; ++i) { double tol = c.adaptiveWhitening ? 1e-9 + 3e-12 * scale / m.floorv : 1e-11 * scale + 1e-300;
            REQUIRE(close(g[i], m.mags[i], tol), "frame %d bin %d: magnitude %.12g, expected %.12g", k, i, g[i], m.mags[i]); }
        REQUIRE(got >= lo && got <= hi, "frame %d: detection function %.15g, definition gives %.15g (between %.15g and %.15g)", k, got, val, lo, hi);
        if (scale > 0) ++live;
        if (hi - lo > 0.2 * (std::fabs(val) + 1) && c.DFType != 5) s.note("(loose bound)");
    }
    s.nontrivial(live >= 2);
}
SUB(C19, domains, 2500, "non-silent noise frames: one object fed frames, another their spectra, agree") {
    DFConfig c; int n = 2 * s.sz(2, 64), h = n / 2 + 1; c.frameLength = n; c.stepSize = std::max(1, n / 2); c.DFType = s.i(1, 5); c.dbRise = 3; c.adaptiveWhitening = s.chance(3); c.whiteningRelaxCoeff = -1; c.whiteningFloor = -1;
    s.note("n=%d type=%d whitening=%d", n, c.DFType, int(c.adaptiveWhitening));
    DetectionFunction a(c), b(c); FFTReal f(n); int frames = s.i(1, 6);
    for (int k = 0; k < frames; ++k) {
        Rng r(s.seed()); V x(n); for (auto &v : x) v = r.sym() * (k + 1); V w = x; hann(w);
        DBuf in(x), rot(ref::rotateHalf(w)), re(n), im(n); f.forward(rot, re, im);
        double v1 = a.processTimeDomain(in), v2 = b.processFrequencyDomain(re, im);
        if (c.DFType == 5) REQUIRE(std::fabs(v1 - v2) <= 1, "frame %d: %.12g from samples, %.12g from the spectrum", k, v1, v2);
        else REQUIRE(close(v1, v2, 1e-6 * (1 + std::fabs(v1))), "frame %d: %.12g from samples, %.12g from the spectrum", k, v1, v2);
    }
    s.nontrivial();
}

// ------------------------------------------------------------------ C28
struct Hush { int saved; Hush() { fflush(stderr); saved = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); } ~Hush() { dup2(saved, 2); close(saved); } };
SUB(C28, optimum, 5000, "more points than terms with distinct abscissae: normal equations satisfied, correlation value, reproduction of exact polynomials") {
    int terms = s.i(1, 6), n = terms + s.szl(terms < 2 ? 2 : 0, 30, 40, 1500);
    double span = s.pick<double>({1, 2, 10, 0.2}), off = s.b() ? 0 : s.uni(-2, 2) * span;
    V x(n), y(n); bool exact = s.b(), grid = s.b(); V c(terms);
    Rng r(s.seed());
    for (int i = 0; i < n; ++i) x[i] = off + span * (grid ? 2.0 * i / (n - 1) - 1 : (2.0 * i + r.uni() * 0.8) / n - 1);
    for (int i = n - 1; i > 0; --i) std::swap(x[i], x[r.i(0, i)]);
    if (s.chance(4) && n > terms + 2) x[n - 1] = x[0];       // a repeated abscissa
    for (auto &v : c) v = s.val(5);
    for (int i = 0; i < n; ++i) { double p = 1, t = 0; for (int k = 0; k < terms; ++k) { t += c[k] * p; p *= x[i] / span; } y[i] = t + (exact ? 0 : 2 * r.sym()); }
    s.note("terms=%d n=%d span=%g offset=%g exact=%d", terms, n, span, off, int(exact)); s.notev("x", x); s.notev("y", y);
    V coef(terms, 99.0), cx = x, cy = y;
    double cor = TPolyFit::PolyFit2(x, y, coef);
    sameBits("x", x, cx); sameBits("y", y, cy);
    REQUIRE(int(coef.size()) == terms, "%zu coefficients", coef.size());
    // first-order optimality, measured against rounding in the normal equations
    std::vector<long double> res(n); long double srs = 0, sy = 0, sy2 = 0;
    for (int i = 0; i < n; ++i) { long double p = 1, t = 0; for (int k = 0; k < terms; ++k) { t += coef[k] * p; p *= x[i]; } res[i] = y[i] - t; srs += res[i] * res[i]; sy += y[i]; sy2 += (long double)y[i] * y[i]; }
    for (int k = 0; k < terms; ++k) {
        long double g = 0, sc = 0; for (int i = 0; i < n; ++i) { long double p = powl(x[i], k); g += p * res[i]; long double t = std::fabs(y[i]); long double q = 1; for (int m = 0; m < terms; ++m) { t += std::fabs(coef[m]) * fabsl(q); q *= x[i]; } sc += fabsl(p) * t; }
        REQUIRE(fabsl(g) <= 1e-8 * sc + 1e-12, "residuals are not orthogonal to x^%d: %Lg (scale %Lg)", k, g, sc);
    }
    double my = maxabs(y);
    if (exact && off == 0) { double p = 1; for (int k = 0; k < terms; ++k) { REQUIRE(close(coef[k] * p, c[k], 1e-6 * (maxabs(c) + 1e-12)), "coefficient %d is %.12g, the points lie on a polynomial with %.12g", k, coef[k], c[k] / p); p *= span; } }
    long double tot = sy2 - sy * sy / n;
    REQUIRE(cor >= 0 && cor <= 1 + 1e-6, "correlation %.12g", cor);
    if (tot > 1e-6 * sy2 && my > 0) { double w = double(srs / tot); w = w >= 1 ? 0 : 1 - w; REQUIRE(std::fabs(cor * cor - w) < 1e-6, "correlation %.9g, residuals give %.9g", cor, std::sqrt(w)); }
    s.nontrivial(n > terms && terms > 1);
}
SUB(C28, refuse, 1500, "fits that cannot be made give a non-positive result and leave the coefficients") {
    Hush q; int kind = s.i(0, 3); int terms = s.i(kind == 3 ? 2 : 1, 6); V x, y, coef(terms, 42.0);
    if (kind == 0) { int n = s.i(0, 1); x.assign(n, 1.5); y.assign(n, 2.5); s.note("%d points", n); }
    else if (kind == 1) { int n = s.i(2, 8), m = s.i(2, 8); if (m == n) ++m; x.resize(n); for (int i = 0; i < n; ++i) x[i] = i; y.assign(m, 1); s.note("%d abscissae, %d ordinates", n, m); }
    else if (kind == 2) { x = {0, 1, 2}; y = {1, 2, 3}; coef.clear(); s.note("no terms"); }
    else { int n = s.i(2, 20); double v = s.pick<double>({0, 1, 2, 0.5, -1, -4}); x.assign(n, v); y = values(s, n, 3, "y"); s.note("%d points all at %g, %d terms", n, v, terms); }
    double r = TPolyFit::PolyFit2(x, y, coef);
    REQUIRE(r <= 0, "result %g", r);
    for (double c : coef) REQUIRE(c == 42.0, "coefficients changed to %g although the fit was refused", c);
    s.nontrivial();
}
