// C04 PhaseVocoder, C09 Decimator/DecimatorB, C10/C11 Resampler
#include "pbt.hpp"
#include "ref.hpp"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/transforms/FFT.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/rateconversion/Resampler.h"
#include <memory>
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<double> V;

static double wrapTo(double x) { return x - 2 * M_PI * std::floor(x / (2 * M_PI) + 0.5); }   // [-pi,pi)

// ------------------------------------------------------------------ C04
SUB(C04, frames, 1500, "at least two frames with a non-silent one; time-domain, frequency-domain and reset calls mixed, against DFT and unwrapping reference") {
    int n = s.chance(80) ? s.pick<int>({1024, 2048, 1026, 1500, 2 * s.i(512, 1100)}) : 2 * s.sz(1, s.chance(12) ? 400 : 70);
    int hop = s.chance(3) ? s.i(1, 3 * n) : s.sz(1, n);
    s.note("n=%d hop=%d", n, hop);
    PhaseVocoder pv(n, hop);
    int h = n / 2 + 1;
    V prev(h); std::vector<char> first(h, 1);
    int frames = s.hist(1, n < 1000 ? 7 : 4, 0.5 * n * n, 25, 400), real = 0;
    bool tone = s.chance(3); double w = s.uni(0, M_PI), ph0 = s.uni(-3, 3); long at = 0;
    for (int k = 0; k < frames; ++k) {
        if (k && s.chance(6)) { pv.reset(); s.note("reset"); std::fill(first.begin(), first.end(), 1); }
        DBuf mag(h, 3.5), ph(h, 3.5), un(h, 3.5);
        V re, im; double scale;
        if (s.chance(3)) {
            re = values(s, h, 10, "re"); im = values(s, h, 10, "im");
            DBuf r(re), i(im);
            pv.processFrequencyDomain(r, i, mag, ph, un);
            sameBits("real input", r.vec(), re); sameBits("imaginary input", i.vec(), im);
            scale = maxabs(re) + maxabs(im);
        } else {
            V x;
            if (tone) { x.resize(n); for (int i = 0; i < n; ++i) x[i] = std::cos(w * (at + i) + ph0); at += hop; s.note("tone frame"); }
            else x = signal(s, n);
            DBuf in(x);
            pv.processTimeDomain(in, mag, ph, un);
            sameBits("frame", in.vec(), x);
            ref::realDft(ref::rotateHalf(x), h, re, im);
            scale = maxabs(x) * n;
        }
        double tol = 1e-11 * scale + 1e-300;
        if (scale > 0) ++real;
        for (int i = 0; i < h; ++i) {
            double m = std::sqrt(re[i] * re[i] + im[i] * im[i]);
            REQUIRE(close(mag[i], m, tol), "frame %d bin %d magnitude %.15g, expected %.15g", k, i, mag[i], m);
            REQUIRE(std::fabs(ph[i]) <= M_PI + 1e-12, "frame %d bin %d phase %.15g outside [-pi,pi]", k, i, ph[i]);
            if (m > 1e-6 * scale) {
                double d = wrapTo(ph[i] - std::atan2(im[i], re[i]));
                REQUIRE(std::fabs(d) <= 10 * tol / m + 1e-12, "frame %d bin %d phase %.15g, expected %.15g", k, i, ph[i], std::atan2(im[i], re[i]));
            } else if (m == 0 && scale == 0) REQUIRE(ph[i] == 0 || close(std::fabs(ph[i]), M_PI, 1e-12), "phase of silence is %g", ph[i]);
            double omega = 2 * M_PI * hop * i / double(n);
            double expct = first[i] ? 0 : prev[i] + omega;
            double ut = 1e-10 * (1 + std::fabs(expct) + std::fabs(omega));
            REQUIRE(std::isfinite(un[i]), "frame %d bin %d unwrapped phase is not finite", k, i);
            REQUIRE(std::fabs(wrapTo(un[i] - ph[i])) <= ut, "frame %d bin %d unwrapped phase %.15g is not congruent to phase %.15g", k, i, un[i], ph[i]);
            REQUIRE(std::fabs(un[i] - expct) <= M_PI + ut, "frame %d bin %d unwrapped phase %.15g is more than pi from the expected %.15g", k, i, un[i], expct);
            prev[i] = un[i]; first[i] = 0;
        }
    }
    s.nontrivial(frames >= 2 && real > 0);
}
SUB(C04, domains, 800, "non-silent frames: one object fed frames, another their spectra, give the same results") {
    int n = 2 * s.szl(1, 80, 12, 4096), hop = s.sz(1, n), h = n / 2 + 1; s.note("n=%d hop=%d", n, hop);
    PhaseVocoder a(n, hop), b(n, hop); FFTReal f(n);
    int frames = s.hist(1, 5, 100.0 * n, 25, 200);
    for (int k = 0; k < frames; ++k) {
        V x = signal(s, n); DBuf in(x), rot(ref::rotateHalf(x)), re(n), im(n);
        f.forward(rot, re, im);
        DBuf m1(h), p1(h), u1(h), m2(h), p2(h), u2(h);
        a.processTimeDomain(in, m1, p1, u1); b.processFrequencyDomain(re, im, m2, p2, u2);
        double sc = maxabs(x) * n;
        for (int i = 0; i < h; ++i) {
            REQUIRE(close(m1[i], m2[i], 1e-12 * sc), "frame %d bin %d magnitude %.15g against %.15g from the spectrum", k, i, m1[i], m2[i]);
            if (m1[i] > 1e-5 * sc) REQUIRE(std::fabs(wrapTo(p1[i] - p2[i])) < 1e-5, "frame %d bin %d phase %.15g against %.15g from the spectrum", k, i, p1[i], p2[i]);
        }
        s.nontrivial(maxabs(x) > 0);
    }
}

// ------------------------------------------------------------------ C09
// the anti-alias filters as published with the library
static const double D8b[8] = {0.060111378492136, -0.257323420830598, 0.420583503165928, -0.222750785197418, -0.222750785197418, 0.420583503165928, -0.257323420830598, 0.060111378492136};
static const double D8a[8] = {1, -5.667654878577432, 14.062452278088417, -19.737303840697738, 16.889698874608641, -8.796600612325928, 2.577553446979888, -0.326903916815751};
static const double D4b[8] = {0.10133306904918619, -0.2447523353702363, 0.33622528590120965, -0.13936581560633518, -0.13936581560633382, 0.3362252859012087, -0.2447523353702358, 0.10133306904918594};
static const double D4a[8] = {1, -3.9035590278139427, 7.5299379980621133, -8.6890803793177511, 6.4578667096099176, -3.0242979431223631, 0.83043385136748382, -0.094420800837809335};
static const double D2b[8] = {0.20898944260075727, 0.40011234879814367, 0.819741973072733, 1.0087419911682323, 1.0087419911682325, 0.81974197307273156, 0.40011234879814295, 0.20898944260075661};
static const double D2a[8] = {1, 0.0077331184208358217, 1.9853971155964376, 0.19296739275341004, 1.2330748872852182, 0.18705341389316466, 0.23659265908013868, 0.032352924250533946};
static const double DBb[7] = {0.029588223638661, 0.177529341831965, 0.443823354579912, 0.591764472773216, 0.443823354579912, 0.177529341831965, 0.029588223638661};
static const double DBa[7] = {1, 0, 0.777695961855673, 0, 0.114199425062434, 0, 0.001750925956183};
static V keep(const V &x, int f) { V y; for (size_t i = 0; i < x.size(); i += f) y.push_back(x[i]); return y; }
static V decRef(const V &x, int f) {
    if (f == 1) return x;
    const double *a = f == 8 ? D8a : f == 4 ? D4a : D2a, *b = f == 8 ? D8b : f == 4 ? D4b : D2b;
    return keep(ref::filter(V(a, a + 8), V(b, b + 8), x), f);
}
static V decBRef(V x, int f) { while (f > 1) { x = keep(ref::filter(V(DBa, DBa + 7), V(DBb, DBb + 7), x), 2); f /= 2; } return x; }

template <typename D> static void runDec(Src &s, int factor, bool isB) {
    int block = factor * s.szl(1, std::max(1, 200 / factor), 60, std::max(2, 8000 / factor)), blocks = s.chance(60) ? s.i(7, 80) : s.i(1, 6);
    int n = block * blocks;
    s.note("factor=%d block=%d blocks=%d", factor, block, blocks);
    D d(block, factor), other(n, factor);
    REQUIRE(d.getFactor() == factor, "factor %d, expected %d", d.getFactor(), factor);
    V x = signal(s, n, s.pick<double>({1, 1, 100, 1e-5}));
    for (auto &v : x) v = double(float(v));       // representable in both precisions
    V want = isB ? decBRef(x, factor) : decRef(x, factor), got;
    double tol = 1e-9 * maxabs(x);
    bool fl = s.chance(3); double ft = fl ? 3e-7 * (maxabs(want) + maxabs(x)) : 0;
    bool inplace = s.chance(3); if (fl) s.note("float"); if (inplace) s.note("in place");
    int ol = block / factor;
    int so = 0, dof = 0; if (inplace && s.b()) { int by = s.i(1, block); if (s.b()) so = by % (ol + 1); else dof = by % block; s.note("output %d after the input", dof - so); }   // overlapping, not the same
    for (int k = 0; k < blocks; ++k) {
        V seg(x.begin() + k * block, x.begin() + (k + 1) * block);
        if (inplace && so + dof > 0) {
            int len = std::max(so + block, dof + ol);
            if (fl) { Buf<float> b(len, 5.f); for (int i = 0; i < block; ++i) b[so + i] = float(seg[i]); d.process((const float *)b.p + so, b.p + dof); for (int i = 0; i < ol; ++i) got.push_back(b[dof + i]); }
            else { DBuf b(len, 5.0); for (int i = 0; i < block; ++i) b[so + i] = seg[i]; d.process((const double *)b.p + so, b.p + dof); for (int i = 0; i < ol; ++i) got.push_back(b[dof + i]); }
            continue;
        }
        if (fl) {
            Buf<float> in(block), out(ol, 9.f); for (int i = 0; i < block; ++i) in[i] = float(seg[i]);
            if (inplace) { d.process((const float *)in.p, in.p); for (int i = 0; i < ol; ++i) got.push_back(in[i]); }
            else { d.process((const float *)in.p, out.p); for (int i = 0; i < ol; ++i) got.push_back(out[i]);
                for (int i = 0; i < block; ++i) REQUIRE(in[i] == float(seg[i]), "input modified"); }
        } else {
            DBuf in(seg), out(ol, 9.0);
            if (inplace) { d.process((const double *)in.p, in.p); V o = in.vec(ol); got.insert(got.end(), o.begin(), o.end()); }
            else { d.process((const double *)in.p, out.p); V o = out.vec(); got.insert(got.end(), o.begin(), o.end()); sameBits("input", in.vec(), seg); }
        }
    }
    if (factor == 1 && !fl) sameBits("factor one", got, x);
    same("decimated stream", got, want, tol + ft);
    // one block of the whole stream
    DBuf in(x), out(n / factor); other.process((const double *)in.p, out.p);
    same("decimated in one block", out.vec(), want, tol);
    s.nontrivial(maxabs(x) > 0 && factor > 1 && n > 16);
}
SUB(C09, decimator, 2500, "factor > 1, non-silent stream of more than 16 samples: blocks, precision and in-place varied, against the difference equation and every Nth sample") {
    int factor = s.pick<int>({2, 4, 8, 1}); runDec<Decimator>(s, factor, false);
}
SUB(C09, decimatorb, 2500, "the same for the cascaded half-band decimator, factors to 64") { runDec<DecimatorB>(s, 1 << s.i(1, 6), true); }
SUB(C09, refused, 60, "a block length that is not a multiple of the factor, or a factor that is no power of two, given to the cascaded decimator") {
    int f = 1 << s.i(1, 6), n = f * s.i(0, 20) + s.i(1, f - 1); if (s.b()) { f = s.pick<int>({3, 6, 12, 1, 0, 20}); n = std::max(1, f) * s.i(1, 10); } s.note("block=%d factor=%d", n, f);
    V x = signal(s, n); DBuf in(x), out(n, 7.0); Buf<float> fi(n, 1.f), fo(n, 7.f);
    { struct H { int sv; H() { fflush(stderr); sv = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); } ~H() { dup2(sv, 2); close(sv); } } h; if (f == 0) f = -2; DecimatorB d(n, f); d.process((const double *)in.p, out.p); d.process((const float *)fi.p, fo.p); }
    for (int i = 0; i < n; ++i) REQUIRE(out[i] == 7.0 && fo[i] == 7.f, "sample %d written by a decimator that cannot work: %g %g", i, out[i], double(fo[i])); sameBits("input", in.vec(), x);
    s.nontrivial();
}
SUB(C09, reset, 1200, "non-silent signal before the reset: the object afterwards behaves as new") {
    int f = s.pick<int>({2, 4, 8, 1}), block = f * s.sz(1, 60); s.note("factor=%d block=%d", f, block);
    Decimator a(block, f), b(block, f);
    int rounds = s.hist(1, 2, 200.0 * block, 12, 60); double m = 0;
    for (int r = 0; r < rounds; ++r) {
    int pre = s.i(r ? 0 : 1, 4);
    for (int k = 0; k < pre; ++k) { V x = signal(s, block, 10); m = std::max(m, maxabs(x)); DBuf in(x), out(block / f); a.process((const double *)in.p, out.p); }
    a.resetFilter(); if (r) b.resetFilter(); if (s.chance(8)) a.resetFilter();
    for (int k = 0; k < 3; ++k) { V x = signal(s, block); DBuf in(x), o1(block / f), o2(block / f); a.process((const double *)in.p, o1.p); b.process((const double *)in.p, o2.p);
        same(r ? "block after a later reset" : "block after a reset against a new object", o1.vec(), o2.vec(), 1e-13 * maxabs(x)); }
    }
    s.nontrivial(m > 0);
}
SUB(C09, response, 600, "sinusoids well below and well above the output Nyquist: unit gain and attenuation") {
    bool isB = s.b(); int f = isB ? 1 << s.i(1, 5) : s.pick<int>({2, 4, 8});
    bool pass = s.b();
    double nyq = M_PI / f, w = pass ? nyq * s.uni(0, isB ? 0.5 : 0.85) : s.uni(std::min(nyq * 1.01, 0.999 * M_PI), M_PI);
    if (!pass && isB) w = s.b() ? s.uni(1.35 * nyq, 2 * nyq) : s.uni(0.8 * M_PI, M_PI);
    int n = 64 * f * 8; s.note("%s factor=%d w=%g %s", isB ? "B" : "A", f, w, pass ? "pass" : "stop");
    double ph = s.uni(0, 6); V x(n); for (int i = 0; i < n; ++i) x[i] = std::cos(w * i + ph);
    DBuf in(x), out(n / f);
    if (isB) { DecimatorB d(n, f); d.process((const double *)in.p, out.p); } else { Decimator d(n, f); d.process((const double *)in.p, out.p); }
    V o = out.vec(); V tail(o.begin() + o.size() / 2, o.end());
    if (pass) {   // amplitude by least squares on the decimated sinusoid
        double wd = w * f, cc = 0, ss = 0, cs = 0, yc = 0, ys = 0;
        for (size_t i = 0; i < tail.size(); ++i) { double c = std::cos(wd * i), q = std::sin(wd * i); cc += c * c; ss += q * q; cs += c * q; yc += tail[i] * c; ys += tail[i] * q; }
        double det = cc * ss - cs * cs;
        if (det > 1e-3 * tail.size()) { double A = (yc * ss - ys * cs) / det, B = (ys * cc - yc * cs) / det, amp = std::hypot(A, B);
            REQUIRE(amp > 0.998 && amp < 1.002, "gain %g at %g of the output Nyquist", amp, w / nyq); s.nontrivial(); }
    } else {
        double m = maxabs(tail);
        REQUIRE(m < (isB ? 0.06 : 0.12), "alias at level %g for frequency %g of pi", m, w / M_PI); s.nontrivial();
    }
}

// ------------------------------------------------------------------ C10
struct Rates { int s, t; bool explicitParams; double snr, bw; };
static Rates rates(Src &s, bool cheap) {
    Rates r; r.explicitParams = s.chance(3); r.snr = 100; r.bw = 0.02;
    static const int common[] = {8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000};
    switch (s.draw(6)) {
    case 0: r.s = common[s.draw(8)]; r.t = common[s.draw(8)]; break;
    case 1: case 2: r.s = s.i(1, 12); r.t = s.i(1, 12); break;
    case 3: r.s = s.i(1, 60); r.t = s.i(1, 60); break;
    case 4: { int m = s.i(1, 5000); r.s = m * s.i(1, 9); r.t = m * s.i(1, 9); break; }
    default: if (!cheap && s.chance(4)) { r.s = s.i(1, 900); r.t = s.i(1, 900); } else { r.s = s.i(1, 20); r.t = s.b() ? r.s : s.i(1, 20); } if (!cheap && s.chance(12)) { (s.b() ? r.s : r.t) *= s.pick<int>({7, 100, 441}); } break;
    }
    if (r.explicitParams) { r.snr = s.uni(25, 140); r.bw = s.chance(12) ? s.logu(0.002, 0.01) : s.logu(0.01, 0.5); }
    s.note("%d -> %d%s", r.s, r.t, r.explicitParams ? "" : " (default filter)"); if (r.explicitParams) s.note("snr=%g bandwidth=%g", r.snr, r.bw);
    return r;
}
static Resampler *makeRs(const Rates &r) { return r.explicitParams ? new Resampler(r.s, r.t, r.snr, r.bw) : new Resampler(r.s, r.t); }

SUB(C10, blocking, 500, "at least two non-empty blocks and some non-zero output: concatenation against one call, per-call and running counts") {
    Rates r = rates(s, false);
    std::unique_ptr<Resampler> a(makeRs(r)), b(makeRs(r));
    int lat = a->getLatency(); REQUIRE(lat >= 0 && lat == b->getLatency(), "latency %d", lat);
    // enough input for some output to carry signal
    double inForLat = double(lat) * r.s / r.t;
    double most = s.chance(25) ? 80000 : 30000;
    int maxn = int(std::min(most, std::min(inForLat * (most > 30000 ? 12 : 2) + 400, 4 * most * r.s / r.t + 2)));
    int n = s.b() ? maxn : s.sz(1, maxn);
    V x = signal(s, n); 
    V one, cut;
    { DBuf in(x); one = a->process((const double *)in.p, n); }
    long mx = long(std::ceil(double(n) * r.t / r.s));
    REQUIRE(long(one.size()) <= mx, "%d samples in gave %zu out, more than ceil(n*target/source)=%ld", n, one.size(), mx);
    int nb = 0; long fed = 0;
    for (int k : partition(s, n, true, 200)) {
        DBuf in(V(x.begin() + fed, x.begin() + fed + k));
        int m = int(std::ceil(double(k) * r.t / r.s)), got;
        if (s.chance(3)) { V o = b->process((const double *)in.p, k); got = int(o.size()); cut.insert(cut.end(), o.begin(), o.end()); }
        else { DBuf out(m); got = b->process((const double *)in.p, out.p, k); REQUIRE(got <= m, "%d samples in gave %d out, more than %d", k, got, m); V o = out.vec(got); cut.insert(cut.end(), o.begin(), o.end()); }
        REQUIRE(got >= 0 && got <= m, "%d samples in gave %d out, limit %d", k, got, m);
        fed += k; if (k) ++nb;
        double ideal = double(fed) * r.t / r.s;
        REQUIRE(double(cut.size()) > ideal - 1 - 1e-9 * ideal && double(cut.size()) <= std::ceil(ideal) + 1, "after %ld samples in %zu were returned, expected about %g", fed, cut.size(), ideal);
        if (maxabs(cut) > 0) s.nontrivial(nb >= 2);
    }
    size_t common = std::min(one.size(), cut.size());
    size_t longer = std::max(one.size(), cut.size());
    REQUIRE(longer - common <= 1, "one call gives %zu samples, the blocks %zu", one.size(), cut.size());
    one.resize(common); cut.resize(common);
    same("output of the blocked stream against one call", cut, one, 1e-12 * maxabs(x));
}
SUB(C10, oneoff, 700, "input of more than one sample: exact output length and agreement with the streaming resampler advanced by its latency") {
    Rates r = rates(s, true); r.explicitParams = false;
    int n = s.sz(s.chance(10) ? 0 : 1, int(std::min(3000.0, 60000.0 * r.s / r.t + 3)));
    V x = signal(s, n); DBuf in(x);
    V out = Resampler::resample(r.s, r.t, in, n);
    size_t want = size_t((long(n) * r.t + r.s - 1) / r.s);
    REQUIRE(out.size() == want, "one-off resample of %d samples %d -> %d gave %zu, expected %zu", n, r.s, r.t, out.size(), want);
    Resampler st(r.s, r.t); int lat = st.getLatency();
    V got; size_t need = want + lat;
    { V y = x; y.resize(n + size_t(std::ceil(double(lat) * r.s / r.t)) + 2 + 2 * r.s / r.t, 0.0); DBuf b(y); got = st.process((const double *)b.p, int(y.size())); }
    if (got.size() >= need) same("one-off resample against the stream less its latency", out, V(got.begin() + lat, got.begin() + need), 1e-12 * maxabs(x));
    else fail("stream of %zu outputs does not cover latency %d + %zu", got.size(), lat, want);
    sameBits("input", in.vec(), x);
    s.nontrivial(n > 1 && maxabs(x) > 0);
}

// ------------------------------------------------------------------ C11
static V kaiserSinc(int S, int T, double snr, double bw, int &len) {
    int g = 1; for (int k = 1; k <= std::min(S, T); ++k) if (S % k == 0 && T % k == 0) g = k;
    int higher = std::max(S, T) / g;
    double pole = higher; if (T < S) pole = pole / (1.0 - bw / 2.0);
    double width = bw * 2 * M_PI / higher;
    double q = snr > 21 ? (snr - 7.95) / (2.285 * width) : 5.79 / width;
    len = 1 + int(std::ceil(q)); if (len % 2 == 0) ++len; if (len > 200001) len = 200001;
    double beta = snr > 50 ? 0.1102 * (snr - 8.7) : snr > 21 ? 0.5842 * std::pow(snr - 21, 0.4) + 0.07886 * (snr - 21) : 0;
    V f(len); int h = len / 2; double den = std::cyl_bessel_i(0.0, beta);
    for (int i = 0; i < len; ++i) { double t = 2.0 * i / (len - 1) - 1, u = 1 - t * t; if (u < 0) u = 0; double a = (i - h) * M_PI / pole;
        f[i] = (i == h ? 1.0 : std::sin(a) / a) * std::cyl_bessel_i(0.0, beta * std::sqrt(u)) / den * (T / g) / pole; }
    return f;
}
SUB(C11, kernel, 250, "non-silent input reaching the output: every output sample against direct convolution with an independently computed Kaiser-windowed sinc") {
    Rates r; r.s = s.i(1, 24); r.t = s.i(1, 24); r.explicitParams = s.b(); r.snr = 100; r.bw = 0.02;
    if (r.explicitParams) { r.snr = s.uni(25, 140); r.bw = s.chance(12) ? s.logu(0.002, 0.01) : s.logu(0.01, 0.5); }
    s.note("%d->%d snr=%g bw=%g", r.s, r.t, r.snr, r.bw);
    std::unique_ptr<Resampler> a(makeRs(r));
    int len; V f = kaiserSinc(r.s, r.t, r.snr, r.bw, len);
    int g = 1; for (int k = 1; k <= std::min(r.s, r.t); ++k) if (r.s % k == 0 && r.t % k == 0) g = k;
    long in = r.t / g, out = r.s / g, h = len / 2; int lat = a->getLatency();
    REQUIRE(lat * out >= h - 1 && lat * out <= h + 2 * out, "latency %d for a filter of %d taps and output spacing %ld", lat, len, out);
    int n = s.sz(1, int(std::min(4000.0, double(lat) * r.s / r.t * 1.5 + 200)));
    V x = signal(s, n), y; 
    { DBuf b(x); y = a->process((const double *)b.p, n); }
    double bound = 0; for (double v : f) bound += std::fabs(v); bound = bound / std::max(1L, in) + 1;
    // check a sample of the outputs (all when few)
    size_t step = y.size() > 400 ? y.size() / 200 : 1;
    for (size_t j = 0; j < y.size(); j += step) {
        long c = (long(j) - lat) * out;      // position of this output on the fine grid
        long double v = 0; long i0 = (c - h + in - 1) / in - 2; if (i0 < 0) i0 = 0;
        for (long i = i0; i < n; ++i) { long k = h + i * in - c; if (k < 0) continue; if (k >= len) break; v += (long double)x[i] * f[k]; }
        REQUIRE(close(y[j], double(v), 1e-9 * bound * maxabs(x)), "output %zu of %zu is %.15g, direct convolution gives %.15g (latency %d)", j, y.size(), y[j], double(v), lat);
    }
    s.nontrivial(maxabs(y) > 0);
}
static void toneCase(Src &s, bool pass) {
    Rates r;
    do { r = rates(s, true); } while (std::max(r.s, r.t) > 16.0 * std::min(r.s, r.t));
    int g = 1; { int a = r.s, b = r.t; while (b) { int t = a % b; a = b; b = t; } g = a; }
    if (std::max(r.s, r.t) / g > 320) throw Discard();
    if (r.explicitParams) { r.snr = std::max(40.0, r.snr); r.bw = std::max(0.02, std::min(0.3, r.bw)); s.note("adjusted snr=%g bw=%g", r.snr, r.bw); }
    double lower = std::min(r.s, r.t);
    double fnorm;      // relative to the lower Nyquist
    if (pass) fnorm = s.uni(0, 1 - 1.6 * r.bw) ; else { if (r.t >= r.s) throw Discard(); double top = double(r.s) / r.t; double lo = 1 + 1.0 * r.bw * (double(r.s) / r.t); if (lo >= top * 0.98) throw Discard(); fnorm = s.uni(lo, top * 0.98); }
    if (pass) { double edge = 1 - 1.2 * r.bw * std::max(r.s, r.t) / lower; if (edge < 0.05) throw Discard(); fnorm = s.chance(5) ? 0 : s.uni(0, edge); }
    double f = fnorm * lower / 2, ph = fnorm == 0 ? 0 : s.uni(0, 6.28), amp = s.pick<double>({1, 0.01, 1000});
    s.note("f=%g of lower nyquist, phase %g, amplitude %g", fnorm, ph, amp);
    std::unique_ptr<Resampler> a(makeRs(r));
    int lat = a->getLatency();
    int n = int(double(lat) * 2.2 * r.s / r.t) + 60 * std::max(1, r.s / r.t);
    V x(n); for (int i = 0; i < n; ++i) x[i] = amp * std::cos(2 * M_PI * f * i / r.s + ph);
    V y; { DBuf b(x); y = a->process((const double *)b.p, n); }
    double err = 0; int cnt = 0;
    for (int j = 2 * lat + 1; j < int(y.size()); ++j) { double t = double(j - lat) / r.t; double w = pass ? amp * std::cos(2 * M_PI * f * t + ph) : 0; err = std::max(err, std::fabs(y[j] - w)); ++cnt; }
    double lim = 10 * std::pow(10, -r.snr / 20) * amp * std::sqrt(double(std::max(1.0, double(r.s) / r.t))) + 1e-11 * amp;
    REQUIRE(cnt >= 5, "only %d settled outputs", cnt);
    REQUIRE(err <= lim, "%s sinusoid at %g of the lower Nyquist, %d -> %d: worst error %g, allowed %g", pass ? "passband" : "stopband", fnorm, r.s, r.t, err, lim);
    s.nontrivial();
}
SUB(C11, passband, 500, "sinusoid or constant in the passband: amplitude, frequency and time alignment after the latency") { toneCase(s, true); }
SUB(C11, stopband, 500, "downsampling a sinusoid beyond the target Nyquist: attenuated to about the configured ratio") { toneCase(s, false); }
SUB(C11, linear, 300, "two non-silent signals") {
    Rates r = rates(s, true); std::unique_ptr<Resampler> a(makeRs(r)), b(makeRs(r)), c(makeRs(r));
    int n = s.sz(1, int(std::min(3000.0, 2.0 * a->getLatency() * r.s / r.t + 100))); V x = signal(s, n), y = signal(s, n), z(n); double k = s.uni(-3, 3);
    for (int i = 0; i < n; ++i) z[i] = x[i] + k * y[i];
    DBuf bx(x), by(y), bz(z); V ox = a->process((const double *)bx.p, n), oy = b->process((const double *)by.p, n), oz = c->process((const double *)bz.p, n);
    REQUIRE(ox.size() == oz.size() && oy.size() == oz.size(), "output lengths %zu %zu %zu for the same input length", ox.size(), oy.size(), oz.size());
    V w(ox.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = ox[i] + k * oy[i];
    same("linearity", oz, w, 1e-11 * (maxabs(x) + 4 * maxabs(y)));
    s.nontrivial(maxabs(ox) > 0 && maxabs(oy) > 0);
}
SUB(C11, aligned, 300, "one-off resample of a tone in the passband, away from the ends, is time-aligned") {
    Rates r; do { r = rates(s, true); } while (std::max(r.s, r.t) > 8.0 * std::min(r.s, r.t));
    r.explicitParams = false; r.snr = 100; r.bw = 0.02;
    int g = 1; { int a = r.s, b = r.t; while (b) { int t = a % b; a = b; b = t; } g = a; }
    if (std::max(r.s, r.t) / g > 320) throw Discard();
    double edge = 1 - 1.2 * 0.02 * std::max(r.s, r.t) / std::min(r.s, r.t), fn = s.uni(0, edge), f = fn * std::min(r.s, r.t) / 2;
    Resampler rs(r.s, r.t); double half = double(rs.getLatency()) * r.s / r.t;
    int n = int(2 * half) + 40 * std::max(1, r.s / r.t); V x(n); for (int i = 0; i < n; ++i) x[i] = std::cos(2 * M_PI * f * i / r.s + 0.3);
    DBuf b(x); V y = Resampler::resample(r.s, r.t, b, n);
    int lo = rs.getLatency() + 1, hi = int(y.size()) - rs.getLatency() - 1, cnt = 0;
    for (int j = lo; j < hi; ++j, ++cnt) { double w = std::cos(2 * M_PI * f * j / r.t + 0.3); REQUIRE(std::fabs(y[j] - w) < 5e-4, "one-off resampled tone at %g of nyquist: sample %d is %g, expected %g", fn, j, y[j], w); }
    s.nontrivial(cnt > 5);
}
