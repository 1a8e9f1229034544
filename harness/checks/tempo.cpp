// C24 TempoTrack, C25 TempoTrackV2, C26 DownBeat
#include "pbt.hpp"
#include "ref.hpp"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/signalconditioning/DFProcess.h"
using namespace pbt;
typedef std::vector<double> V;

static V thresholded(const V &x) {
    V y(x); int n = int(x.size());
    for (int i = 0; i < n; ++i) { int a = std::max(0, i - 8), b = std::min(n - 1, i + 7); double m = 0; for (int k = a; k <= b; ++k) m += x[k]; y[i] = std::max(0.0, x[i] - m / (b - a + 1)); }
    return y;
}
// a detection function: non-negative, of varied shape
static V detFn(Src &s, int n) {
    V d(n, 0.0); int kind = int(s.draw(8)); double lv = s.pick<double>({1, 100, 1e-3}); Rng r(s.seed());
    s.note("detection function kind %d n=%d level %g", kind, n, lv);
    switch (kind) {
    case 0: { int p = s.i(2, 130); s.note("pulses every %d", p); for (int i = r.i(0, p - 1); i < n; i += p) d[i] = lv; break; }
    case 1: for (auto &x : d) x = lv * r.uni(); break;
    case 2: break;
    case 3: for (auto &x : d) x = lv; break;
    case 4: { int p = s.i(15, 110); double j = s.uni(0, 3); for (double t = 0; t < n; t += p + j * r.sym()) if (int(t) >= 0) d[int(t)] += lv * (0.5 + 0.5 * r.uni()); for (auto &x : d) x += 0.05 * lv * r.uni(); break; }
    case 5: { // segments: pulses, silence, pulses at another tempo, noise
        int at = 0; while (at < n) { int len = r.i(100, 1500), p = r.i(3, 128), what = r.i(0, 3); for (int i = 0; i < len && at + i < n; ++i) d[at + i] = what == 0 ? 0 : what == 1 ? (i % p == 0 ? lv : 0) : what == 2 ? lv * r.uni() : lv * (1 + std::sin(2 * M_PI * i / p)); at += len; } break; }
    case 7: { // accented pulses: the first of every two, three, four or six stands out, the interval wanders
        double p = s.uni(12, 60), wk = s.uni(0.05, 0.8), j = s.chance(2) ? 0 : s.uni(0, 2); int m = s.pick<int>({3, 3, 2, 4, 6}), k = 0; s.note("an accent every %d pulses of %g, the others %g, loose by %g", m, p, wk, j); double q = p; for (double at = r.uni() * p; at < n; at += q) { int i = int(at); d[i] += lv * (k++ % m == 0 ? 1 : wk); if (i + 1 < n) d[i + 1] += 0.4 * d[i]; q = std::max(5.0, std::min(100.0, q + j * r.sym())); } break; }
    default: { double p = s.uni(10, 120); for (int i = 0; i < n; ++i) d[i] = lv * std::pow(0.5 + 0.5 * std::cos(2 * M_PI * i / p), 6); }
    }
    return d;
}

struct TtGen { double A[3], B[3]; TTParams p; };
static void genTt(Src &s, TtGen &g) {
    double a[] = {1.0000, -0.5949, 0.2348}, b[] = {0.1600, 0.3200, 0.1600}; for (int i = 0; i < 3; ++i) { g.A[i] = a[i]; g.B[i] = b[i]; }
    g.p.lagLength = s.chance(3) ? s.i(40, 140) : 128; g.p.winLength = 4 * g.p.lagLength + (s.chance(4) ? s.i(0, 50) : 0);
    g.p.alpha = s.pick<int>({9, 2}); g.p.LPOrd = 2; g.p.LPACoeffs = g.A; g.p.LPBCoeffs = g.B; g.p.WinT.pre = s.chance(3) ? s.i(0, 10) : 8; g.p.WinT.post = s.chance(3) ? s.i(0, 10) : 7;
    s.note("window %d lag %d alpha %d median %d/%d", g.p.winLength, g.p.lagLength, g.p.alpha, g.p.WinT.pre, g.p.WinT.post);
}
SUB(C24, invariants, 300, "a detection function longer than one step; order, range, tempo and repeatability of up to three inputs through one tracker") {
    TtGen g; genTt(s, g); TempoTrack t(g.p); int calls = s.hist(1, 3, 1, 25, 40);
    for (int c = 0; c < calls; ++c) {
        int n = s.chance(5) ? s.i(0, 130) : s.i(1, calls > 3 ? 700 : s.chance(4) ? 6000 : 2500); V d = detFn(s, n);
        bool withT = s.b(); V te(s.i(0, 2), -5.0); size_t te0 = te.size();
        std::vector<int> b = withT ? t.process(d, &te) : t.process(d);
        int steps = (n + g.p.lagLength - 1) / g.p.lagLength;
        for (size_t i = 0; i < b.size(); ++i) {
            REQUIRE(b[i] >= 0 && b[i] < steps * g.p.lagLength, "call %d: beat %zu at %d, outside the %d analysed points", c, i, b[i], steps * g.p.lagLength);
            if (i) REQUIRE(b[i] > b[i - 1], "call %d: beat %zu at %d follows one at %d", c, i, b[i], b[i - 1]);
        }
        if (steps) { REQUIRE(!b.empty(), "no beats from %d points", n); }
        // every step contributes a first beat of its own
        for (int q = 0; q < steps; ++q) { bool any = false; for (int x : b) any |= x >= q * g.p.lagLength && x < (q + 1) * g.p.lagLength; REQUIRE(any, "no beat in analysis step %d", q); }
        if (withT) {
            REQUIRE(te.size() == te0 + steps, "%zu tempo values for %d analysis steps", te.size() - te0, steps);
            for (size_t i = 0; i < te0; ++i) REQUIRE(te[i] == -5.0, "existing tempo entry %zu overwritten", i);
            for (size_t i = te0; i < te.size(); ++i) REQUIRE(te[i] == 0 || (te[i] >= 30 && te[i] <= 180), "tempo %zu is %g", i, te[i]);
        }
        TempoTrack f(g.p); V te2; std::vector<int> b2 = withT ? f.process(d) : f.process(d, &te2);
        REQUIRE(b == b2, "call %d: beats differ from those of a new tracker %s tempi (%zu and %zu beats)", c, withT ? "without" : "with", b.size(), b2.size());
        s.nontrivial(steps > 1);
    }
}
SUB(C24, pulse_train, 250, "a pulse train of constant period with some noise, judged on the settled part") {
    double a[] = {1.0000, -0.5949, 0.2348}, b[] = {0.1600, 0.3200, 0.1600}; TTParams p; p.winLength = 512; p.lagLength = 128; p.alpha = 9; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b; p.WinT.pre = 8; p.WinT.post = 7;
    int P = s.i(24, 84), off = s.i(0, P - 1), n = 512 + 128 * s.i(14, 20); double noise = s.pick<double>({0, 0, 0.01}), lv = s.pick<double>({1, 50, 0.01}); Rng r(s.seed());
    V d(n, 0.0); for (int i = 0; i < n; ++i) d[i] = lv * noise * r.uni(); for (int i = off; i < n; i += P) d[i] = lv;
    s.note("period %d offset %d n=%d noise %g level %g", P, off, n, noise, lv);
    TempoTrack t(p); V te; std::vector<int> bt = t.process(d, &te);
    // the settled part: frames wholly inside the train
    int lo = 128 * 8, hi = n - 512 - 128, ok = 0, tot = 0, onp = 0; std::vector<int> gaps;
    for (size_t i = 1; i < bt.size(); ++i) if (bt[i] >= lo && bt[i] < hi) {
        int gp = bt[i] - bt[i - 1]; gaps.push_back(gp); ++tot;
        for (double k : {1.0, 2.0, 0.5, 3.0, 1 / 3.0, 1.5, 2 / 3.0}) if (std::fabs(gp - k * P) <= 2.01) { ++ok; break; }
        int ph = ((bt[i] - off) % P + P) % P; ph = std::min(ph, P - ph); int ph2 = ((bt[i] - off) * 2 % P + P) % P; ph2 = std::min(ph2, P - ph2); if (ph <= 2 || ph2 <= 4) ++onp;
    }
    s.notev("gaps", gaps);
    REQUIRE(tot >= 4, "%d beats in the settled part", tot);
    REQUIRE(ok * 100 >= tot * 75, "%d of %d gaps between beats are a simple multiple of the period %d", ok, tot, P);
    REQUIRE(onp * 10 >= tot * 7, "%d of %d beats lie on (or half way between) the pulses of period %d", onp, tot, P);
    s.nontrivial();
}

SUB(C24, clean_train, 120, "a pulse train on a quiet background; every settled beat, gap and tempo value") {
    double a[] = {1.0000, -0.5949, 0.2348}, b[] = {0.1600, 0.3200, 0.1600}; TTParams p; p.winLength = 512; p.lagLength = 128; p.alpha = 9; p.LPOrd = 2; p.LPACoeffs = a; p.LPBCoeffs = b; p.WinT.pre = 8; p.WinT.post = 7;
    int P = s.i(16, 84), off = s.i(0, P - 1), n = 512 + 128 * s.i(14, 24) + s.i(0, 127); double noise = s.pick<double>({0, 0.01, 0.03}), lv = s.pick<double>({1, 50, 0.01}); Rng r(s.seed());
    V d(n, 0.0); for (int i = 0; i < n; ++i) d[i] = lv * noise * r.uni(); for (int i = off; i < n; i += P) d[i] += lv;
    s.note("period %d offset %d n=%d noise %g level %g", P, off, n, noise, lv);
    TempoTrack t(p); V te; std::vector<int> bt = t.process(d, &te); int tot = 0, on = 0, gapOk = 0, teOk = 0, teN = 0; int lo = 1024, hi = n - 640; std::vector<int> gaps; double gap = 0;
    for (size_t i = 1; i < bt.size(); ++i) if (bt[i] >= lo && bt[i] < hi) {
        int g = bt[i] - bt[i - 1], ph = ((bt[i] - off) % P + P) % P; ph = std::min(ph, P - ph); ++tot; gaps.push_back(g);
        if (ph <= 1) ++on; if (std::abs(g - P) <= 1 || std::abs(g - 2 * P) <= 1) ++gapOk;
    }
    s.notev("gaps", gaps); REQUIRE(tot >= 3, "%d beats in the settled part", tot);
    std::vector<int> sorted = gaps; std::sort(sorted.begin(), sorted.end()); gap = sorted[sorted.size() / 2];
    REQUIRE(on == tot, "%d of %d beats lie on the pulses of period %d", on, tot, P);
    REQUIRE(gapOk == tot, "%d of %d gaps are the period %d or twice it", gapOk, tot, P);
    for (size_t q = 8; q + 5 < te.size(); ++q) { ++teN; double k = te[q] * gap / 5168; if (k > 0.95 && k < 1.06) ++teOk; }
    REQUIRE(teOk == teN, "%d of %d tempo values fit beats %g apart", teOk, teN, gap);
    s.nontrivial();
}

// The stated procedure (Davies and Plumbley's two-state tracker), computed independently from the same smoothed
// frames; `known` ends at the first frame in which rounding could turn a decision.
struct TwoState {
    const TtGen &g; int W, L; bool near = false; std::vector<int> beats; V tempi; int known = 0; bool modes[2] = {false, false};
    explicit TwoState(const TtGen &g_) : g(g_), W(g_.p.winLength), L(g_.p.lagLength) { }
    V smooth(V x) const { DFProcConfig c; c.length = int(x.size()); c.AlphaNormParam = g.p.alpha; c.LPOrd = g.p.LPOrd; c.LPACoeffs = g.p.LPACoeffs; c.LPBCoeffs = g.p.LPBCoeffs; c.winPre = g.p.WinT.pre; c.winPost = g.p.WinT.post; c.isMedianPositive = true; DFProcess d(c); V y(x.size()); d.process(x.data(), y.data()); return y; }
    int largest(const V &v, int from, int to) { int at = -1; double best = 0; for (int i = from; i < to; ++i) if (v[i] > best) { best = v[i]; at = i; } if (at >= 0 && best > 3e-16) for (int i = from; i < to; ++i) if (i != at && v[i] > best - 1e-9 * best) near = true; return at; }
    int whole(double p) { double f = p - std::floor(p); if (std::fabs(f - 0.5) < 1e-7) near = true; return int(std::floor(p + 0.5)); }
    double locked = 0;
    double period(const V &acf, const V &weight, int meter) {
        V comb(L, 0.0); int n = meter ? meter : 4; for (int i = 1; i < L - 1; ++i) for (int a = 1; a <= n; ++a) { double t = 0; for (int b = 1 - a; b < a; ++b) t += acf[a * (i + 1) + b - 1]; comb[i] += t * weight[i] / (meter ? 1 : 2 * a - 1); }
        int at;
        if (meter) at = std::max(0, largest(comb, 0, L));
        else {    // the pair of lags nearest to an octave apart and strongest
            V r = smooth(comb); double sum = 0; for (double x : r) sum += x; at = 1; if (sum != 0) { for (auto &x : r) x /= sum; } else r.assign(L, NAN);
            double top = 0, best = HUGE_VAL; int bi = 1, bj = 1; auto cost = [&](int i, int j) { return std::fabs(1 - std::fabs(std::log2(double(i) / j))) + 0.01 / (r[i] + r[j]); };
            for (int i = 1; i < L; ++i) for (int j = 1; j <= i; ++j) { double c = cost(i, j); if (c > top) top = c; if (i != j && c < best) { best = c; bi = i; bj = j; } }
            if (best < top) { for (int i = 1; i < L; ++i) for (int j = 1; j < i; ++j) if ((i != bi || j != bj) && cost(i, j) < best + 1e-7 * (1 + best)) near = true; if (std::fabs(r[bi] - r[bj]) < 1e-9) near = true; at = r[bi] > r[bj] ? bi : bj; if (!(best < top - 1e-7 * (1 + best))) near = true; }
        }
        double bpm = 5168.0 / at; if (bpm >= 30 && bpm <= 180) locked = bpm;
        double p = at + 1; int m = meter == 3 ? 3 : 4;
        for (int k = 2; k <= m; ++k) { int lo = k * at + k - 1 - (k - 1), hi = k * at + 2 * k - 1, best = std::max(largest(acf, lo, hi), -1); int j = best < 0 ? 0 : best - lo; p += double(j + 1 + (k == 2 ? 2 * at - 1 : k == 3 ? 3 * at - 2 : 4 * at - 6) + 1) / k; }
        return p / m;
    }
    void run(const V &d) {
        int n = int(d.size()); V ray(L), gauss; for (int i = 0; i < L; ++i) ray[i] = (i + 1) / (43.0 * 43) * std::exp(-(i + 1.0) * (i + 1) / (2 * 43.0 * 43)); V P, G; int flag = 0, meter = 0, last = 0;
        for (int q = 0; q * L < n; ++q) {
            V f(W, 0.0); for (int i = 0; i < W && q * L + i < n; ++i) f[i] = d[q * L + i];
            V sm = smooth(f), acf(W + 3, 0.0); for (int k = 0; k < W; ++k) { double t = 0; for (int i = k; i < W; ++i) t += sm[i - k] * sm[i]; acf[k] = t > 0 ? t / (W - k) : 2.2204e-16; }
            P.push_back(period(acf, ray, 0)); G.push_back(gauss.empty() ? 0 : period(acf, gauss, meter));
            if (!flag && std::fabs(G[q] - P[q]) > 3.9017) flag = 3;
            bool settled = false; if (flag == 1) { settled = std::fabs(2 * P[q] - P[q - 1] - P[q - 2]) < 2 * 3.9017; flag = 0; } else flag = std::max(0, flag - 1);
            double p; bool useLast = false;
            if (settled) {
                int r = whole(P[q]); auto band = [&](int k) { double t = 0; for (int i = k * r - 2; i <= k * r + 2; ++i) t += acf[i]; return t; }; double e3 = band(3), e4 = band(4); if (W >= 6 * r + 2) { e3 += band(6); e4 += band(2); } if (std::fabs(e3 - e4) < 1e-9 * (e3 + e4)) near = true; meter = e3 > e4 ? 3 : 4;
                gauss.assign(L, 0.0); double sg = P[q] / 4; for (int i = 0; i < L; ++i) gauss[i] = std::exp(-0.5 * std::pow((i + 1 - P[q]) / sg, 2)) / (std::sqrt(2 * M_PI) * sg);
                p = G[q] = period(acf, gauss, meter); modes[1] = true;
            } else if (!gauss.empty()) { p = G[q]; useLast = true; } else p = P[q];
            int r = whole(p); V w(r, 1.0); int FSP = q * L, off = last + r - FSP;
            if (useLast && last != 0 && off >= 0) {
                V s(2 * r + 2, 0.0); double mn = HUGE_VAL, mx = 0; for (int i = 0; i < 2 * r; ++i) { s[i] = std::exp(-0.5 * std::pow((i - r) / (r / 8.0), 2)) / (std::sqrt(2 * M_PI) * r / 8); mn = std::min(mn, s[i]); mx = std::max(mx, s[i]); } for (int i = 0; i < 2 * r; ++i) s[i] = (s[i] - mn) / mx;
                for (int i = 0; i < r; ++i) w[i] = s[r - off + 1 + i]; modes[0] = true;
            }
            V al(r); for (int o = 0; o < r; ++o) { double t = 0; for (int i = o; i < W; i += r + 1) t += f[i] * std::pow(double(W - i) / W, 2); al[o] = t * w[o]; }
            int ph = std::max(0, largest(al, 0, r)); if (near) return;
            last = FSP + ph; beats.push_back(last); while (last + r < FSP + L) { last += r; beats.push_back(last); }
            tempi.push_back(locked); known = q + 1;
        }
    }
};
SUB(C24, model, 500, "a detection function longer than one step; beats and tempi against the stated procedure, up to the first decision that rounding could turn") {
    TtGen g; genTt(s, g); TempoTrack t(g.p); int calls = s.i(1, 2);
    for (int c = 0; c < calls; ++c) {
        int n = s.i(1, s.chance(4) ? 6000 : 2500); V d = detFn(s, n); Rng r(s.seed()); double m = maxabs(d), nz = s.pick<double>({1e-3, 0.03, 0.2}); for (auto &x : d) x += nz * m * r.uni(); s.note("noise %g", nz);
        TwoState ref(g); ref.run(d); V te; std::vector<int> b = t.process(d, &te); int K = ref.known;
        for (int q = 0; q < K; ++q) REQUIRE(q < int(te.size()) && close(te[q], ref.tempi[q], 1e-4), "call %d: tempo %d is %.9g, expected %.9g", c, q, q < int(te.size()) ? te[q] : -1.0, ref.tempi[q]);
        size_t k = 0; for (; k < ref.beats.size(); ++k) REQUIRE(k < b.size() && b[k] == ref.beats[k], "call %d: beat %zu is %d, expected %d", c, k, k < b.size() ? b[k] : -1, ref.beats[k]);
        s.nontrivial(K > 1);
    }
}

// ------------------------------------------------------------------ C25
// scores of beat-period paths, computed independently of the tracker
struct PeriodModel {
    V wv; std::vector<V> rcf;
    PeriodModel(const V &df, double tempo, bool constrain) : wv(128) {
        double rp = 5167 / tempo;                          // 60 * 44100 / 512, in integers
        for (int i = 0; i < 128; ++i) wv[i] = constrain ? std::exp(-std::pow(i - rp, 2) / (2 * std::pow(rp / 4, 2))) : i / (rp * rp) * std::exp(-double(i) * i / (2 * rp * rp));
        int n = int(df.size());
        for (int at = 0; at + 512 < n; at += 128) {
            V f = thresholded(V(df.begin() + at, df.begin() + at + 512)), acf(512), r(128, 0.0);
            for (int lag = 0; lag < 512; ++lag) { double t = 0; for (int k = 0; k + lag < 512; ++k) t += f[k] * f[k + lag]; acf[lag] = t / (512 - lag); }
            for (int i = 2; i < 128; ++i) for (int a = 1; a <= 4; ++a) for (int b = 1 - a; b <= a - 1; ++b) r[i - 1] += acf[a * i + b - 1] * wv[i - 1] / (2 * a - 1);
            r = thresholded(r); double sum = 0; for (auto &x : r) { x += 0.0000008; sum += x; } for (auto &x : r) x /= sum + 0.0000008;
            rcf.push_back(r);
        }
    }
    double trans(int i, int j) const { return -(i - j) * (i - j) / 128.0; }
    double start(int i) const { return std::log(wv[i] * rcf[0][i]); }
    double best() const {
        V d(128, -1e300); for (int i = 20; i < 108; ++i) d[i] = start(i);
        for (size_t t = 1; t < rcf.size(); ++t) { V e(128, -1e300); for (int j = 20; j < 108; ++j) { for (int i = 20; i < 108; ++i) e[j] = std::max(e[j], d[i] + trans(i, j)); e[j] += std::log(rcf[t][j]); } d = e; }
        return *std::max_element(d.begin(), d.end());
    }
    double score(const std::vector<int> &p) const { double x = start(p[0]); for (size_t t = 1; t < p.size(); ++t) x += trans(p[t - 1], p[t]) + std::log(rcf[t][p[t]]); return x; }
};
SUB(C25, period_path, 150, "a function long enough for two analysis frames; the returned periods' path score against the optimum found independently") {
    float rate = s.pick<float>({44100.f, 48000.f, 22050.f}); int inc = s.pick<int>({512, 441, 256}); TempoTrackV2 t(rate, inc);
    int calls = s.hist(1, 2, 1, 40, 60);
    for (int call = 0; call < calls; ++call) {
    int n = s.chance(5) ? s.i(0, 700) : s.i(513, calls > 2 ? 900 : s.chance(20) ? 12000 : s.chance(3) ? 3000 : 1500); V d = detFn(s, n);
    if (s.b()) { double p = s.uni(25, 90), acc = s.uni(-0.05, 0.05), sd = s.pick<double>({0, 1, 3}); Rng r(s.seed()); d.assign(n, 0.0); for (double at = 0; at < n; at += p) { int i = int(at + sd * r.sym()); if (i >= 0 && i < n) d[i] = 1 + 0.3 * r.sym(); p = std::max(22.0, std::min(105.0, p * (1 + acc))); if (r.uni() < 0.05) acc = -acc; } s.note("pulses that quicken or slow: %g from %g, loose by %g", acc, p, sd); }
    // a little noise keeps the comparison clear of exact ties
    Rng r(s.seed()); double m = maxabs(d); for (auto &x : d) x += 1e-3 * m * r.uni();
    bool custom = s.b(), constrain = custom && s.b();
    double tempo = custom ? s.uni(60, 200) : 120; s.note("n=%d rate=%g increment=%d tempo=%g constrained=%d", n, rate, inc, tempo, int(constrain));
    V bp(n + s.i(0, 3), 33.0), te(s.i(0, 1), -1.0); size_t te0 = te.size(); V in = d;
    if (custom) t.calculateBeatPeriod(d, bp, te, tempo, constrain); else t.calculateBeatPeriod(d, bp, te);
    sameBits("detection function", d, in);
    PeriodModel pm(d, tempo, constrain); int T = int(pm.rcf.size());
    if (T < 2) { REQUIRE(te.size() == te0, "tempi from an input of %d points", n); for (double x : bp) REQUIRE(x == 33.0, "periods changed by an input of %d points", n); continue; }
    std::vector<int> path(T); for (int q = 0; q < T; ++q) path[q] = int(bp[q * 128]);
    REQUIRE(te.size() == te0 + bp.size(), "%zu tempi for %zu points", te.size() - te0, bp.size());
    for (size_t i = 0; i < bp.size(); ++i) {
        double w = path[std::min(int(i) / 128, T - 1)];
        REQUIRE(bp[i] == w, "period at %zu is %g, at the start of its hop %g", i, bp[i], w);
        REQUIRE(bp[i] >= 20 && bp[i] < 108, "period %g at %zu", bp[i], i);
        double want = 60.0 * rate / inc / w; REQUIRE(close(te[te0 + i], want, 1e-5 * want), "tempo at %zu is %.9g for period %g, expected %.9g", i, te[te0 + i], w, want);
    }
    double got = pm.score(path), best = pm.best();
    REQUIRE(got >= best - 1e-6 * (1 + std::fabs(best)), "path score %.12g, best %.12g", got, best);
    s.nontrivial();
    }
}
SUB(C25, beat_chain, 600, "two or more beats; start point, every link and the end of the chain against the recursion") {
    TempoTrackV2 t(44100, 512); int calls = s.hist(1, 2, 1, 40, 100);
    for (int call = 0; call < calls; ++call) {
    int n = s.chance(4) ? s.i(0, 120) : s.i(1, calls > 2 ? 300 : s.chance(4) ? 2500 : 600); V d = detFn(s, n); Rng r(s.seed());
    if (s.b()) for (auto &x : d) x += 1e-3 * r.uni();
    int style = s.i(0, 3); V bp(n + s.i(0, 2)); double p0 = s.pick<double>({43, 20, 107, 1, 2, 5, 60});
    if (style == 1) p0 = s.uni(1, 110);
    for (size_t i = 0; i < bp.size(); ++i) bp[i] = style == 2 ? std::floor(20 + 60 * std::fabs(std::sin(i / 300.0))) : style == 3 ? std::max(1.0, p0 + int(i / 128) % 5) : p0;
    double alpha = s.chance(2) ? 0.9 : s.pick<double>({0.5, 0.99, 0, 1, 0.1}), tight = s.chance(2) ? 4 : s.pick<double>({0.5, 10, 1, 0});
    bool deflt = alpha == 0.9 && tight == 4 && s.b(); s.note("n=%d periods style %d from %g alpha=%g tightness=%g", n, style, p0, alpha, tight);
    V beats(s.i(0, 1), -1.0); size_t b0 = beats.size(); V in = d, bin = bp;
    if (deflt) t.calculateBeats(d, bp, beats); else t.calculateBeats(d, bp, beats, alpha, tight);
    sameBits("detection function", d, in); sameBits("periods", bp, bin);
    if (n == 0 || bp.empty()) { REQUIRE(beats.size() == b0, "%zu beats from nothing", beats.size() - b0); continue; }
    V B(beats.begin() + b0, beats.end()); REQUIRE(!B.empty(), "no beats from %d points", n);
    V cum(n); double mx = maxabs(d) + 1e-300;
    auto weight = [&](int i, int q) { double mu = bp[i]; double x = (i - q) ; (void)x; int j = q - (i + int(-2 * mu)); return std::exp(-0.5 * std::pow(tight * std::log((std::round(2 * mu) - j) / mu), 2)); };
    auto lo = [&](int i) { return i + int(-2 * bp[i]); }; auto hi = [&](int i) { return i + int(std::round(-0.5 * bp[i])); };
    for (int i = 0; i < n; ++i) { double v = 0; for (int q = std::max(0, lo(i)); q <= hi(i); ++q) v = std::max(v, weight(i, q) * cum[q]); cum[i] = alpha * v + (1 - alpha) * d[i]; }
    double tol = 1e-9 * mx;
    for (size_t k = 0; k < B.size(); ++k) { REQUIRE(B[k] == std::floor(B[k]) && B[k] >= 0 && B[k] < n, "beat %zu is %.17g, for %d points", k, B[k], n); if (k) REQUIRE(B[k] > B[k - 1], "beat %zu at %g follows one at %g", k, B[k], B[k - 1]); }
    int last = int(B.back()), from = int(n - bp.back()); if (from < 0) from = 0; if (from >= n) from = n - 1;
    REQUIRE(last >= from, "last beat %d lies before the final beat period (from %d)", last, from);
    for (int i = from; i < n; ++i) REQUIRE(cum[last] >= cum[i] - tol, "last beat %d has score %.9g, point %d has %.9g", last, cum[last], i, cum[i]);
    for (size_t k = B.size(); k-- > 0;) {
        int i = int(B[k]); double best = 0; for (int q = std::max(0, lo(i)); q <= hi(i); ++q) best = std::max(best, weight(i, q) * cum[q]);
        if (k > 0) {
            int q = int(B[k - 1]); REQUIRE(q >= lo(i) && q <= hi(i), "beat %d follows %d, outside half to two periods of %g", i, q, bp[i]);
            REQUIRE(weight(i, q) * cum[q] >= best - tol, "beat %d follows %d with %.9g, the best predecessor has %.9g", i, q, weight(i, q) * cum[q], best);
        } else {
            // the chain may only end where no better predecessor than the very first point exists
            double later = 0; for (int q = std::max(1, lo(i)); q <= hi(i); ++q) later = std::max(later, weight(i, q) * cum[q]);
            double first = lo(i) <= 0 && hi(i) >= 0 ? weight(i, 0) * cum[0] : 0;
            REQUIRE(later <= first + tol || lo(i) <= 0 && later <= tol, "chain ends at %d although a predecessor scores %.9g", i, later);
        }
    }
    s.nontrivial(B.size() > 1);
    }
}
SUB(C25, periodic, 100, "a pulse train through both stages") {
    int P = s.i(28, 100), n = s.i(1200, 3000), off = s.i(0, P - 1); double lv = s.pick<double>({1, 30, 0.05}); Rng r(s.seed()); double noise = s.pick<double>({0, 0.01});
    V d(n, 0.0); for (auto &x : d) x = lv * noise * r.uni(); for (int i = off; i < n; i += P) d[i] = lv;
    s.note("period %d offset %d n=%d level %g noise %g", P, off, n, lv, noise);
    TempoTrackV2 t(44100, 512); V bp(n, 0.0), te, b; t.calculateBeatPeriod(d, bp, te); t.calculateBeats(d, bp, b);
    double ratio = bp[n / 2] / P; bool fits = false; for (double k : {1.0, 2.0, 0.5, 3.0, 1 / 3.0}) fits |= std::fabs(ratio - k) * P <= 2.01;
    REQUIRE(fits, "beat period %g for pulses every %d", bp[n / 2], P);
    int on = 0, tot = 0; for (double x : b) if (x > 2 * P && x < n - 2 * P) { ++tot; int ph = ((int(x) - off) % P + P) % P; ph = std::min(ph, P - ph); if (ph <= 1) ++on; }
    if (ratio > 0.9) REQUIRE(tot >= 3 && on * 10 >= tot * 9, "%d of %d beats lie on the pulses (period %d, tracked %g)", on, tot, P, bp[n / 2]);
    s.nontrivial(ratio > 0.9);
}

// ------------------------------------------------------------------ C26
SUB(C26, downbeats, 120, "four or more beats inside the audio; every spectral difference and the choice of bar phase") {
    int factor = s.pick<int>({16, 1, 2, 4, 8, 32, 64}), inc = factor * s.i(1, 16); float rate = float(s.pick<int>({44100, 22050, 48000, 8000})) ; 
    while (rate / factor > 6000) rate /= 2;
    int n = s.chance(8) ? s.i(0, 60) : s.i(200, 12000); V a = signal(s, n); std::vector<float> fa(a.begin(), a.end());
    if (s.b()) { Rng r(s.seed()); int seg = s.i(50, 900); double w = 0.1; for (int i = 0; i < n; ++i) { if (i % seg == 0) w = r.uni() * 3; fa[i] = float(0.5 * std::sin(w * i) + 0.1 * fa[i]); } s.note("segments of %d with their own frequencies", seg); }
    int bpb = s.chance(30) ? s.i(10, 200) : s.i(0, 9); DownBeat db(rate, factor, inc); if (bpb) db.setBeatsPerBar(bpb); int bar = bpb ? bpb : 4; bool any = false;
    int N = 1; while (N < int(rate / factor * 1.3)) N <<= 1; if (N < 2) N = 2; int spec = std::min(512, N / 8);
    int rounds = s.hist(1, 1, 30.0 * N, 10, 60, 3e6);
    for (int round = 0; round < rounds; ++round) {
    if (round) { if (s.chance(4)) { bpb = bar = s.i(1, 9); db.setBeatsPerBar(bar); } n = s.i(1, 600); Rng r(s.seed()); fa.resize(n); double w = r.uni() * 3; for (int i = 0; i < n; ++i) { if (r.i(0, 99) == 0) w = r.uni() * 3; fa[i] = float(0.5 * std::sin(w * i) + 0.1 * r.sym()); } }
    int nb = round ? s.i(0, 6) : s.sz(0, 24); V beats; double at = s.uni(0, 20); double step = s.uni(1, double(n) * factor / inc / 6 + 2);
    for (int i = 0; i < nb; ++i) { beats.push_back(s.b() ? std::floor(at) : at); at += s.chance(12) ? 0 : step * s.uni(0.7, 1.3); }
    for (size_t i = 1; i < beats.size(); ++i) beats[i] = std::max(beats[i], beats[i - 1]);
    s.note("rate=%g factor=%d increment=%d n=%d beats per bar %d", rate, factor, inc, n, bpb); s.notev("beats", beats);
    Buf<float> au(fa); std::vector<int> out(s.i(0, 1), -9); size_t o0 = out.size(); 
    if (s.chance(4)) { std::vector<int> junk; V jb(3, 0.0); jb[1] = 2; jb[2] = 3; Buf<float> ja(s.i(50, 400), 0.25f); for (size_t i = 0; i < ja.size(); i += 3) ja[i] = -0.5f; int jbar = s.i(1, 6); db.setBeatsPerBar(jbar); db.findDownBeats(ja, ja.size(), jb, junk); db.setBeatsPerBar(bar); s.note("after %zu samples of other audio", ja.size()); }
    db.findDownBeats(au, n, beats, out); V sd; db.getBeatSD(sd);
    for (int i = 0; i < n; ++i) REQUIRE(au[i] == fa[i], "audio modified");
    std::vector<int> got(out.begin() + o0, out.end());
    if (n == 0) { REQUIRE(got.empty() && sd.empty(), "downbeats from no audio"); continue; }
    size_t nsd = beats.size() >= 2 ? beats.size() - 2 : 0;
    REQUIRE(sd.size() == nsd, "%zu spectral differences for %zu beats", sd.size(), beats.size());
    V prev; bool prevOk = false;
    for (size_t i = 0; i + 1 < beats.size(); ++i) {
        size_t st = size_t(beats[i] * inc) / 1; st = size_t((beats[i] * inc) / factor); size_t en = size_t((beats[i + 1] * inc) / factor); if (en >= size_t(n)) en = n - 1; if (en < st) en = st;
        size_t len = en - st; V re(N, 0.0), im(N, 0.0); for (size_t j = 0; j < len && j < size_t(N); ++j) re[j] = fa[st + j] * 0.5 * (1 - std::cos(2 * M_PI * j / len));
        ref::fft2(re, im, false); V mag(N / 2); for (int j = 0; j < N / 2; ++j) mag[j] = std::hypot(re[j], im[j]);
        double mm = maxabs(mag); V th = thresholded(mag); double tot = 0; for (int j = 0; j < spec; ++j) tot += th[j];
        bool ok = mm == 0 || tot > 1e-7 * mm + 1e-9;      // otherwise rounding residue decides
        if (i > 0 && ok && prevOk) {
            V p(spec), q(spec); double sp = 0, sq = 0; for (int j = 0; j < spec; ++j) { p[j] = prev[j] + 2.2204e-16; q[j] = th[j] + 2.2204e-16; sp += p[j]; sq += q[j]; }
            double v = 0; for (int j = 0; j < spec; ++j) { double x = p[j] / sp, y = q[j] / sq, m = (x + y) / 2; v += -m * std::log(m) + 0.5 * x * std::log(x) + 0.5 * y * std::log(y); }
            REQUIRE(close(sd[i - 1], v, 1e-5), "spectral difference %zu is %.9g, expected %.9g", i - 1, sd[i - 1], v);
        }
        if (i > 0) REQUIRE(sd[i - 1] >= -1e-9 && sd[i - 1] <= std::log(2.0) + 1e-9, "spectral difference %zu is %.9g", i - 1, sd[i - 1]);
        prev = th; prevOk = ok;
    }
    V mean(bar, 0.0); for (int b = 0; b < bar; ++b) { int c = 0; for (int k = b - 1; k < int(nsd); k += bar) if (k >= 0) { mean[b] += sd[k]; ++c; } if (c) mean[b] /= c; }
    double best = *std::max_element(mean.begin(), mean.end());
    if (got.empty()) { bool may = beats.empty(); for (int b = int(beats.size()); b < bar; ++b) may |= mean[b] >= best - 1e-12; REQUIRE(may, "no downbeats among %zu beats", beats.size()); continue; }
    REQUIRE(got[0] >= 0 && got[0] < bar && mean[got[0]] >= best - 1e-12, "first downbeat %d, whose mean difference is %.9g, the best being %.9g", got[0], got[0] < bar && got[0] >= 0 ? mean[got[0]] : -1.0, best);
    if (s.chance(6)) { std::vector<int> none; V left; DownBeat e(rate, factor, inc); e.findDownBeats(au, n, beats, none); none.clear(); e.findDownBeats(au, 0, beats, none); e.getBeatSD(left); REQUIRE(none.empty() && left.empty(), "no audio gives %zu downbeats and leaves %zu spectral differences of earlier audio", none.size(), left.size()); }
    size_t k = 0; for (int i = got[0]; i < int(beats.size()); i += bar, ++k) REQUIRE(k < got.size() && got[k] == i, "downbeat %zu of %zu, expected beat %d", k, got.size(), i);
    REQUIRE(k == got.size(), "%zu downbeats, expected %zu", got.size(), k);
    any |= nsd >= 2 && bar > 1;
    }
    s.nontrivial(any);
}
SUB(C26, buffering, 300, "two or more blocks; pushed audio against the decimators applied to the same stream, over clears") {
    int factor = s.pick<int>({16, 1, 2, 4, 8, 32, 64}), inc = factor * s.i(1, factor > 16 ? 4 : 20); DownBeat db(44100.f / 32, factor, inc);
    s.note("factor %d increment %d", factor, inc); int rounds = s.hist(1, 3, 2e4, 12, 80); std::vector<float> all;
    Decimator *d1 = 0, *d2 = 0; std::vector<float> tmp;
    struct Del { Decimator *&a, *&b; ~Del() { delete a; delete b; } } del{d1, d2};
    for (int r = 0; r < rounds; ++r) {
        size_t len = 77; const float *p = db.getBufferedAudio(len); REQUIRE(len == 0, "%zu samples buffered before any block", len);
        int blocks = rounds > 3 ? s.i(0, 20) : s.chance(3) ? s.i(17, 300) : s.sz(0, 40); if (inc * blocks > 60000) blocks = 60000 / inc; std::vector<float> want, fresh;
        if (factor > 1 && !d1) { d1 = new Decimator(inc, std::min(factor, 8)); if (factor > 8) d2 = new Decimator(inc / 8, factor / 8); }
        Decimator *f1 = 0, *f2 = 0; Del del2{f1, f2}; if (factor > 1) { f1 = new Decimator(inc, std::min(factor, 8)); if (factor > 8) f2 = new Decimator(inc / 8, factor / 8); }
        V sig = signal(s, blocks * inc); s.note("%d blocks", blocks);
        for (int b = 0; b < blocks; ++b) {
            Buf<float> x(inc); for (int i = 0; i < inc; ++i) x[i] = float(sig[b * inc + i]);
            auto run = [&](Decimator *p1, Decimator *p2, std::vector<float> &to) {
                if (factor == 1) { for (int i = 0; i < inc; ++i) to.push_back(x[i]); return; }
                Buf<float> m(inc / p1->getFactor()), o(inc / factor); p1->process(x, m); if (p2) p2->process(m, o); else for (size_t i = 0; i < m.size(); ++i) o[i] = m[i];
                for (size_t i = 0; i < o.size(); ++i) to.push_back(o[i]); };
            run(d1, d2, want); run(f1, f2, fresh);
            db.pushAudioBlock(x); for (int i = 0; i < inc; ++i) REQUIRE(x[i] == float(sig[b * inc + i]), "block modified");
            if (s.chance(9) || b == blocks - 1) {
                p = db.getBufferedAudio(len); REQUIRE(len == want.size(), "%zu samples buffered after %d blocks, expected %zu", len, b + 1, want.size());
                bool okA = true, okB = true; size_t bad = 0; for (size_t i = 0; i < len; ++i) { if (std::fabs(p[i] - want[i]) > 1e-5) { if (okA) bad = i; okA = false; } if (std::fabs(p[i] - fresh[i]) > 1e-5) okB = false; }
                REQUIRE(okA || okB, "buffered sample %zu is %g, expected %g", bad, p[bad], want[bad]);
            }
        }
        s.nontrivial(blocks > 1);
        db.resetAudioBuffer(); s.note("clear");
    }
}
