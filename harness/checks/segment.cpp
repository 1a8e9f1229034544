// C32 histogram clustering, C33 segmentation
#include "pbt.hpp"
#include "detrand.hpp"
#include <set>
#include <sstream>
#include <memory>
#include "dsp/segmentation/cluster_melt.h"
#include "dsp/segmentation/cluster_segmenter.h"
#include "hmm/hmm.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/transforms/FFT.h"
#include "dsp/rateconversion/Decimator.h"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
namespace { struct Hush { int saved; Hush() { fflush(stderr); saved = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); } ~Hush() { dup2(saved, 2); close(saved); } }; }
typedef std::vector<double> V; typedef std::vector<V> M;

struct Mat { std::vector<DBuf *> r; std::vector<double *> p; Mat(int n, int m, double f = -77) { for (int i = 0; i < n; ++i) { r.push_back(new DBuf(m, f)); p.push_back(r.back()->p); } if (!n) p.push_back(nullptr); }
    explicit Mat(const M &x) { for (auto &row : x) { r.push_back(new DBuf(row)); p.push_back(r.back()->p); } if (x.empty()) p.push_back(nullptr); }
    Mat(const Mat &) = delete; ~Mat() { for (auto *q : r) delete q; } operator double **() { return p.data(); } M get() const { M o; for (auto *q : r) o.push_back(q->vec()); return o; } };

// ------------------------------------------------------------------ C32
static std::vector<int> states(Src &s, int n, int m) { std::vector<int> x(n); Rng r(s.seed()); int kind = s.i(0, 2), cur = 0; for (auto &v : x) { if (kind == 0 || (kind == 1 && r.uni() < 0.15) || (kind == 2 && r.uni() < 0.02)) cur = r.i(0, m - 1); v = cur; } s.notev("states", x); return x; }
static V refHist(const std::vector<int> &x, int m, int hlen) { int n = int(x.size()), h2 = hlen / 2; V h(n * m, 0.0); for (int i = 0; i < n; ++i) { int c = std::min(std::max(i, h2), n - h2 - 1); V k(m, 0.0); for (int t = c - h2; t <= c + h2; ++t) ++k[x[t]]; double q = 0; for (double v : k) q += v * v; for (int j = 0; j < m; ++j) h[i * m + j] = k[j] / q; } return h; }
SUB(C32, histograms, 2000, "two or more states occurring, with a window of three or more") {
    int m = s.szl(1, 40, 40, 300), hlen = 2 * s.szl(0, 10, 40, 120) + 1, n = hlen + (s.chance(3) ? s.i(0, 2) : s.szl(0, 100, 40, 2000)); std::vector<int> x = states(s, n, m); Buf<int> xb(x); DBuf h(size_t(n) * m, -7.0); create_histograms(xb, n, m, hlen, h);
    REQUIRE(xb.vec() == x, "states modified"); s.note("m=%d window=%d n=%d", m, hlen, n); V w = refHist(x, m, hlen); same("histograms", h.vec(), w, 1e-12); bool var = false; for (int v : x) var |= v != x[0]; s.nontrivial(var && hlen > 1);
}
SUB(C32, fold, 1500, "one or more complete octaves with values that differ") {
    int bins = s.sz(1, 24), n = s.szl(0, 12, 40, 300), nc = s.b() ? bins * s.i(0, 8) + s.i(0, bins - 1) : s.sz(1, 100); s.note("bins=%d coefficients=%d", bins, nc); M x(n); double scale = s.chance(3) ? std::pow(10.0, s.i(-14, 6)) : 1; for (auto &r : x) { r = values(s, nc, 10, "row"); for (auto &v : r) v *= scale; } s.note("scale %g", scale); Mat c(x), o(n, bins); cq2chroma(c, n, nc, bins, o);
    for (int t = 0; t < n; ++t) { sameBits("constant-Q", c.r[t]->vec(), x[t]); for (int b = 0; b < bins; ++b) { double w = 0; for (int k = b; k < nc / bins * bins; k += bins) w += std::fabs(x[t][k]); REQUIRE(close((*o.r[t])[b], w, 1e-12 * w + 1e-300), "chroma %d of frame %d is %.12g, expected %.12g", b, t, (*o.r[t])[b], w); } }
    s.nontrivial(n > 0 && nc >= bins);
}
SUB(C32, mpeg7, 1500, "two or more frames of different level") {
    int n = s.szl(1, 20, 40, 500), nc = s.szl(1, 60, 60, 400); M x(n); bool var = false; for (auto &r : x) { r = values(s, nc, s.pick<double>({1, 1e-3, 1e4}), "row"); if (s.chance(6)) r.assign(nc, 0.0); for (auto &v : r) v = std::fabs(v); var |= r != x[0]; r.push_back(123); }
    M y = x; double mx = 0; for (auto &r : y) { double q = 0; for (int j = 0; j < nc; ++j) { r[j] = 10 * std::log10(r[j] + 2.2204460492503131e-16); q += r[j] * r[j]; } q = std::sqrt(q); if (q < 1e-3) return; for (int j = 0; j < nc; ++j) r[j] /= q; r[nc] = q; mx = std::max(mx, q); } for (auto &r : y) r[nc] /= mx;
    Mat f(x); mpeg7_constq(f, n, nc); for (int t = 0; t < n; ++t) { V g = f.r[t]->vec(); same("normalised frame", g, y[t], 1e-9); double q = 0; for (int j = 0; j < nc; ++j) q += g[j] * g[j]; REQUIRE(close(q, 1, 1e-9), "frame %d has squared norm %.12g", t, q); REQUIRE(g[nc] <= 1 + 1e-12 && g[nc] > 0, "envelope %.12g", g[nc]); }
    s.nontrivial(n > 1 && var);
}
// the annealed soft clustering with neighbourhood duration prior
template <typename R> static std::vector<int> refMelt(const V &h, int m, int n, const V &sched, int k, int limit, uint64_t seed, double jitter, bool *near = nullptr) {
    detrand(seed); std::vector<std::vector<R>> cl(k, std::vector<R>(m)); for (auto &c : cl) { R q = 0; for (auto &v : c) { v = rand(); q += v * v; } q = std::sqrt(q); for (auto &v : c) v /= q; }
    Rng r(9); V hh = h; for (auto &v : hh) v *= 1 + jitter * r.sym();
    std::vector<int> c(n, 1); std::vector<std::vector<R>> lp(n, std::vector<R>(k)); if (limit <= 0) limit = 20; const R lambda = R(0.02);
    for (size_t a = 0; a < sched.size(); ++a) for (int it = 0; it < (a ? 5 : 20); ++it) {
        std::vector<int> old = c;
        for (int i = 0; i < n; ++i) { R sum = 0; for (int j = 0; j < k; ++j) { R d = 0; for (int b = 0; b < m; ++b) { R p = cl[j][b], q = hh[i * m + b], mid = (p + q) / 2; if (mid > 0) { if (p > 0) d += p * std::log(p / mid); if (q > 0) d += q * std::log(q / mid); } } lp[i][j] = -R(sched[a]) * d; sum += std::exp(lp[i][j]); }
            int b0 = std::max(0, i - limit), b1 = std::min(n - 1, i + limit); for (int j = 0; j < k; ++j) { int other = 0; for (int b = b0; b <= b1; ++b) if (old[b] != j + 1) ++other; lp[i][j] -= std::log(sum) + lambda * other; } }
        for (int i = 0; i < n; ++i) { int best = 0; for (int j = 1; j < k; ++j) if (lp[i][j] > lp[i][best]) best = j; c[i] = best + 1; if (near) for (int j = 0; j < k; ++j) if (j != best && !(lp[i][best] - lp[i][j] > R(1e-8) * (1 + std::fabs(lp[i][best])))) *near = true; }
        if (c == old) break;
        for (int j = 0; j < k; ++j) { R t = 0; std::fill(cl[j].begin(), cl[j].end(), R(0)); for (int i = 0; i < n; ++i) { R e = std::exp(lp[i][j]); t += e; for (int b = 0; b < m; ++b) cl[j][b] += e * R(hh[i * m + b]); } for (auto &v : cl[j]) v /= t; }
    }
    return c;
}
SUB(C32, clusters, 250, "two or more clusters and histograms of two or more states; labels against the annealing procedure wherever rounding does not decide") {
    int m = s.szl(1, 12, 20, 40), hlen = 2 * s.i(0, 4) + 1, n = hlen + s.szl(0, 80, 30, 300), k = s.szl(1, 6, 20, 12), limit = s.chance(4) ? 0 : s.szl(1, 25, 10, 400), t = s.chance(3) ? s.i(1, 20) : 20; std::vector<int> x = states(s, n, m); V h = refHist(x, m, hlen); V sched(t); double b0 = s.pick<double>({100, 10, 1}), al = s.pick<double>({0.7, 0.9}); for (int i = 0; i < t; ++i) sched[i] = i ? al * sched[i - 1] : b0;
    if (s.chance(5)) { Rng r(s.seed()); for (auto &v : h) v = r.uni() < 0.3 ? 0 : r.uni(); }
    s.note("m=%d n=%d clusters=%d limit=%d schedule %g * %g^%d", m, n, k, limit, b0, al, t); uint64_t seed = s.seed(); detrand(seed); DBuf hb(h), sb(sched); Buf<int> c(n, -7); cluster_melt(hb, m, n, sb, t, k, limit, c);
    sameBits("histograms", hb.vec(), h); sameBits("schedule", sb.vec(), sched); for (int i = 0; i < n; ++i) REQUIRE(c[i] >= 1 && c[i] <= k, "label %d at %d of %d with %d clusters", c[i], i, n, k);
    bool near = false; std::vector<int> r1 = refMelt<double>(h, m, n, sched, k, limit, seed, 0, &near), r2 = refMelt<double>(h, m, n, sched, k, limit, seed, 1e-11), r3 = refMelt<long double>(h, m, n, sched, k, limit, seed, 1e-11);
    if (near || r1 != r2 || r1 != r3) return; for (int i = 0; i < n; ++i) REQUIRE(c[i] == r1[i], "label at %d of %d is %d, expected %d", i, n, c[i], r1[i]); s.nontrivial(k > 1 && m > 1);
}

// ------------------------------------------------------------------ C33
static M features(Src &s, int n, int dim) { int kind = s.i(0, 4); Rng r(s.seed()); int ns = r.i(1, 5), seg = std::max(1, n / ns); M cen(ns, V(dim)), f(n, V(dim)); for (auto &c : cen) for (auto &v : c) v = r.gauss(); for (int i = 0; i < n; ++i) for (int d = 0; d < dim; ++d) f[i][d] = kind == 0 ? 0.3 : kind == 1 ? r.gauss() : cen[i / seg % ns][d] + (kind == 2 ? 0.05 : kind == 3 ? 0 : 0.5) * r.gauss(); s.note("features n=%d dim=%d kind=%d", n, dim, kind); return f; }
// the whole pipeline from its parts: features times ten, training, decoding, histograms, clustering by the fixed schedule
static std::vector<int> refPipeline(const M &f, int st, int hl, int k, int lim, uint64_t seed, uint64_t jitter, std::vector<int> &path) {
    int n = int(f.size()), dim = int(f[0].size()); M x = f; Rng r(jitter); for (auto &v : x) for (auto &e : v) { e *= 10; if (jitter) e *= 1 + 1e-11 * r.sym(); }
    Mat a(x); detrand(seed); model_t *m = hmm_init(a, n, dim, st); hmm_train(a, n, m); Buf<int> q(n, -7); viterbi_decode(a, n, m, q); hmm_close(m); path = q.vec();
    DBuf h(refHist(path, st, hl)); V sched(20, 100.0); for (int i = 1; i < 20; ++i) sched[i] = 0.7 * sched[i - 1]; DBuf sb(sched); Buf<int> c(n, -7); cluster_melt(h, st, n, sb, 20, k, lim, c); return c.vec();
}
SUB(C32, pipeline, 120, "two or more labels occurring; labels of features against training, decoding, histograms and clustering one after another, wherever rounding does not decide") {
    int dim = s.i(1, 5), st = s.szl(2, 8, 15, 40), hl = 2 * s.i(0, 5) + 1, n = hl + (s.chance(4) ? s.i(0, 10) : s.i(10, s.chance(8) ? 250 : 110)), k = s.szl(2, 6, 20, 12), lim = s.chance(4) ? 0 : s.chance(10) ? s.i(26, 200) : s.i(1, 25); M f = features(s, n, dim); s.note("states=%d histogram=%d clusters=%d limit=%d", st, hl, k, lim);
    uint64_t seed = s.seed(); Mat a(f); Buf<int> q(n, -7); detrand(seed); cluster_segment(q, a, n, dim, st, hl, k, lim); for (int i = 0; i < n; ++i) REQUIRE(q[i] >= 1 && q[i] <= k, "label %d at %d of %d with %d clusters", q[i], i, n, k);
    std::vector<int> p0, p1, p2, r0 = refPipeline(f, st, hl, k, lim, seed, 0, p0), r1 = refPipeline(f, st, hl, k, lim, seed, 5, p1), r2 = refPipeline(f, st, hl, k, lim, seed, 6, p2); if (p0 != p1 || p0 != p2 || r0 != r1 || r0 != r2) return;
    for (int i = 0; i < n; ++i) REQUIRE(q[i] == r0[i], "label at %d of %d is %d, expected %d", i, n, q[i], r0[i]); std::set<int> types(r0.begin(), r0.end()); s.nontrivial(types.size() > 1);
}
static void tiles(const Segmentation &g, int n, int hop, int k, int rate) {
    const std::vector<Segment> &v = g.segments; REQUIRE(!v.empty(), "no segments for %d frames", n); REQUIRE(g.nsegtypes == k, "%d segment types announced, %d requested", g.nsegtypes, k); REQUIRE(g.samplerate == rate, "sample rate %d, expected %d", g.samplerate, rate);
    REQUIRE(v.front().start == 0, "the first segment starts at %d", v.front().start); REQUIRE(v.back().end == n * hop, "the last segment ends at %d, expected %d * %d", v.back().end, n, hop);
    for (size_t i = 0; i < v.size(); ++i) { REQUIRE(v[i].end > v[i].start, "segment %zu from %d to %d", i, v[i].start, v[i].end); REQUIRE(v[i].start % hop == 0 && v[i].end % hop == 0, "segment %zu from %d to %d, hop %d", i, v[i].start, v[i].end, hop); REQUIRE(v[i].type >= 1 && v[i].type <= k, "segment %zu has type %d of %d", i, v[i].type, k);
        if (i) { REQUIRE(v[i].start == v[i - 1].end, "segment %zu starts at %d, the one before ends at %d", i, v[i].start, v[i - 1].end); REQUIRE(v[i].type != v[i - 1].type, "segments %zu and %zu are both of type %d", i - 1, i, v[i].type); } }
}
static std::vector<int> labels(const Segmentation &g, int hop) { std::vector<int> q; for (auto &x : g.segments) for (int i = x.start; i < x.end; i += hop) q.push_back(x.type); return q; }
static ClusterMeltSegmenterParams params(Src &s) { ClusterMeltSegmenterParams p; p.nHMMStates = s.i(1, 12); p.nclusters = s.szl(1, 6, 25, 40); p.histogramLength = 2 * s.i(0, 5) + 1; p.neighbourhoodLimit = s.szl(1, 20, 15, 200); if (s.chance(8)) { ClusterMeltSegmenterParams d; p.nHMMStates = d.nHMMStates; p.nclusters = d.nclusters; p.histogramLength = d.histogramLength; p.neighbourhoodLimit = d.neighbourhoodLimit; } p.hopSize = s.pick<double>({0.2, 0.1, 0.05, 0.0464}); p.windowSize = s.pick<double>({0.6, 0.2, 0.1, 0.5, 1.0}); s.note("states=%d clusters=%d histogram=%d limit=%d hop=%g window=%g", p.nHMMStates, p.nclusters, p.histogramLength, p.neighbourhoodLimit, p.hopSize, p.windowSize); return p; }
struct Extract {       // the documented extraction: decimate, half-overlapping frames, average
    std::unique_ptr<Decimator> dec; std::unique_ptr<ConstantQ> cq; std::unique_ptr<MFCC> mf; int factor, nc, fft, win;
    Extract(const ClusterMeltSegmenterParams &p, int rate, int win_) : win(win_) {
        bool m = p.featureType == FEATURE_TYPE_MFCC; int want = rate / (m ? 22050 : 11025); factor = 1; while (factor < want) factor *= 2; factor = std::min(factor, 8); if (factor > 1) dec.reset(new Decimator(win, factor));
        if (m) { MFCCConfig c(rate / factor); c.fftsize = 2048; c.nceps = 19; c.want_c0 = true; mf.reset(new MFCC(c)); nc = 20; fft = 2048; } else { CQConfig c; c.FS = rate / factor; c.min = p.fmin; c.max = p.fmax; c.BPO = p.nbins; c.CQThresh = 0.0054; cq.reset(new ConstantQ(c)); cq->sparsekernel(); nc = cq->getK(); fft = cq->getFFTLength(); }
    }
    V frame(const V &x) {
        V d = x; if (dec) { if (int(x.size()) != win) fail("harness: long frame with decimation"); d.assign(win / factor, 0.0); dec->process(x.data(), d.data()); } int n = int(d.size()), frames = 0; V acc(nc, 0.0), f(fft), re(fft), im(fft), a(nc), b(nc); Window<double> w(HammingWindow, fft); FFTReal T(fft);
        for (int o = 0; o == 0 || o + fft < n; o += fft / 2) { for (int i = 0; i < fft; ++i) f[i] = o + i < n ? d[o + i] : 0; if (mf) { mf->process(f.data(), a.data()); for (int i = 0; i < nc; ++i) acc[i] += a[i]; } else { for (int i = 0; i < fft / 2; ++i) std::swap(f[i], f[i + fft / 2]); w.cut(f.data()); T.forward(f.data(), re.data(), im.data()); cq->process(re.data(), im.data(), a.data(), b.data()); for (int i = 0; i < nc; ++i) acc[i] += std::sqrt(a[i] * a[i] + b[i] * b[i]); } ++frames; }
        for (auto &v : acc) v /= frames; return acc;
    }
};
SUB(C33, given_features, 150, "enough frames for a segmentation of two or more types; histories of setting features and segmenting") {
    ClusterMeltSegmenterParams p = params(s); p.featureType = s.pick<feature_types>({FEATURE_TYPE_MFCC, FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA}); int rate = s.pick<int>({11025, 44100, 8000}); int calls = s.hist(1, 2, 1, 15, 90); if (calls > 2) p.nHMMStates = std::min(p.nHMMStates, 4); ClusterMeltSegmenter seg(p); seg.initialise(rate); int hop = seg.getHopsize(); REQUIRE(hop == int(p.hopSize * rate + 0.001), "hop %d", hop); REQUIRE(seg.getWindowsize() == int(p.windowSize * rate + 0.001), "window %d", seg.getWindowsize());
    int k = p.nclusters; bool any = false;

    for (int c = 0; c < calls; ++c) {
        int dim = s.chance(4) ? s.pick<int>({20, 21, Extract(p, rate, seg.getWindowsize()).nc}) : s.i(1, 6), n = s.chance(4) ? s.i(0, p.histogramLength) : p.histogramLength + (calls > 2 ? s.i(0, 12) : s.szl(0, 60, 15, 300)); if (double(n) * p.nHMMStates * dim * dim > 3e6) { n = std::min(n, p.histogramLength + 8); if (double(n) * p.nHMMStates * dim * dim > 6e6) dim = 1 + dim % 6; } M f = features(s, n, dim); seg.setFeatures(f); uint64_t seed = s.seed(); std::vector<Segment> before = seg.getSegmentation().segments; detrand(seed); if (s.b()) { k = s.szl(1, 6, 25, 40); seg.segment(k); } else seg.segment(); REQUIRE(seg.getNSegmentTypes() == k, "%d segment types, expected %d", seg.getNSegmentTypes(), k);
        if (n < p.histogramLength) { REQUIRE(seg.getSegmentation().segments.size() == before.size(), "a segmentation appeared from %d frames, %d needed", n, p.histogramLength); continue; }
        tiles(seg.getSegmentation(), n, hop, k, rate); Mat m(f); Buf<int> q(n, -7); detrand(seed); cluster_segment(q, m, n, dim, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit); REQUIRE(labels(seg.getSegmentation(), hop) == q.vec(), "the segments differ from the frames' cluster assignments"); any |= k > 1;
        std::ostringstream os; os << seg.getSegmentation(); std::string t = os.str(), head; std::istringstream is(t); std::getline(is, head); for (auto &g : seg.getSegmentation().segments) { std::string line; REQUIRE(bool(std::getline(is, line)), "the listing has too few lines"); char w[200]; snprintf(w, sizeof w, "%d:\t%.6f\t%.6f", g.type, g.start / double(rate), g.end / double(rate)); REQUIRE(line == w, "listing line '%s', expected '%s'", line.c_str(), w); }
    }
    s.nontrivial(any);
}
// read the features where the class lets its subclasses
struct Probe : ClusterMeltSegmenter { Probe(ClusterMeltSegmenterParams p) : ClusterMeltSegmenter(p) { } template <typename T> static auto get(T *t, int) -> decltype(t->features, (const M *)&t->features) { return &t->features; } static const M *get(void *, long) { return nullptr; } const M *feats() { return get(this, 0); } };
static void audioSegments(Src &s, Probe &seg, const ClusterMeltSegmenterParams &p, int rate, bool &nt) {
    int win = seg.getWindowsize(), hop = seg.getHopsize(), n = s.chance(6) ? s.i(0, p.histogramLength) : p.histogramLength + s.i(0, 25), k = seg.getNSegmentTypes(); Extract ex(p, rate, win); M feats; Rng r(s.seed()); int kind = s.i(0, 4), notes = r.i(1, 3); s.note("rate=%d frames=%d audio kind=%d", rate, n, kind); double fr[3]; for (auto &v : fr) v = 80 * std::pow(2.0, 4 * r.uni());
    for (int t = 0; t < n; ++t) {
        int len = ex.factor == 1 && s.chance(6) ? win + s.i(0, win) : win; DBuf x(len); double f = fr[t * notes / std::max(n, 1) % 3]; for (int i = 0; i < len; ++i) { double ph = 2 * M_PI * f * (t * double(hop) + i) / rate; x[i] = kind == 0 ? 0 : kind == 1 ? r.sym() : 0.5 * std::sin(ph) + 0.2 * std::sin(2 * ph) + (kind == 2 ? 0 : 0.05) * r.sym(); if (kind == 4 && t < n / 2) x[i] = 0; }
        V before = x.vec(); if (win > 1 && s.chance(12)) { Hush h; seg.extractFeatures(x, win - 1 - s.i(0, std::min(win - 1, 50))); s.note("short frame refused"); }
        seg.extractFeatures(x, len); sameBits("audio", x.vec(), before); feats.push_back(ex.frame(before));
    }
    if (const M *g = seg.feats()) { REQUIRE(g->size() == feats.size(), "%zu features for %zu frames", g->size(), feats.size()); for (size_t t = 0; t < feats.size(); ++t) same("feature", (*g)[t], feats[t], 1e-9 * (1 + maxabs(feats[t]))); feats = *g; }
    uint64_t seed = s.seed(); detrand(seed); seg.segment();
    if (n < p.histogramLength) return; tiles(seg.getSegmentation(), n, hop, k, rate);
    Buf<int> q(n, -7); detrand(seed);
    if (p.featureType == FEATURE_TYPE_MFCC) { Mat m(feats); cluster_segment(q, m, n, ex.nc, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit); }
    else { M e = feats; for (auto &v : e) v.push_back(0); Mat m(e); constq_segment(q, m, n, p.nbins, ex.nc, p.featureType, p.nHMMStates, p.histogramLength, k, p.neighbourhoodLimit); }
    if (seg.feats()) REQUIRE(labels(seg.getSegmentation(), hop) == q.vec(), "the segments differ from the frames' cluster assignments");
    nt |= kind > 0;
}
SUB(C33, audio, 40, "audio that is not silent, with enough frames; one or two pieces through one segmenter") {
    ClusterMeltSegmenterParams p = params(s); p.featureType = s.pick<feature_types>({FEATURE_TYPE_MFCC, FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA}); p.nHMMStates = s.i(1, 8); int rate = s.pick<int>({11025, 8000, 16000, 22050, 44100, 48000, 96000, 33075, 8192, 16384, 192000, 176400}); p.fmin = s.pick<int>({62, 100, 200}); p.nbins = s.pick<int>({8, 3, 12, 6}); p.fmax = s.pick<int>({16000, 2000, 600}); s.note("mode=%d fmin=%d fmax=%d bins=%d", p.featureType, p.fmin, p.fmax, p.nbins);
    Probe seg(p); int calls = s.i(1, 2); bool nt = false; if (s.chance(3)) { int other = s.chance(4) ? s.i(1, 12) : 1; s.note("initialised %d times before", other); while (other--) { seg.initialise(s.b() ? s.b() ? 8000 : 11025 : rate); if (s.chance(other ? 3 : 2)) { DBuf z(seg.getWindowsize(), 0.25); seg.extractFeatures(z, seg.getWindowsize()); seg.clear(); } if (s.chance(5)) seg.clear(); } } for (int c = 0; c < calls; ++c) { if (c && s.b()) rate = s.pick<int>({11025, 44100}); seg.initialise(rate); if (s.chance(4)) seg.initialise(rate); audioSegments(s, seg, p, rate, nt); if (seg.feats()) { if (!seg.feats()->empty()) seg.clear(); } }
    s.nontrivial(nt);
}
SUB(C33, defaults, 6, "audio through segmenters of which one leaves settings at their documented defaults") {
    ClusterMeltSegmenterParams d, e; e.featureType = FEATURE_TYPE_CONSTQ; e.hopSize = 0.2; e.windowSize = 0.6; e.fmin = 62; e.fmax = 16000; e.nbins = 8; e.ncomponents = 20; e.nHMMStates = 40; e.nclusters = 10; e.histogramLength = 15; e.neighbourhoodLimit = 20;
    if (!s.chance(3)) { d.nHMMStates = e.nHMMStates = s.i(1, 8); s.note("states %d", e.nHMMStates); } if (s.chance(4)) { d.featureType = e.featureType = s.pick<feature_types>({FEATURE_TYPE_MFCC, FEATURE_TYPE_CHROMA}); s.note("mode %d", e.featureType); }
    int rate = s.pick<int>({11025, 16000}); Probe a(d), b(e); a.initialise(rate); b.initialise(rate); REQUIRE(a.getWindowsize() == b.getWindowsize() && a.getHopsize() == b.getHopsize() && a.getNSegmentTypes() == b.getNSegmentTypes(), "window %d hop %d types %d by default, %d %d %d with the documented values", a.getWindowsize(), a.getHopsize(), a.getNSegmentTypes(), b.getWindowsize(), b.getHopsize(), b.getNSegmentTypes());
    int win = a.getWindowsize(), n = s.i(15, 40); Rng r(s.seed()); double f = 100; DBuf x(win); s.note("rate=%d frames=%d", rate, n);
    for (int t = 0; t < n; ++t) { if (t % 7 == 0) f = 80 * std::pow(2.0, 4 * r.uni()); for (int i = 0; i < win; ++i) x[i] = 0.5 * std::sin(2 * M_PI * f * i / rate) + 0.1 * r.sym(); a.extractFeatures(x, win); b.extractFeatures(x, win); }
    if (a.feats() && b.feats()) { REQUIRE(a.feats()->size() == b.feats()->size(), "features for %zu and %zu frames", a.feats()->size(), b.feats()->size()); for (size_t t = 0; t < a.feats()->size(); ++t) sameBits("feature", (*a.feats())[t], (*b.feats())[t]); }
    uint64_t seed = s.seed(); detrand(seed); a.segment(); detrand(seed); b.segment(); int hop = a.getHopsize(); REQUIRE(labels(a.getSegmentation(), hop) == labels(b.getSegmentation(), hop), "different segments by default and with the documented values");
    for (int c = 0; c < 3; ++c) { M f = features(s, s.i(40, 200), s.i(1, 4)); a.setFeatures(f); b.setFeatures(f); detrand(seed); a.segment(); detrand(seed); b.segment(); REQUIRE(labels(a.getSegmentation(), hop) == labels(b.getSegmentation(), hop), "different segments of given features by default and with the documented values"); }
    s.nontrivial();
}
SUB(C33, clusters_of_features, 60, "constant-Q or chroma features of several segments") {
    int n = s.i(1, 50), bins = s.pick<int>({1, 3, 8, 12}), oct = s.i(1, 5), nc = bins * oct + s.i(0, bins - 1), hl = std::min(2 * s.i(0, 7) + 1, n - (n + 1) % 2), k = s.i(1, 6), st = s.i(1, 10), lim = s.i(1, 20); feature_types ft = s.pick<feature_types>({FEATURE_TYPE_CONSTQ, FEATURE_TYPE_CHROMA}); M f = features(s, n, nc); for (auto &r : f) { for (auto &v : r) v = std::fabs(v); r.push_back(0); }
    s.note("n=%d coefficients=%d bins=%d histogram=%d clusters=%d states=%d mode=%d", n, nc, bins, hl, k, st, ft); Buf<int> q(n, -7); uint64_t seed = s.seed(); detrand(seed); { Mat m(f); constq_segment(q, m, n, bins, nc, ft, st, hl, k, lim); } for (int i = 0; i < n; ++i) REQUIRE(q[i] >= 1 && q[i] <= k, "label %d at %d", q[i], i);
    Buf<int> w(n, -7); Mat g(f); detrand(seed); if (ft == FEATURE_TYPE_CHROMA) { Mat c(n, bins); cq2chroma(g, n, nc, bins, c); cluster_segment(w, c, n, bins, st, hl, k, lim); } else { int pc = std::min(20, nc); mpeg7_constq(g, n, nc); pca_project(g, n, nc, pc); for (int i = 0; i < n; ++i) (*g.r[i])[pc] = (*g.r[i])[nc]; cluster_segment(w, g, n, pc + 1, st, hl, k, lim); }
    REQUIRE(q.vec() == w.vec(), "the labels differ from clustering the %s features", ft == FEATURE_TYPE_CHROMA ? "chroma" : "principal"); s.nontrivial(n > 5);
}
