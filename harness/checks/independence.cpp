// C38 objects are independent; results depend on inputs and history only; read-only inputs stay as they are
//
// Every processing class is wrapped as a machine: a configuration drawn from a
// seed and a step function that carries out one generated call and appends all
// that can be observed to a list.  Histories of machines are then run alone,
// interleaved, among other objects' lives, over dirtied heaps and in threads.
#include "pbt.hpp"
#include "detrand.hpp"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
#include "base/Window.h"
#include "dsp/chromagram/Chromagram.h"
#include "dsp/chromagram/ConstantQ.h"
#include "dsp/keydetection/GetKeyMode.h"
#include "dsp/mfcc/MFCC.h"
#include "dsp/onsets/DetectionFunction.h"
#include "dsp/onsets/PeakPicking.h"
#include "dsp/phasevocoder/PhaseVocoder.h"
#include "dsp/rateconversion/Decimator.h"
#include "dsp/rateconversion/DecimatorB.h"
#include "dsp/rateconversion/Resampler.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include "dsp/segmentation/ClusterMeltSegmenter.h"
#include "dsp/signalconditioning/DFProcess.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/tempotracking/DownBeat.h"
#include "dsp/tempotracking/TempoTrack.h"
#include "dsp/tempotracking/TempoTrackV2.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/transforms/DCT.h"
#include "dsp/transforms/FFT.h"
#include "dsp/wavelet/Wavelet.h"
#include "hmm/hmm.h"
#include "maths/Correlation.h"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/MathUtilities.h"
#include "maths/MedianFilter.h"
#include "maths/Polyfit.h"
#include "maths/pca/pca.h"
#include <memory>
#include <atomic>
#include <thread>
#include <malloc.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
using namespace pbt;
typedef std::vector<double> V;
typedef std::function<void(Rng &, V &)> Step;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define IS_TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define IS_ASAN 1
#endif
#endif

#ifdef IS_TSAN
#define SKIP_TSAN return;      // one thread: nothing for the race detector to see
#else
#define SKIP_TSAN
#endif
namespace {
V sig(Rng &r, int n, double a = 1) {
    V v(n); int k = r.i(0, 5); double w = r.uni() * M_PI, ph = r.uni();
    for (int i = 0; i < n; ++i) v[i] = a * (k == 0 ? 0 : k == 1 ? std::sin(w * i + ph) : k == 2 ? (r.uni() < 0.1 ? r.sym() : 0) : k == 3 ? 0.6 * std::sin(w * i) + 0.1 * r.gauss() : r.sym());
    return v;
}
struct In {           // a read-only input: an exactly sized copy, compared afterwards
    DBuf b; V v; const char *what;
    In(const V &x, const char *w) : b(x), v(x), what(w) {}
    operator const double *() { return b.p; }
    void unchanged() { sameBits(what, b.vec(), v); }
};
struct InF { Buf<float> b; std::vector<float> v; const char *what; InF(const V &x, const char *w) : b(std::vector<float>(x.begin(), x.end())), v(b.vec()), what(w) {} operator const float *() { return b.p; } void unchanged() { for (size_t i = 0; i < v.size(); ++i) REQUIRE(b[i] == v[i], "%s: element %zu modified", what, i); } };
void add(V &o, const V &x) { o.insert(o.end(), x.begin(), x.end()); }
void add(V &o, const DBuf &x) { for (size_t i = 0; i < x.n; ++i) o.push_back(x.p[i]); }
template <typename T> void addp(V &o, const T *p, size_t n) { for (size_t i = 0; i < n; ++i) o.push_back(double(p[i])); }
Filter::Parameters coefs(Rng &c) { Filter::Parameters p; if (c.i(0, 2) == 0) { p.a = {1.0, -0.5949, 0.2348}; p.b = {0.16, 0.32, 0.16}; return p; } int n = c.i(1, 5); p.b.resize(n + 1); for (auto &x : p.b) x = c.sym(); if (c.i(0, 2)) { p.a.assign(n + 1, 0); p.a[0] = 1; for (int i = 1; i <= n; ++i) p.a[i] = c.sym() * 0.9 / n; } return p; }

// mostly 1..hi, one in twelve up to `large` (log-uniform)
int big(Rng &c, int hi, int large) { if (c.i(0, 11)) return c.i(1, hi); return int(hi * std::pow(double(large) / hi, c.uni())); }
Step mFFT(Rng &c) { int n = big(c, 60, 5000); std::shared_ptr<FFT> f(new FFT(n)); return [=](Rng &r, V &o) { In a(sig(r, n), "real input"), b(sig(r, n), "imaginary input"); bool im = r.i(0, 3), inv = r.i(0, 1); DBuf x(n, 5.0), y(n, 5.0); f->process(inv, a, im ? (const double *)b : nullptr, x, y); a.unchanged(); b.unchanged(); add(o, x); add(o, y); }; }
Step mFFTReal(Rng &c) { int n = 2 * big(c, 64, 2500); std::shared_ptr<FFTReal> f(new FFTReal(n)); return [=](Rng &r, V &o) { In a(sig(r, n), "real input"), b(sig(r, n), "imaginary input"); DBuf x(n, 5.0), y(n, 5.0); switch (r.i(0, 2)) { case 0: f->forward(a, x, y); break; case 1: f->forwardMagnitude(a, x); break; default: f->inverse(a, b, x); } a.unchanged(); b.unchanged(); add(o, x); add(o, y); }; }
Step mDCT(Rng &c) { int n = big(c, 60, 1500); std::shared_ptr<DCT> f(new DCT(n)); return [=](Rng &r, V &o) { In a(sig(r, n), "input"); DBuf x(n, 5.0); switch (r.i(0, 3)) { case 0: f->forward(a, x); break; case 1: f->forwardUnitary(a, x); break; case 2: f->inverse(a, x); break; default: f->inverseUnitary(a, x); } a.unchanged(); add(o, x); }; }
Step mPV(Rng &c) { int n = 2 * big(c, 40, 1100), hop = c.i(1, n), h = n / 2 + 1; std::shared_ptr<PhaseVocoder> p(new PhaseVocoder(n, hop)); return [=](Rng &r, V &o) { DBuf m(h, 5.0), ph(h, 5.0), u(h, 5.0); if (r.i(0, 6) == 0) p->reset(); if (r.i(0, 1)) { In a(sig(r, n), "frame"); p->processTimeDomain(a, m, ph, u); a.unchanged(); } else { In a(sig(r, h), "reals"), b(sig(r, h), "imaginaries"); p->processFrequencyDomain(a, b, m, ph, u); a.unchanged(); b.unchanged(); } add(o, m); add(o, ph); add(o, u); }; }
Step mWindow(Rng &c) { int n = big(c, 50, 4200); WindowType t = WindowType(c.i(int(FirstWindow), int(LastWindow))); std::shared_ptr<Window<double>> w(new Window<double>(t, n)); KaiserWindow::Parameters kp; kp.length = big(c, 40, 1000); kp.beta = 10 * c.uni(); std::shared_ptr<KaiserWindow> k(new KaiserWindow(kp)); int sl = big(c, 40, 1000); std::shared_ptr<SincWindow> s(new SincWindow(sl, 0.5 + 10 * c.uni()));
    return [=](Rng &r, V &o) { int which = r.i(0, 2), m = which == 0 ? n : which == 1 ? kp.length : sl; In a(sig(r, m), "windowed data"); DBuf x(m, 5.0); if (which == 0) { w->cut(a, x); add(o, w->getWindowData()); if (r.i(0, 3) == 0) { Window<double> other(HammingWindow, r.i(1, 9)); other = *w; other.cut(a, x); } } else if (which == 1) k->cut(a, x); else s->cut(a, x); a.unchanged(); add(o, x); }; }
Step mFilter(Rng &c) { std::shared_ptr<Filter> f(new Filter(coefs(c))); return [=](Rng &r, V &o) { int n = r.i(0, 9) ? big(r, 40, 2500) : 0; In a(sig(r, n), "signal"); DBuf x(n, 5.0); if (r.i(0, 7) == 0) f->reset(); f->process(a, x, n); a.unchanged(); add(o, x); }; }
Step mFiltFilt(Rng &c) { Filter::Parameters p = coefs(c); std::shared_ptr<FiltFilt> f(new FiltFilt(p)); return [=](Rng &r, V &o) { int n = 29 + big(r, 90, 2500); In a(sig(r, n), "signal"); DBuf x(n, 5.0); f->process(a, x, n); a.unchanged(); add(o, x); }; }
Step mFramer(Rng &c) { int n = big(c, 200, 6000), fl = big(c, 40, 2100), hop = big(c, 40, 1000); std::shared_ptr<DBuf> src(new DBuf(sig(c, n))); std::shared_ptr<Framer> f(new Framer); f->configure(fl, hop); f->setSource(*src, n); auto left = std::make_shared<int>(f->getMaxNoFrames()); return [=](Rng &r, V &o) { if ((*left)-- == 0) { f->resetCounters(); *left = f->getMaxNoFrames() - 1; } DBuf x(fl, 5.0); V before = src->vec(); f->getFrame(x); sameBits("framed signal", src->vec(), before); add(o, x); o.push_back(f->getMaxNoFrames()); if (r.i(0, 9) == 0) { f->resetCounters(); *left = f->getMaxNoFrames(); } }; }
Step mDFProcess(Rng &c) { Filter::Parameters p; p.a = {1.0, -0.5949, 0.2348}; p.b = {0.16, 0.32, 0.16}; std::shared_ptr<DBuf> A(new DBuf(p.a)), B(new DBuf(p.b)); int n = big(c, 100, 1500); DFProcConfig cf; cf.length = n; cf.LPOrd = 2; cf.LPACoeffs = *A; cf.LPBCoeffs = *B; cf.winPre = c.i(0, 10); cf.winPost = c.i(0, 10); cf.AlphaNormParam = c.i(0, 3) ? 9 : 2; cf.isMedianPositive = c.i(0, 1); cf.delta = c.i(0, 1) ? 0.f : 0.1f; std::shared_ptr<DFProcess> d(new DFProcess(cf)); return [=](Rng &r, V &o) { (void)A; (void)B; DBuf x(sig(r, n, 5)), y(n, 5.0); d->process(x, y); add(o, y); }; }
template <typename D> Step mDec(Rng &c, int maxLog) { int f = 1 << c.i(0, maxLog), n = f * big(c, 20, 600); std::shared_ptr<D> d(new D(n, f)); return [=](Rng &r, V &o) { if (r.i(0, 3)) { In a(sig(r, n), "block"); DBuf x(n / f, 5.0); d->process(a, x.p); a.unchanged(); add(o, x); } else { InF a(sig(r, n), "block"); Buf<float> x(n / f, 5.f); d->process(a, x.p); a.unchanged(); addp(o, x.p, x.n); } }; }
Step mDecA(Rng &c) { return mDec<Decimator>(c, 3); }
Step mDecB(Rng &c) { return mDec<DecimatorB>(c, 5); }
Step mResampler(Rng &c) { static const int rt[] = {8000, 16000, 44100, 48000, 22050, 11025, 3, 7, 10}; int a = rt[c.i(0, 8)], b = rt[c.i(0, 8)]; if (double(a) / b > 20 || double(b) / a > 20) b = a; std::shared_ptr<Resampler> d(c.i(0, 1) ? new Resampler(a, b, 40 + 40 * c.uni(), 0.05 + 0.1 * c.uni()) : new Resampler(a, b)); return [=](Rng &r, V &o) { int n = r.i(0, 9) ? big(r, 200, 6000) : 0, cap = int((int64_t(n) * b + a - 1) / a) + 1; In x(sig(r, n), "source"); if (r.i(0, 1)) { DBuf y(cap, 5.0); int k = d->process(x, y, n); REQUIRE(k >= 0 && k < cap + 1, "%d samples from %d", k, n); add(o, y.vec(k)); } else add(o, d->process(x, n)); x.unchanged(); o.push_back(d->getLatency()); if (r.i(0, 9) == 0) { int m = r.i(1, 100); In z(sig(r, m), "source"); V q = Resampler::resample(a, b, z, m); z.unchanged(); add(o, q); } }; }
Step mDF(Rng &c) { DFConfig cf; cf.frameLength = 2 * big(c, 40, 1100); cf.stepSize = c.i(1, cf.frameLength); cf.DFType = c.i(1, 5); cf.dbRise = 3; cf.adaptiveWhitening = c.i(0, 1); cf.whiteningRelaxCoeff = c.i(0, 1) ? -1 : 0.9; cf.whiteningFloor = c.i(0, 1) ? -1 : 0.05; int n = cf.frameLength, h = n / 2 + 1; bool freq = c.i(0, 2) == 0; std::shared_ptr<DetectionFunction> d(new DetectionFunction(cf)); return [=](Rng &r, V &o) { if (freq) { In a(sig(r, h), "reals"), b(sig(r, h), "imaginaries"); o.push_back(d->processFrequencyDomain(a, b)); a.unchanged(); b.unchanged(); } else { In a(sig(r, n), "frame"); o.push_back(d->processTimeDomain(a)); a.unchanged(); } addp(o, d->getSpectrumMagnitude(), h); }; }
Step mPeaks(Rng &c) { std::shared_ptr<DBuf> A(new DBuf(V{1.0, -0.5949, 0.2348})), B(new DBuf(V{0.16, 0.32, 0.16})); PPickParams p; int n = 4 + big(c, 116, 1500); p.length = n; p.tau = 0.01; p.alpha = 9; p.cutoff = 0.5; p.LPOrd = 2; p.LPACoeffs = *A; p.LPBCoeffs = *B; p.WinT = PPWinThresh(c.i(0, 9), c.i(0, 9)); p.QuadThresh = QFitThresh(0.1 * c.uni(), 0, 0.5 * c.uni()); p.delta = 0; std::shared_ptr<PeakPicking> k(new PeakPicking(p)); return [=](Rng &r, V &o) { (void)A; (void)B; DBuf x(sig(r, n, 5)); std::vector<int> on; k->process(x, n, on); add(o, x); for (int i : on) o.push_back(i); }; }
Step mChroma(Rng &c) { ChromaConfig cf; cf.FS = 4000; cf.min = 200 + 100 * c.uni(); cf.max = cf.min * (2 << c.i(0, 1)); cf.BPO = c.i(0, 1) ? 12 : 5; cf.CQThresh = 0.0054; cf.normalise = MathUtilities::NormaliseType(c.i(0, 2)); std::shared_ptr<Chromagram> k(new Chromagram(cf)); int n = k->getFrameSize(), K = cf.BPO; return [=](Rng &r, V &o) { if (r.i(0, 1)) { In a(sig(r, n), "frame"); addp(o, k->process(a), K); a.unchanged(); } else { In a(sig(r, n), "reals"), b(sig(r, n), "imaginaries"); addp(o, k->process(a, b), K); a.unchanged(); b.unchanged(); } o.push_back(k->kabs(r.sym(), r.sym())); }; }
Step mCQ(Rng &c) { CQConfig cf; cf.FS = 4000; cf.min = 200 + 100 * c.uni(); cf.max = cf.min * (1.2 + 3 * c.uni()); cf.BPO = c.i(1, 12); cf.CQThresh = c.i(0, 1) ? 0.0054 : 0; std::shared_ptr<ConstantQ> k(new ConstantQ(cf)); k->sparsekernel(); int n = k->getFFTLength(), K = k->getK(); return [=](Rng &r, V &o) { if (r.i(0, 5) == 0) k->sparsekernel(); if (r.i(0, 1)) { In a(sig(r, n), "reals"), b(sig(r, n), "imaginaries"); DBuf x(K, 5.0), y(K, 5.0); k->process(a, b, x, y); a.unchanged(); b.unchanged(); add(o, x); add(o, y); } else { In a(sig(r, 2 * n), "spectrum"); addp(o, k->process(a), 2 * K); a.unchanged(); } }; }
Step mKey(Rng &c) { GetKeyMode::Config cf(c.i(0, 1) ? 8000 : 11025, float(430 + 20 * c.uni())); cf.hpcpAverage = 1 + 5 * c.uni(); cf.medianAverage = 1 + 5 * c.uni(); cf.frameOverlapFactor = 1 << c.i(0, 2); cf.decimationFactor = 1 << c.i(2, 3); std::shared_ptr<GetKeyMode> k(new GetKeyMode(cf)); int n = k->getBlockSize(); return [=](Rng &r, V &o) { DBuf x(sig(r, n)); V before = x.vec(); o.push_back(k->process(x)); addp(o, k->getKeyStrengths(), 24); }; }
Step mMFCC(Rng &c) { MFCCConfig cf(c.i(0, 1) ? 16000 : 44100); cf.fftsize = 1 << (c.i(0, 7) ? c.i(7, 9) : c.i(10, 12)); cf.nceps = c.i(1, 25); cf.logpower = c.i(0, 1) ? 1 : 0.2; cf.want_c0 = c.i(0, 1); cf.window = WindowType(c.i(0, 4)); std::shared_ptr<MFCC> k(new MFCC(cf)); int n = cf.fftsize, m = cf.nceps + cf.want_c0; return [=](Rng &r, V &o) { DBuf x(m, 5.0); if (r.i(0, 1)) { In a(sig(r, n), "frame"); o.push_back(k->process(a, x)); a.unchanged(); } else { In a(sig(r, n), "reals"), b(sig(r, n), "imaginaries"); o.push_back(k->process(a, b, x)); a.unchanged(); b.unchanged(); } add(o, x); }; }
V detf(Rng &r, int n) { V d(n); int p = r.i(20, 100), k = r.i(0, 3); for (int i = 0; i < n; ++i) d[i] = k == 0 ? (i % p == 0) : k == 1 ? r.uni() : k == 2 ? 0.1 * r.uni() + (i % p == 0) : 0; return d; }
Step mTT(Rng &c) { std::shared_ptr<DBuf> A(new DBuf(V{1.0, -0.5949, 0.2348})), B(new DBuf(V{0.16, 0.32, 0.16})); TTParams p; p.lagLength = c.i(0, 1) ? 128 : c.i(40, 100); p.winLength = 4 * p.lagLength; p.alpha = 9; p.LPOrd = 2; p.LPACoeffs = *A; p.LPBCoeffs = *B; p.WinT.pre = 8; p.WinT.post = 7; std::shared_ptr<TempoTrack> t(new TempoTrack(p)); return [=](Rng &r, V &o) { (void)A; (void)B; V d = detf(r, big(r, 900, 6000)), te; std::vector<int> b = t->process(d, &te); for (int i : b) o.push_back(i); add(o, te); }; }
Step mTT2(Rng &c) { std::shared_ptr<TempoTrackV2> t(new TempoTrackV2(44100, 512)); return [=](Rng &r, V &o) { int n = big(r, 900, 4000); V d = detf(r, n), d0 = d, bp(n, 40.0), te, b; if (r.i(0, 1)) t->calculateBeatPeriod(d, bp, te); else t->calculateBeatPeriod(d, bp, te, 60 + 100 * r.uni(), r.i(0, 1)); V bp0 = bp; t->calculateBeats(d, bp, b); sameBits("detection function", d, d0); sameBits("beat periods", bp, bp0); add(o, bp); add(o, te); add(o, b); }; }
Step mDB(Rng &c) { int f = 1 << c.i(0, 5), inc = f * big(c, 8, 100); std::shared_ptr<DownBeat> d(new DownBeat(float((c.i(0, 5) ? 2000 : 500 * c.i(1, 8)) * f), f, inc)); if (c.i(0, 1)) d->setBeatsPerBar(c.i(2, 7)); return [=](Rng &r, V &o) { int k = r.i(0, 3); if (k < 2) { InF a(sig(r, inc), "audio block"); d->pushAudioBlock(a); a.unchanged(); size_t l = 0; const float *p = d->getBufferedAudio(l); addp(o, p, l); if (r.i(0, 9) == 0) d->resetAudioBuffer(); } else { int n = r.i(100, 4000); InF a(sig(r, n), "audio"); V b; double at = 0; int nb = r.i(0, 12); for (int i = 0; i < nb; ++i) { b.push_back(at); at += double(n) * f / inc / 12 * (0.5 + r.uni()); } V b0 = b, sd; std::vector<int> db; d->findDownBeats(a, n, b, db); a.unchanged(); sameBits("beats", b, b0); d->getBeatSD(sd); for (int i : db) o.push_back(i); add(o, sd); } }; }
Step mTonal(Rng &c) { std::shared_ptr<TonalEstimator> t(new TonalEstimator); std::shared_ptr<TCSGram> g(new TCSGram); ChangeDFConfig cf; cf.smoothingWidth = c.i(1, 8); std::shared_ptr<ChangeDetectionFunction> ch(new ChangeDetectionFunction(cf)); g->setNumBins(12); g->setFrameDuration(10 * c.uni()); return [=](Rng &r, V &o) { ChromaVector v(12); V x = sig(r, 12); for (int i = 0; i < 12; ++i) v[i] = std::fabs(x[i]); if (r.i(0, 1)) v.normalizeL1(); ChromaVector v0 = v; TCSVector w = t->transform2TCS(v); for (int i = 0; i < 12; ++i) REQUIRE(v[i] == v0[i], "chroma vector modified"); for (int i = 0; i < 6; ++i) o.push_back(w[i]); g->addTCSVector(w); o.push_back(g->getDuration()); if (r.i(0, 2) == 0) { ChangeDistance d = ch->process(*g); for (size_t i = 0; i < d.size(); ++i) o.push_back(d[i]); for (int k = 0; k < g->getSize(); ++k) { TCSVector y; g->getTCSVector(k, y); for (int i = 0; i < 6; ++i) o.push_back(y[i]); } } }; }
Step mWavelet(Rng &c) { auto lp = std::make_shared<V>(), hp = std::make_shared<V>(); return [=](Rng &r, V &o) { Wavelet::Type t = Wavelet::Type(r.i(0, int(Wavelet::LastType))); Wavelet::createDecompositionFilters(t, *lp, *hp); add(o, *lp); add(o, *hp); for (char ch : Wavelet::getWaveletName(t)) o.push_back(ch); }; }
Step mMedian(Rng &c) { int n = big(c, 20, 300); std::shared_ptr<MedianFilter<double>> m(new MedianFilter<double>(n, float(100 * c.uni()))); return [=](Rng &r, V &o) { int k = r.i(1, 30); V x = sig(r, k); for (double v : x) { m->push(v); o.push_back(m->get()); } if (r.i(0, 9) == 0) m->reset(); V x0 = x; add(o, MedianFilter<double>::filter(n | 1, x)); sameBits("filtered data", x, x0); }; }
Step mMaths(Rng &c) { auto cd = std::make_shared<CosineDistance>(); auto kl = std::make_shared<KLDivergence>(); auto co = std::make_shared<Correlation>(); auto bs = std::make_shared<BeatSpectrum>(); return [=](Rng &r, V &o) {
    int n = big(r, 30, 1500); V a = sig(r, n), b = sig(r, n), a0 = a, b0 = b; for (auto &x : a) x += 0.3; a0 = a;
    switch (r.i(0, 7)) {
    case 0: o.push_back(cd->distance(a, b)); break;
    case 1: for (auto &x : a) x = std::fabs(x) + 0.1; for (auto &x : b) x = std::fabs(x) + 0.1; a0 = a; b0 = b; o.push_back(kl->distanceGaussian(a, a, b, b)); o.push_back(kl->distanceDistribution(a, b, r.i(0, 1))); break;
    case 2: { DBuf x(a), y(n, 5.0); co->doAutoUnBiased(x, y, n); add(o, y); sameBits("correlated data", x.vec(), a); } break;
    case 3: { V x, y, w; for (int i = 0; i < n + 3; ++i) { x.push_back(i); y.push_back(r.sym()); } w.assign(3, 0); V x0 = x, y0 = y; o.push_back(TPolyFit::PolyFit2(x, y, w)); sameBits("x", x, x0); sameBits("y", y, y0); add(o, w); } break;
    case 4: { In x(a, "data"); double mn, mx; MathUtilities::getFrameMinMax(x, n, &mn, &mx); o.push_back(mn); o.push_back(mx); o.push_back(MathUtilities::mean(x, n)); o.push_back(MathUtilities::sum(x, n)); o.push_back(MathUtilities::median(x, n)); double an; MathUtilities::getAlphaNorm(x, n, 2, &an); o.push_back(an); x.unchanged(); } break;
    case 5: { V x = a; MathUtilities::adaptiveThreshold(x); add(o, x); o.push_back(MathUtilities::getLpNorm(a, 2)); add(o, MathUtilities::normaliseLp(a, 2)); MathUtilities::normalise(x, MathUtilities::NormaliseType(r.i(0, 2))); add(o, x); o.push_back(MathUtilities::factorial(r.i(0, 10))); } break;
    case 6: { std::vector<V> m; for (int i = 0; i < std::min(n, 120); ++i) m.push_back(sig(r, 5)); std::vector<V> m0 = m; add(o, bs->process(m)); REQUIRE(m == m0, "beat spectrum input modified"); } break;
    default: { int rows = r.i(4, 20), cols = r.i(1, 5), k = r.i(1, cols); std::vector<V> m(rows); std::vector<double *> p; for (auto &x : m) { x = sig(r, cols); for (auto &q : x) q += 0.1 * r.sym(); } for (auto &x : m) p.push_back(x.data()); pca_project(p.data(), rows, cols, k); for (auto &x : m) for (int i = 0; i < k; ++i) o.push_back(x[i]); }
    }
    sameBits("first operand", a, a0); sameBits("second operand", b, b0); }; }
// hidden Markov model built by hand, trained and decoded (initialisation is random by design)
struct Rows { std::vector<V> v; std::vector<double *> p; Rows(int n, int m, double x = 0) : v(n, V(m, x)) { for (auto &r : v) p.push_back(r.data()); } operator double **() { return p.data(); } };
Step mHMM(Rng &c) { int N = big(c, 4, 20), L = big(c, 4, 10); return [=](Rng &r, V &o) { int T = r.i(5 * L, 5 * L + 36); Rows x(T, L), a(N, N), mu(N, L), cov(L, L); V p0(N, 1.0 / N); for (auto &q : x.v) for (auto &z : q) z = r.gauss(); for (auto &q : a.v) { double s = 0; for (auto &z : q) s += z = 0.1 + r.uni(); for (auto &z : q) z /= s; } for (auto &q : mu.v) for (auto &z : q) z = r.gauss(); for (int i = 0; i < L; ++i) cov.v[i][i] = 0.5 + r.uni();
    model_t m; m.N = N; m.L = L; m.p0 = p0.data(); m.a = a; m.mu = mu; m.cov = cov; std::vector<V> x0 = x.v; if (r.i(0, 1)) hmm_train(x, T, &m); Buf<int> q(T, -1); viterbi_decode(x, T, &m, q); REQUIRE(x.v == x0, "observations modified"); add(o, p0); for (auto &z : a.v) add(o, z); for (auto &z : mu.v) add(o, z); for (auto &z : cov.v) add(o, z); addp(o, q.p, T);
    Rows ic(L, L); double det; invert(cov, L, ic, &det); for (auto &z : ic.v) add(o, z); o.push_back(det); V y(L), z(L); o.push_back(gauss(x.p[0], L, mu.p[0], ic, det, y.data(), z.data())); o.push_back(loggauss(x.p[0], L, mu.p[0], ic, det, y.data(), z.data())); }; }
Step mSegmenter(Rng &c) { ClusterMeltSegmenterParams p; p.nHMMStates = c.i(1, 6); p.nclusters = c.i(1, 4); p.histogramLength = 2 * c.i(0, 3) + 1; p.neighbourhoodLimit = c.i(1, 10); p.featureType = feature_types(c.i(1, 3)); p.hopSize = 0.1; p.windowSize = 0.1; p.fmin = 200; p.fmax = 2000; p.nbins = 6; std::shared_ptr<ClusterMeltSegmenter> s(new ClusterMeltSegmenter(p)); s->initialise(8000); auto st = std::make_shared<int>(0); auto seed = c.next(); return [=](Rng &r, V &o) { int w = s->getWindowsize();
    if ((*st)++ % 8 < 7) { In a(sig(r, w), "audio"); s->extractFeatures(a, w); a.unchanged(); o.push_back(w); } else { detrand(seed + *st); s->segment(); for (auto &g : s->getSegmentation().segments) { o.push_back(g.start); o.push_back(g.end); o.push_back(g.type); } o.push_back(s->getNSegmentTypes()); } }; }
struct Kind { const char *name; Step (*make)(Rng &); bool threads; };
static const Kind kinds[] = { {"FFT", mFFT, true}, {"FFTReal", mFFTReal, true}, {"DCT", mDCT, true}, {"PhaseVocoder", mPV, true}, {"windows", mWindow, true}, {"Filter", mFilter, true}, {"FiltFilt", mFiltFilt, true}, {"Framer", mFramer, true}, {"DFProcess", mDFProcess, true}, {"Decimator", mDecA, true}, {"DecimatorB", mDecB, true}, {"Resampler", mResampler, true}, {"DetectionFunction", mDF, true}, {"PeakPicking", mPeaks, true}, {"Chromagram", mChroma, true}, {"ConstantQ", mCQ, true}, {"GetKeyMode", mKey, true}, {"MFCC", mMFCC, true}, {"TempoTrack", mTT, true}, {"TempoTrackV2", mTT2, true}, {"DownBeat", mDB, true}, {"tonal", mTonal, true}, {"Wavelet", mWavelet, true}, {"MedianFilter", mMedian, true}, {"maths", mMaths, true}, {"HMM", mHMM, true}, {"segmenter", mSegmenter, false} };
static const int NK = int(sizeof kinds / sizeof *kinds);

struct Hist { int kind; uint64_t cfg, ops; int n; };
struct Run { Step st; uint64_t ops; int n, at = 0; std::vector<V> out; explicit Run(const Hist &h) : ops(h.ops), n(h.n) { Rng c(h.cfg); st = kinds[h.kind].make(c); } bool done() const { return at >= n; } void step() { Rng r(mix(ops + at)); out.emplace_back(); st(r, out.back()); ++at; } };
std::vector<V> alone(const Hist &h) { Run r(h); while (!r.done()) r.step(); return r.out; }
void equal(const char *how, const Hist &h, const std::vector<V> &got, const std::vector<V> &want) {
    for (size_t k = 0; k < want.size(); ++k) { if (got[k].size() != want[k].size()) fail("%s %s: call %zu gives %zu values, alone %zu", kinds[h.kind].name, how, k, got[k].size(), want[k].size());
        for (size_t i = 0; i < want[k].size(); ++i) { double a = got[k][i], b = want[k][i]; if (!(a == b || (a != a && b != b))) fail("%s %s: call %zu, value %zu of %zu is %.17g, alone %.17g", kinds[h.kind].name, how, k, i, want[k].size(), a, b); } }
}
Hist hist(Src &s, bool thr = false) { Hist h; do h.kind = int(s.draw(NK)); while (thr && !kinds[h.kind].threads); h.cfg = s.seed(); h.ops = s.seed(); h.n = s.hist(1, h.kind == NK - 1 ? 16 : 8, 1, 30, 40); s.note("%s configuration %llu, %d calls from %llu", kinds[h.kind].name, (unsigned long long)h.cfg, h.n, (unsigned long long)h.ops); return h; }
Hist partner(Src &s, const Hist &a, bool thr = false) { if (s.chance(4)) return hist(s, thr); Hist h = a; if (s.b()) h.cfg = s.seed(); h.ops = s.seed(); h.n = s.i(1, 8); s.note("another with configuration %llu, %d calls from %llu", (unsigned long long)h.cfg, h.n, (unsigned long long)h.ops); return h; }
bool varied(const std::vector<V> &o) { for (auto &v : o) for (double x : v) if (x != 0) return true; return false; }
// fill the heap's free space with a pattern
void dirty(unsigned char byte, Rng &r) { std::vector<void *> p; for (int i = 0; i < 200; ++i) { size_t n = i < 120 ? r.i(1, 4000) : r.i(4000, 60000); void *q = malloc(n); memset(q, byte, n); p.push_back(q); } for (void *q : p) free(q); }
}

SUB(C38, interleaved, 1200, "histories with results that are not all zero: two objects (mostly of one class) with interleaved calls, others made, used and destroyed in between, each against its history alone") { SKIP_TSAN
    Hist a = hist(s), b = partner(s, a); std::vector<V> wa = alone(a), wb = alone(b); bool others = s.b(), diff = false;
    Run ra(a), rb(b);
    while (!ra.done() || !rb.done()) {
        if (others && s.chance(3)) { Hist h; h.kind = s.b() ? a.kind : int(s.draw(NK)); h.cfg = s.seed(); h.ops = s.seed(); h.n = s.i(0, 3); alone(h); s.note("a %s comes and goes", kinds[h.kind].name); }
        Run &r = rb.done() || (!ra.done() && s.b()) ? ra : rb; diff |= &r == &rb && !ra.done(); r.step();
    }
    equal("interleaved with another object", a, ra.out, wa); equal("interleaved with another object", b, rb.out, wb);
    s.nontrivial(varied(wa) && varied(wb) && diff);
}
SUB(C38, repeatable, 1200, "histories with results that are not all zero: the same history again over a heap left in another state") { SKIP_TSAN
    Hist a = hist(s); Rng r(s.seed()); unsigned char c1 = (unsigned char)s.draw(256), c2 = (unsigned char)s.draw(256); s.note("heap patterns %d and %d", c1, c2);
#if !defined(IS_ASAN) && !defined(IS_TSAN)
    mallopt(M_PERTURB, c1);
#endif
    dirty(c1, r); std::vector<V> x = alone(a);
#if !defined(IS_ASAN) && !defined(IS_TSAN)
    mallopt(M_PERTURB, c2);
#endif
    dirty(c2, r); std::vector<V> y = alone(a);
#if !defined(IS_ASAN) && !defined(IS_TSAN)
    mallopt(M_PERTURB, 1);
#endif
    equal("run again over other heap contents", a, y, x); s.nontrivial(varied(x));
}
// A process that has not used the library yet, forked from each worker before its first case; every history
// asked of it runs in a fork of its own, so nothing any object did anywhere can have come before.
namespace pristine {
int up = -1, down = -1;
bool xfer(int fd, void *p, size_t n, bool wr) { char *q = (char *)p; while (n) { ssize_t k = wr ? write(fd, q, n) : read(fd, q, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } q += k; n -= k; } return true; }
void start() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) return; pid_t pid = fork(); if (pid < 0) return;
    if (pid) { close(a[0]); close(b[1]); down = a[1]; up = b[0]; return; }
    close(a[1]); close(b[0]); Hist h;
    while (xfer(a[0], &h, sizeof h, false)) {
        pid_t c = fork();
        if (c == 0) { close(a[0]); std::vector<V> o; try { o = alone(h); } catch (...) { _exit(3); } uint64_t n = o.size(); xfer(b[1], &n, 8, true); for (auto &v : o) { n = v.size(); xfer(b[1], &n, 8, true); xfer(b[1], v.data(), n * sizeof(double), true); } _exit(0); }
        int st = 0; if (c > 0) waitpid(c, &st, 0); if (c < 0 || st) { uint64_t n = ~uint64_t(0); xfer(b[1], &n, 8, true); _exit(0); }
    }
    _exit(0);
}
bool run(const Hist &h, std::vector<V> &o) {
    Hist q = h; uint64_t n; if (down < 0 || !xfer(down, &q, sizeof q, true) || !xfer(up, &n, 8, false)) return false; if (n > 1000000) { close(down); close(up); down = up = -1; return false; }
    o.assign(n, V()); for (auto &v : o) { if (!xfer(up, &n, 8, false)) return false; v.resize(n); if (!xfer(up, v.data(), n * sizeof(double), false)) return false; } return true;
}
struct Reg { Reg() {
#ifndef IS_TSAN
    pbt::workerHook() = start;
#endif
} } reg;
}
// nothing left by other objects reaches a new one, not even one of a new configuration: against a process in which nothing has happened
SUB(C38, first_in_process, 500, "histories with results that are not all zero: up to six other objects' lives, then the history, against its result in a process that has done nothing else") { SKIP_TSAN
    if (pristine::down < 0) return;
    Hist a = hist(s); int k = s.i(0, 6); for (int i = 0; i < k; ++i) { Hist h = a; h.cfg = s.b() ? a.cfg : s.seed(); if (s.chance(4)) h.kind = int(s.draw(NK)); h.ops = s.seed(); h.n = s.i(0, 6); alone(h); s.note("after a %s", kinds[h.kind].name); }
    std::vector<V> got = alone(a), want; if (!pristine::run(a, want)) return;
    REQUIRE(want.size() == got.size(), "%s: %zu calls, %zu in a new process", kinds[a.kind].name, got.size(), want.size()); equal("after other objects have lived, against a new process", a, got, want); s.nontrivial(varied(want));
}
// another object of the same configuration with its own history before: leaves no trace in a new one
SUB(C38, after_others, 600, "a long run of other objects' lives first, then the history against its result before them") { SKIP_TSAN
    Hist a = hist(s); std::vector<V> w = alone(a); int k = s.i(1, 6); for (int i = 0; i < k; ++i) { Hist h = a; h.cfg = s.b() ? a.cfg : s.seed(); if (s.chance(4)) h.kind = int(s.draw(NK)); h.ops = s.seed(); h.n = s.i(0, 6); alone(h); s.note("after a %s", kinds[h.kind].name); }
    equal("after other objects have lived", a, alone(a), w); s.nontrivial(varied(w));
}
SUBX(C38, threads, 400, "two to four objects used in a thread of their own each, against their histories alone") {
    int n = s.i(2, 4); std::vector<Hist> h; h.push_back(hist(s, true)); for (int i = 1; i < n; ++i) h.push_back(partner(s, h[0], true));
    std::vector<std::vector<V>> want, got[4]; std::vector<std::string> errs(n); int reps = s.i(1, 4); bool before = s.b(), nt = true; if (before) s.note("threads first");
    if (!before) for (auto &x : h) want.push_back(alone(x));
    for (int q = 0; q < reps; ++q) {
        got[q].resize(n); std::vector<std::thread> t; std::atomic<int> ready(0);
        for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (ready < n) { } try { got[q][i] = alone(h[i]); } catch (Failure &f) { errs[i] = f.msg; } });
        for (auto &x : t) x.join();
        for (int i = 0; i < n; ++i) if (!errs[i].empty()) fail("%s", errs[i].c_str());
    }
    if (before) for (auto &x : h) want.push_back(alone(x));
    for (int q = 0; q < reps; ++q) for (int i = 0; i < n; ++i) equal("in a thread of its own", h[i], got[q][i], want[i]);
    for (auto &w : want) nt &= varied(w);
    s.nontrivial(nt);
}
