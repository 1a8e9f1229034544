// C07 Filter, C08 FiltFilt, C16 Framer, C17 DFProcess
#include "pbt.hpp"
#include "ref.hpp"
#include "filtgen.hpp"
#include "dsp/signalconditioning/Filter.h"
#include "dsp/signalconditioning/FiltFilt.h"
#include "dsp/signalconditioning/Framer.h"
#include "dsp/signalconditioning/DFProcess.h"
using namespace pbt;
typedef std::vector<double> V;

static void runFilter(Src &s, bool fir, int order) {
    Filter::Parameters p; Coefs c = makeCoefs(s, order, fir); p.a = c.a; p.b = c.b;
    Filter f(p);
    REQUIRE(f.getOrder() == order, "order %d, expected %d", f.getOrder(), order);
    int segs = s.hist(1, 3, 2e4, 25, 120);
    for (int g = 0; g < segs; ++g) {
        int n = segs > 3 ? s.sz(1, 60) : s.szl(1, s.chance(8) ? 1500 : 260, 80, 20000);
        V x = s.b() ? signal(s, n, s.pick<double>({1, 1000, 1e-6})) : values(s, n, 50, "x");
        V want = ref::filter(c.a, c.b, x), got;
        V px(x);
        size_t at = 0;
        for (int k : partition(s, n, true)) {
            DBuf in(V(x.begin() + at, x.begin() + at + k)), out(k, 99.0);
            f.process(in, out, k);
            sameBits("filter input", in.vec(), V(x.begin() + at, x.begin() + at + k));
            V o = out.vec(k); got.insert(got.end(), o.begin(), o.end()); at += k;
        }
        double tol = c.gain * 1e-12 * (maxabs(want) + maxabs(x)) + 1e-300;
        same(g ? "filter output after reset" : "filter output", got, want, tol);
        s.nontrivial(order > 0 && n > order && maxabs(x) > 0);
        f.reset(); s.note("reset");
        if (s.chance(4)) f.reset();
    }
}
SUB(C07, iir, 4000, "order > 0, stream longer than the order, non-zero input; random partition of the stream and resets, against a direct difference equation") { runFilter(s, false, s.chance(5) ? s.i(0, 45) : s.sz(0, 12)); }
SUB(C07, fir, 3000, "as above for filters without denominator") { runFilter(s, true, s.chance(5) ? s.i(0, 70) : s.szl(0, 24, 80, 600)); }
SUB(C07, reject, 200, "coefficient sets of unequal size, or none at all, are refused") {
    Filter::Parameters p; int na = s.i(0, 5), nb = s.i(0, 5);
    p.a.assign(na, 1.0); p.b.assign(nb, 1.0); s.note("a:%d b:%d", na, nb);
    bool ok = nb > 0 && (na == 0 || na == nb), thrown = false;
    try { Filter f(p); } catch (std::logic_error &) { thrown = true; }
    REQUIRE(thrown == !ok, "filter with %d denominators and %d numerators was %s", na, nb, thrown ? "refused" : "accepted");
    s.nontrivial(!ok);
}

// ------------------------------------------------------------------ C08
static V refFiltFilt(const V &a, const V &b, const V &x) {
    int ord = int(b.size()) - 1, e = 3 * ord, n = int(x.size());
    V y;
    for (int i = e; i > 0; --i) y.push_back(i < n ? 2 * x[0] - x[i] : 0.0);
    y.insert(y.end(), x.begin(), x.end());
    for (int i = 0; i < e; ++i) y.push_back(i + 1 < n ? 2 * x[n - 1] - x[n - 2 - i] : 0.0);
    y = ref::filter(a, b, y); std::reverse(y.begin(), y.end());
    y = ref::filter(a, b, y); std::reverse(y.begin(), y.end());
    return V(y.begin() + e, y.begin() + e + n);
}
SUB(C08, filtfilt, 4000, "signal longer than 3*(order) with order > 0; up to 4 signals of differing lengths through one object, against the reflect/filter/reverse reference") {
    bool fir = s.chance(4); int order = fir ? s.szl(0, 10, 20, 120) : s.sz(0, 10);
    Coefs c = makeCoefs(s, order, fir); Filter::Parameters p; p.a = c.a; p.b = c.b;
    FiltFilt ff(p);
    int calls = s.hist(1, 4, 2e4, 25, 120);
    for (int k = 0; k < calls; ++k) {
        int n = s.chance(12) ? s.i(1, 3 * order + 1) : calls > 4 ? 3 * order + s.sz(1, 40) : s.szl(3 * order + 1, 400, 60, 8000);
        V x = s.b() ? signal(s, n, s.pick<double>({1, 100, 1e-4})) : values(s, n, 20, "x");
        DBuf in(x), out(n, -4.0);
        ff.process(in, out, n);
        sameBits("filtfilt input", in.vec(), x);
        if (n > 3 * order) {
            V want = refFiltFilt(c.a, c.b, x);
            same(k ? "forward-backward output of a later signal" : "forward-backward output", out.vec(), want, c.gain * c.gain * 1e-12 * (maxabs(want) + 3 * maxabs(x)) + 1e-300);
            s.nontrivial(order > 0 && maxabs(x) > 0);
        } else {   // too short to reflect fully: only repeatable
            FiltFilt g(p); DBuf o2(n, 6.0); g.process(in, o2, n);
            same("forward-backward output of a short signal, new object against used one", out.vec(), o2.vec(), 1e-9 * (maxabs(x) + 1e-300) * c.gain * c.gain);
        }
    }
}
SUB(C08, linear, 1500, "linearity in the signal and zero phase: reversing the input reverses the output away from the ends") {
    int order = s.sz(1, 5); Coefs c = makeCoefs(s, order, false); Filter::Parameters p; p.a = c.a; p.b = c.b;
    int n = s.sz(3 * order + 2, 200); V x = signal(s, n), y = signal(s, n); double k = s.uni(-3, 3); V z(n);
    for (int i = 0; i < n; ++i) z[i] = x[i] + k * y[i];
    FiltFilt f(p); DBuf ix(x), iy(y), iz(z), ox(n), oy(n), oz(n);
    f.process(ix, ox, n); f.process(iy, oy, n); f.process(iz, oz, n);
    V w(n); for (int i = 0; i < n; ++i) w[i] = ox[i] + k * oy[i];
    same("linearity", oz.vec(), w, c.gain * c.gain * 1e-11 * (maxabs(w) + maxabs(ox.vec()) + 4 * maxabs(oy.vec()) + maxabs(z)) + 1e-300);
    s.nontrivial(maxabs(x) > 0 && maxabs(y) > 0);
}

// ------------------------------------------------------------------ C16
SUB(C16, frames, 5000, "at least two frames, or a frame reaching beyond the end; histories of reads, resets, new sources and reconfigurations against slicing with zero padding") {
    Framer f;
    int confs = s.hist(1, 3, 5e4, 40, 60);
    for (int c = 0; c < confs; ++c) {
        int fl = s.szl(1, confs > 3 ? 30 : 120, 30, confs > 3 ? 30 : 5000), hop = s.chance(4) ? s.i(1, 2 * fl + 3) : s.sz(1, fl);
        f.configure(fl, hop); s.note("configure(%d,%d)", fl, hop);
        int srcs = confs > 3 ? s.i(1, 2) : s.hist(1, 2, 4e5, 25, 60);
        for (int q = 0; q < srcs; ++q) {
            int n = confs > 3 || srcs > 2 ? s.sz(1, 80) : s.szl(1, 500, 25, 40000); V x(n); for (int i = 0; i < n; ++i) x[i] = 100000 * (c * 100 + q + 1) + i + 0.5;
            DBuf src(x); f.setSource(src, n); s.note("source of %d", n);
            if (q > 0) f.resetCounters();
            int total = (n + hop - 1) / hop;
            REQUIRE(f.getMaxNoFrames() == total, "announces %d frames for %d samples at hop %d, expected %d", f.getMaxNoFrames(), n, hop, total);
            int passes = s.i(1, 2);
            for (int ps = 0; ps < passes; ++ps) {
                int upto = s.chance(3) ? s.i(0, total) : total;
                for (int k = 0; k < upto; ++k) {
                    DBuf d(fl, 7e7); f.getFrame(d);
                    for (int i = 0; i < fl; ++i) { long at = long(k) * hop + i; double w = at < n ? x[at] : 0.0;
                        REQUIRE(d[i] == w, "frame %d (length %d, hop %d, source %d) sample %d is %g, expected %g", k, fl, hop, n, i, d[i], w); }
                }
                s.nontrivial(upto > 1);
                f.resetCounters(); s.note("read %d, reset", upto);
            }
            sameBits("source after framing", src.vec(), x);
            // the source goes away here: a new one is set before reading again
        }
    }
}

// ------------------------------------------------------------------ C17
SUB(C17, pipeline, 4000, "length > 4 with non-constant input; up to 3 inputs through one object against the minimum/alpha-norm/filtfilt/median reference") {
    DFProcConfig cf; Coefs c = makeCoefs(s, s.sz(1, 4), false);
    int order = int(c.b.size()) - 1;
    DBuf A(c.a), B(c.b);
    cf.LPOrd = order; cf.LPACoeffs = A; cf.LPBCoeffs = B;
    int wpre = s.szl(0, 20, 20, 150), wpost = s.szl(0, 20, 20, 150); if (s.chance(6)) wpre = wpost = 0; if (wpre) cf.winPre = wpre; if (wpost) cf.winPost = wpost;   // what equals the documented default is left alone
    cf.length = s.chance(5) ? s.i(1, 45) : s.szl(1, 400, 60, 5000);
    int alpha = s.pick<int>({1, 2, 3, 9, 4}); cf.AlphaNormParam = alpha;
    bool pos = s.b(); float delta = s.b() ? 0.f : float(s.uni(-0.5, 1)); if (pos) cf.isMedianPositive = pos; if (delta) cf.delta = delta;
    int n = cf.length;
    s.note("n=%d order=%d pre=%d post=%d alpha=%d positive=%d delta=%g", n, order, wpre, wpost, alpha, pos, delta);
    DFProcess dp(cf);
    int calls = s.hist(1, 3, 60.0 * n * (wpre + wpost + 2), 25, 100);
    for (int k = 0; k < calls; ++k) {
        V x = s.b() ? signal(s, n, s.pick<double>({1, 50})) : values(s, n, 10, "df");
        bool zero = maxabs(x) == 0;
        if (!zero && s.b()) for (auto &v : x) v = std::fabs(v);
        DBuf in(x), out(n, 77.0);
        dp.process(in, out);
        sameBits("detection function after the call", in.vec(), x);
        double mn = x[0]; long double an = 0; for (double v : x) { mn = std::min(mn, v); an += powl(std::fabs(v), alpha); }
        double nrm = double(powl(an / n, 1.0L / alpha));
        if (zero) nrm = 1; else if (!(nrm > 1e-200)) continue;
        V y(n); for (int i = 0; i < n; ++i) y[i] = (x[i] - mn) / nrm;
        V fl = refFiltFilt(c.a, c.b, y), want(n);
        double tol = c.gain * c.gain * 1e-11 * (maxabs(fl) + maxabs(y) + 1);
        for (int i = 0; i < n; ++i) {
            int lo = std::max(0, i - wpre), hi = std::min(n, i + wpost + 1);
            double v = fl[i] - ref::median(V(fl.begin() + lo, fl.begin() + hi)) - double(delta);
            want[i] = pos ? (v > 0 ? v : 0) : v;
        }
        same(k ? "smoothed function of a later input" : "smoothed function", out.vec(), want, tol + 1e-12);
        s.nontrivial(n > 4 && maxabs(want) > 0);
    }
}
