// C05 windows, C06 Kaiser and sinc windows
#include "pbt.hpp"
#include <memory>
#include "base/Window.h"
#include "base/KaiserWindow.h"
#include "base/SincWindow.h"
using namespace pbt;

static std::vector<double> refWindow(WindowType t, int n) {
    std::vector<double> w(n, 1.0);
    if (t == RectangularWindow) { for (auto &x : w) x = 0.5; return w; }
    if (n == 1) return w;
    if (t == BartlettWindow) {
        if (n == 2) return {0, 0};
        if (n == 3) return {0, 2. / 3, 2. / 3};
        int h = n / 2;
        for (int i = 0; i < h; ++i) { w[i] = double(i) / h; w[n - h + i] = 1 - double(i) / h; }
        return w;
    }
    for (int i = 0; i < n; ++i) {
        double c1 = std::cos(2 * M_PI * i / n), c2 = std::cos(2 * M_PI * ((2LL * i) % n) / n), c3 = std::cos(2 * M_PI * ((3LL * i) % n) / n);
        switch (t) {
        case HammingWindow: w[i] = 0.54 - 0.46 * c1; break;
        case HanningWindow: w[i] = 0.5 - 0.5 * c1; break;
        case BlackmanWindow: w[i] = 0.42 - 0.5 * c1 + 0.08 * c2; break;
        case BlackmanHarrisWindow: w[i] = 0.35875 - 0.48829 * c1 + 0.14128 * c2 - 0.01168 * c3; break;
        default: break;
        }
    }
    return w;
}
static int winSize(Src &s) { return s.chance(12) ? s.pick<int>({1023, 1024, 2048, 4096, 4095, 16384, 8191}) : s.sz(1, 700); }

template <typename T> static void checkWindow(const char *what, const Window<T> &w, WindowType t, int n, Src &s) {
    REQUIRE(w.getType() == t && w.getSize() == n, "%s: reports type %d size %d, expected %d, %d", what, w.getType(), w.getSize(), t, n);
    std::vector<double> want = refWindow(t, n);
    double tol = sizeof(T) == 4 ? 1e-6 : 1e-12;
    std::vector<T> d = w.getWindowData();
    same(what, std::vector<double>(d.begin(), d.end()), want, tol);
    Rng r(s.seed());
    // exactly sized source, longer destination with a guard
    Buf<T> src(n), dst(n + 2, T(123));
    std::vector<T> sv(n);
    for (int i = 0; i < n; ++i) src[i] = sv[i] = T(r.sym() * 10);
    w.cut(src, dst);
    for (int i = 0; i < n; ++i) {
        REQUIRE(src[i] == sv[i], "%s: windowing changed its input at %d", what, i);
        REQUIRE(close(dst[i], sv[i] * want[i], 20 * tol), "%s: windowed sample %d of %d is %g, expected %g*%g", what, i, n, double(dst[i]), double(sv[i]), want[i]);
    }
    REQUIRE(dst[n] == T(123) && dst[n + 1] == T(123), "%s: windowing wrote past its size %d", what, n);
    w.cut(src);
    for (int i = 0; i < n; ++i) REQUIRE(close(src[i], sv[i] * want[i], 20 * tol), "%s: in-place windowed sample %d of %d is %g, expected %g", what, i, n, double(src[i]), double(sv[i]) * want[i]);
}
template <typename T> static void windowHistory(Src &s) {
    struct M { std::unique_ptr<Window<T>> w; WindowType t; int n; };
    std::vector<M> ws;
    int ops = s.hist(1, 8, 5e3, 25, 60);
    for (int k = 0; k < ops; ++k) {
        int op = ws.empty() ? 0 : int(s.draw(5));
        if (op == 0 || op == 4) {
            M m; m.t = WindowType(s.i(FirstWindow, LastWindow)); m.n = winSize(s);
            m.w.reset(new Window<T>(m.t, m.n)); s.note("new type %d size %d", m.t, m.n);
            ws.push_back(std::move(m));
        } else {
            size_t a = s.draw(ws.size()), b = s.draw(ws.size());
            if (op == 1) { M m; m.t = ws[a].t; m.n = ws[a].n; m.w.reset(new Window<T>(*ws[a].w)); s.note("copy %zu", a); ws.push_back(std::move(m)); }
            else if (op == 2) { *ws[b].w = *ws[a].w; ws[b].t = ws[a].t; ws[b].n = ws[a].n; s.note("assign %zu=%zu", b, a); if (a != b) s.nontrivial(); }
            else { s.note("destroy %zu", a); ws.erase(ws.begin() + a); if (ws.empty()) continue; }
        }
        for (auto &m : ws) checkWindow(k ? "window after a history" : "window", *m.w, m.t, m.n, s);
        s.nontrivial(!ws.empty() && ws.back().n > 1);
    }
}
SUB(C05, shapes, 3000, "size > 1: formula of the type, application in place and out of place, after construction, copy, assignment and destruction (double)") { windowHistory<double>(s); }
SUB(C05, shapesf, 1500, "size > 1, single precision") { windowHistory<float>(s); }
SUB(C05, exhaustive, 400, "every type at one size, sizes enumerated by case") {
    int n = s.i(1, 400); s.note("n=%d", n);
    for (int t = FirstWindow; t <= LastWindow; ++t) { Window<double> w(WindowType(t), n); checkWindow("window", w, WindowType(t), n, s); }
    s.nontrivial(n > 1);
}

// ------------------------------------------------------------------ C06
template <typename W> static void checkCut(const W &w, const std::vector<double> &want, Src &s, double tol) {
    int n = int(want.size()); Rng r(s.seed());
    DBuf src(n), dst(n + 1, 55.0); std::vector<double> sv(n);
    for (int i = 0; i < n; ++i) src[i] = sv[i] = r.sym() * 5;
    w.cut(src, dst);
    sameBits("input of windowing", src.vec(), sv);
    for (int i = 0; i < n; ++i) REQUIRE(close(dst[i], sv[i] * want[i], 5 * tol), "windowed sample %d is %.15g, expected %.15g", i, dst[i], sv[i] * want[i]);
    REQUIRE(dst[n] == 55.0, "windowing wrote past its length");
    w.cut(src);
    for (int i = 0; i < n; ++i) REQUIRE(close(src[i], sv[i] * want[i], 5 * tol), "in-place windowed sample %d is %.15g, expected %.15g", i, src[i], sv[i] * want[i]);
}
static void checkKaiser(const KaiserWindow &w, int len, double beta, Src &s) {
    REQUIRE(w.getLength() == len, "Kaiser window length %d, expected %d", w.getLength(), len);
    std::vector<double> want(len, 1.0), got(w.getWindow(), w.getWindow() + len);
    double den = std::cyl_bessel_i(0.0, beta);
    for (int i = 0; i < len && len > 1; ++i) { double t = 2.0 * i / (len - 1) - 1; double q = 1 - t * t; if (q < 0) q = 0; want[i] = std::cyl_bessel_i(0.0, beta * std::sqrt(q)) / den; }
    same("Kaiser window", got, want, 1e-9);
    for (int i = 0; i < len / 2; ++i) REQUIRE(got[i] == got[len - 1 - i] || close(got[i], got[len - 1 - i], 1e-12), "Kaiser window of length %d is not symmetric at %d", len, i);
    for (int i = 1; i <= (len - 1) / 2; ++i) REQUIRE(got[i] >= got[i - 1] - 1e-12, "Kaiser window falls before its middle at %d of %d", i, len);
    checkCut(w, want, s, 1e-9);
}
SUB(C06, kaiser, 3000, "length > 2 and beta > 0: values against an independent Bessel function, symmetry, monotonicity, application") {
    KaiserWindow::Parameters p; p.length = s.sz(1, 900); p.beta = s.chance(6) ? 0 : s.uni(0, 30);
    s.note("length=%d beta=%g", p.length, p.beta);
    KaiserWindow w(p); checkKaiser(w, p.length, p.beta, s);
    KaiserWindow c(w); checkKaiser(c, p.length, p.beta, s);
    s.nontrivial(p.length > 2 && p.beta > 0);
}
SUB(C06, design, 3000, "attenuation and transition width or bandwidth and rate, both branches of each design formula") {
    double att = s.pick<double>({0, 0, 0, 21, 50, 8, 100}); if (att == 0) att = s.uni(5, 160); else if (s.b()) att += s.uni(-0.5, 0.5);
    bool bw = s.b(); double width, bandw = 0, rate = 0;
    if (bw) { rate = s.pick<double>({8000, 11025, 44100, 48000, 96000, 1, 2}); bandw = rate * s.logu(0.002, 0.4); width = bandw * 2 * M_PI / rate; }
    else width = s.logu(0.02, 2.5);
    s.note("attenuation=%g %s width=%g", att, bw ? "bandwidth" : "transition", width);
    KaiserWindow::Parameters p = bw ? KaiserWindow::parametersForBandwidth(att, bandw, rate) : KaiserWindow::parametersForTransitionWidth(att, width);
    double x = att > 21 ? (att - 7.95) / (2.285 * width) : 5.79 / width;
    double beta = att > 50 ? 0.1102 * (att - 8.7) : att > 21 ? 0.5842 * std::pow(att - 21, 0.4) + 0.07886 * (att - 21) : 0;
    int l1 = 1 + int(std::ceil(x - 1e-9 * x)), l2 = 1 + int(std::ceil(x + 1e-9 * x));   // ties may round either way
    REQUIRE(p.length == l1 || p.length == l2, "length %d for attenuation %g and width %g, design formula gives %d", p.length, att, width, l1);
    REQUIRE(close(p.beta, beta, 1e-9), "beta %.12g for attenuation %g, design formula gives %.12g", p.beta, att, beta);
    if (bw) { KaiserWindow w = KaiserWindow::byBandwidth(att, bandw, rate); checkKaiser(w, p.length, p.beta, s); }
    else { KaiserWindow w = KaiserWindow::byTransitionWidth(att, width); checkKaiser(w, p.length, p.beta, s); }
    s.nontrivial(p.length > 2);
}
SUB(C06, sinc, 3000, "length > 2: values, peak position, zero crossings and application") {
    int n = s.chance(60) ? 0 : s.sz(1, 1200); double p = s.b() ? s.i(1, 200) : s.logu(0.5, 2000);
    s.note("length=%d period=%g", n, p);
    SincWindow w(n, p);
    REQUIRE(w.getLength() == n, "sinc window length %d, expected %d", w.getLength(), n);
    std::vector<double> want(n), got(w.getWindow(), w.getWindow() + n);
    int c = n / 2;
    for (int i = 0; i < n; ++i) { double x = std::fabs(double(i - c)) * 2 * M_PI / p; want[i] = i == c ? 1.0 : std::sin(x) / x; }
    same("sinc window", got, want, 1e-9);
    checkCut(w, want, s, 1e-9);
    s.nontrivial(n > 2);
}
