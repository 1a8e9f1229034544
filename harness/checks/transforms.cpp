// C01 complex FFT, C02 real FFT, C03 DCT
#include "pbt.hpp"
#include <stdexcept>
#include "ref.hpp"
#include "dsp/transforms/FFT.h"
#include "dsp/transforms/DCT.h"
using namespace pbt;

static int fftSize(Src &s, bool even) {
    int n;
    switch (s.draw(7)) {
    case 0: case 1: case 2: n = s.sz(1, 200); break;
    case 3: n = s.i(1, 64) * s.pick<int>({1, 2, 3, 4, 5, 7, 8, 11, 13, 16}); break;
    case 4: n = s.pick<int>({256, 512, 1024, 243, 625, 343, 121, 169, 509, 127, 360, 480, 500, 1000, 729, 2048}); break;
    case 5: n = s.i(1, 1300); break;
    default: { n = 1; int k = s.i(0, 5); for (int i = 0; i < k; ++i) n *= s.pick<int>({2, 3, 4, 5, 6, 7}); if (n > 5000) n = n % 5000 + 1; } break;
    }
    if (even && (n & 1)) n += 1;
    return n;
}
static std::vector<int> spots(Src &s, int n, int maxn) {   // bins to verify
    std::vector<int> b;
    if (n <= 128) for (int i = 0; i < n; ++i) b.push_back(i);
    else { b = {0, 1, 2, n / 2 - 1, n / 2, (n + 1) / 2, n - 2, n - 1, n / 3, n / 4}; Rng r(s.seed()); for (int i = 0; i < maxn; ++i) b.push_back(r.i(0, n - 1)); }
    return b;
}
static double sumabs(const std::vector<double> &a, const std::vector<double> &b) {
    double t = 0; for (double x : a) t += std::fabs(x); for (double x : b) t += std::fabs(x); return t;
}
static std::vector<double> arr(Src &s, int n, const char *nm) { 
    double amp = s.pick<double>({1, 1, 100, 1e-6, 1e8});
    return s.b() ? signal(s, n, amp, nm) : values(s, n, amp, nm); }

static void checkDft(Src &s, FFT &f, int n, bool inv) {
    std::vector<double> re = arr(s, n, "re"), im = arr(s, n, "im");
    bool noImag = s.chance(3);
    if (noImag) for (auto &x : im) x = 0;
    DBuf ri(re), ii(im), ro(n, 777.0), io(n, -777.0);
    f.process(inv, ri, noImag ? nullptr : (double *)ii, ro, io);
    sameBits("real input after the call", ri.vec(), re);
    sameBits("imaginary input after the call", ii.vec(), im);
    double tol = 1e-12 * (sumabs(re, im)) + 1e-300; if (inv) tol /= n;
    for (int k : spots(s, n, 24)) {
        double wr, wi; ref::dftBin(re, im, k, inv, wr, wi);
        if (inv) { wr /= n; wi /= n; }
        REQUIRE(close(ro[k], wr, tol) && close(io[k], wi, tol), "%s transform of size %d bin %d is (%.15g,%.15g), DFT gives (%.15g,%.15g) tol %.2g",
                inv ? "inverse" : "forward", n, k, ro[k], io[k], wr, wi, tol);
    }
    // round trip through the other direction
    DBuf r2(n), i2(n);
    f.process(!inv, ro, io, r2, i2);
    double sc = inv ? 1.0 : 1.0; (void)sc;
    double rt = 1e-12 * (maxabs(re) + maxabs(im)) * (4 + std::log2(n + 1.0)) * std::sqrt(double(n)) + 1e-300;
    same("round trip (real part)", r2.vec(), re, rt);
    same("round trip (imaginary part)", i2.vec(), im, rt);
    s.nontrivial(n > 1 && (maxabs(re) > 0 || maxabs(im) > 0));
}

SUB(C01, dft, 5000, "size > 1 and some input non-zero; both directions against a naive DFT and the round trip, up to 5 calls per object") {
    int n = fftSize(s, false); s.note("n=%d", n);
    FFT f(n);
    int calls = s.hist(1, 4, 2.0 * n * n);
    for (int c = 0; c < calls; ++c) { bool inv = s.b(); s.note("%s", inv ? "inverse" : "forward"); checkDft(s, f, n, inv); }
}
SUB(C01, large, 160, "sizes up to 70000 with large prime factors or many small ones; spot bins against a naive DFT") {
    int n = s.pick<int>({4096, 8192, 16384, 65536, 4099, 2 * 1999, 3 * 1009, 10000, 11025, 44100 / 4, 2 * 3 * 5 * 7 * 11, 6561, 15625, 16807, 5040, 30030, 48000, 2003});
    if (n < 6000 && s.chance(3)) n += s.i(0, 50);
    s.note("n=%d", n);
    FFT f(n); checkDft(s, f, n, s.b());
}
SUB(C01, noimag, 1500, "size > 1: transform without imaginary input compared with explicit zeros after unrelated complex calls on the same object, and two objects compared") {
    int n = fftSize(s, false); if (n > 1200) n = 1200; s.note("n=%d", n);
    FFT f(n), g(n);
    int pre = s.hist(0, 3, 20.0 * n);
    for (int c = 0; c < pre; ++c) { DBuf a(arr(s, n, "a")), b(arr(s, n, "b")), o(n), p(n); f.process(s.b(), a, b, o, p); }
    std::vector<double> re = arr(s, n, "re"); bool inv = s.b(); s.note("inv=%d", inv);
    DBuf ri(re), z(n, 0.0), o1(n, 5), p1(n, 5), o2(n, 6), p2(n, 6);
    f.process(inv, ri, nullptr, o1, p1); g.process(inv, ri, z, o2, p2);
    double tol = 1e-13 * (sumabs(re, re) + 1e-300);
    same("without imaginary input (real)", o1.vec(), o2.vec(), tol);
    same("without imaginary input (imag)", p1.vec(), p2.vec(), tol);
    s.nontrivial(n > 1 && maxabs(re) > 0);
}

// ------------------------------------------------------------------ C02
SUB(C02, real, 5000, "size >= 4 and non-zero input; sequences of forward, magnitude and inverse calls on one object against naive DFTs, redundant bins filled with junk") {
    int n = fftSize(s, true); s.note("n=%d", n);
    FFTReal f(n);
    int calls = s.hist(1, 5, 1.0 * n * n);
    for (int c = 0; c < calls; ++c) {
        int op = int(s.draw(3));
        if (op < 2) {
            std::vector<double> x = arr(s, n, op ? "magnitude of" : "forward of");
            DBuf in(x), re(n, 99), im(n, 99);
            double tol = 1e-12 * sumabs(x, {}) + 1e-300;
            std::vector<double> z(n, 0.0);
            if (op == 0) {
                f.forward(in, re, im);
                for (int k : spots(s, n, 20)) {
                    double wr, wi; ref::dftBin(x, z, k, false, wr, wi);
                    REQUIRE(close(re[k], wr, tol) && close(im[k], wi, tol), "real forward of size %d bin %d is (%.15g,%.15g), DFT gives (%.15g,%.15g)", n, k, re[k], im[k], wr, wi);
                }
                for (int k = 1; k < n; ++k) REQUIRE(re[k] == re[n - k] && im[k] == -im[n - k], "bins %d and %d of a size %d real transform are not conjugate", k, n - k, n);
                REQUIRE(std::fabs(im[0]) <= tol && std::fabs(im[n / 2]) <= tol, "DC or Nyquist bin of a real transform has an imaginary part");
                // inverse restores
                DBuf back(n, 42);
                for (int k = n / 2 + 1; k < n; ++k) { re[k] = 1e7; im[k] = -3e7; }
                f.inverse(re, im, back);
                same("inverse of forward", back.vec(), x, 1e-12 * maxabs(x) * (4 + std::log2(n + 1.0)) * std::sqrt(double(n)) + 1e-300);
            } else {
                f.forwardMagnitude(in, re);
                for (int k : spots(s, n, 20)) {
                    double wr, wi; ref::dftBin(x, z, k, false, wr, wi);
                    REQUIRE(close(re[k], std::hypot(wr, wi), 2 * tol), "magnitude of size %d bin %d is %.15g, DFT gives %.15g", n, k, re[k], std::hypot(wr, wi));
                }
                for (int k = 1; k < n; ++k) REQUIRE(re[k] == re[n - k], "magnitudes of bins %d and %d differ", k, n - k);
            }
            sameBits("input after the call", in.vec(), x);
            s.nontrivial(n >= 4 && maxabs(x) > 0);
        } else {
            int h = n / 2 + 1;
            std::vector<double> re = arr(s, h, "re"), im = arr(s, h, "im");
            im[0] = 0; im[h - 1] = 0;
            bool exact = s.b();      // buffers of exactly n/2+1, or n with junk
            std::vector<double> R = re, I = im;
            if (!exact) { double j1 = s.pick<double>({0.0, 1e6, -1e12}); R.resize(n, j1); I.resize(n, -2 * j1 + 1); }
            DBuf ri(R), ii(I), out(n, 31);
            f.inverse(ri, ii, out);
            sameBits("spectrum after the inverse", ri.vec(), R); sameBits("spectrum after the inverse (imag)", ii.vec(), I);
            std::vector<double> fr(n), fi(n);
            for (int k = 0; k < h; ++k) { fr[k] = re[k]; fi[k] = im[k]; }
            for (int k = h; k < n; ++k) { fr[k] = re[n - k]; fi[k] = -im[n - k]; }
            double tol = 1e-12 * sumabs(re, im) / n * 2 + 1e-300;
            for (int k : spots(s, n, 20)) {
                double wr, wi; ref::dftBin(fr, fi, k, true, wr, wi); wr /= n;
                REQUIRE(close(out[k], wr, tol), "real inverse of size %d sample %d is %.15g, expected %.15g", n, k, out[k], wr);
            }
            s.nontrivial(n >= 4 && maxabs(re) > 0);
        }
    }
}
SUB(C02, large, 100, "sizes up to 65536; spot bins, conjugate symmetry and round trip") {
    int n = s.pick<int>({4096, 8192, 16384, 32768, 65536, 2 * 4099, 10000, 44100, 30030, 6 * 1009, 2 * 2187}); s.note("n=%d", n);
    FFTReal f(n); std::vector<double> x = signal(s, n, 1.0), z(n, 0.0);
    DBuf in(x), re(n), im(n), mg(n), back(n);
    f.forward(in, re, im); f.forwardMagnitude(in, mg); f.inverse(re, im, back);
    double tol = 1e-12 * sumabs(x, {}) + 1e-300;
    for (int k : spots(s, n, 12)) { double wr, wi; ref::dftBin(x, z, k, false, wr, wi);
        REQUIRE(close(re[k], wr, tol) && close(im[k], wi, tol), "real forward of size %d bin %d is (%.15g,%.15g), DFT (%.15g,%.15g)", n, k, re[k], im[k], wr, wi);
        REQUIRE(close(mg[k], std::hypot(wr, wi), 2 * tol), "magnitude of size %d bin %d is %.15g, DFT %.15g", n, k, mg[k], std::hypot(wr, wi)); }
    for (int k = 1; k < n; ++k) REQUIRE(re[k] == re[n - k] && im[k] == -im[n - k] && mg[k] == mg[n - k], "bins %d and %d of a size %d real transform are not conjugate", k, n - k, n);
    same("inverse of forward", back.vec(), x, 1e-10 * (maxabs(x) + 1e-300));
    s.nontrivial(maxabs(x) > 0);
}
SUB(C02, odd, 400, "every odd size must be refused with an invalid-argument exception") {
    int n = 2 * s.sz(0, 40000) + 1; s.note("n=%d", n);
    bool thrown = false;
    try { FFTReal f(n); } catch (std::invalid_argument &) { thrown = true; }
    REQUIRE(thrown, "constructing a real transform of odd size %d did not raise invalid_argument", n);
    s.nontrivial();
}

// ------------------------------------------------------------------ C03
SUB(C03, dct, 5000, "n > 1 and non-zero input; sequences of the four operations on one object against direct cosine sums and inverses") {
    int n;
    switch (s.draw(4)) { case 0: case 1: n = s.sz(1, 90); break; case 2: n = s.i(1, 150); break; default: n = s.pick<int>({128, 256, 243, 500, 199, 512, 1000}); }
    s.note("n=%d", n);
    DCT d(n);
    auto dct2 = [&](const std::vector<double> &x, int k) { long double t = 0; for (int i = 0; i < n; ++i) t += x[i] * cosl(M_PIl * (i + 0.5L) * k / n); return double(t); };
    int calls = s.hist(1, 6, 10.0 * n * std::min(n, 20));
    for (int c = 0; c < calls; ++c) {
        std::vector<double> x = arr(s, n, "x"); DBuf in(x), out(n, 12.5), back(n, 3.25);
        int op = int(s.draw(4));
        double sa = sumabs(x, {}), tol = 1e-12 * 4 * sa + 1e-300, rt = 2e-12 * (maxabs(x) * std::sqrt(double(n))) * (4 + std::log2(n + 1.0)) + 1e-300;
        std::vector<int> ks = spots(s, n, 16);
        if (op == 0) {
            s.note("forward"); d.forward(in, out);
            for (int k : ks) { double w = 2 * dct2(x, k); REQUIRE(close(out[k], w, tol), "DCT-II of size %d, coefficient %d is %.15g, definition gives %.15g", n, k, out[k], w); }
            d.inverse(out, back); same("inverse of forward DCT", back.vec(), x, rt);
        } else if (op == 1) {
            s.note("forwardUnitary"); d.forwardUnitary(in, out);
            double e1 = 0, e2 = 0;
            for (int k : ks) { double w = dct2(x, k) * std::sqrt((k ? 2.0 : 1.0) / n); REQUIRE(close(out[k], w, tol), "unitary DCT-II of size %d, coefficient %d is %.15g, definition gives %.15g", n, k, out[k], w); }
            for (int k = 0; k < n; ++k) { e1 += x[k] * x[k]; e2 += out[k] * out[k]; }
            REQUIRE(close(e1, e2, 1e-10 * e1 + 1e-300), "unitary DCT of size %d changes the energy from %.15g to %.15g", n, e1, e2);
            d.inverseUnitary(out, back); same("inverse of unitary forward DCT", back.vec(), x, rt);
        } else {
            // inverse of arbitrary coefficients: forward must bring them back, and the definition of DCT-III
            bool u = op == 3; s.note(u ? "inverseUnitary" : "inverse");
            if (u) d.inverseUnitary(in, out); else d.inverse(in, out);
            for (int j : ks) {
                long double t = 0;
                for (int k = 0; k < n; ++k) { long double cs = cosl(M_PIl * (j + 0.5L) * k / n);
                    if (u) t += x[k] * sqrtl((k ? 2.0L : 1.0L) / n) * cs; else t += x[k] * (k ? 1.0L : 0.5L) * cs / n; }
                REQUIRE(close(out[j], double(t), tol), "%sDCT-III of size %d, sample %d is %.15g, definition gives %.15g", u ? "unitary " : "", n, j, out[j], double(t));
            }
            if (u) d.forwardUnitary(out, back); else d.forward(out, back);
            same(u ? "unitary forward of inverse DCT" : "forward of inverse DCT", back.vec(), x, 4 * rt);
        }
        sameBits("input after the call", in.vec(), x);
        s.nontrivial(n > 1 && maxabs(x) > 0);
    }
}
