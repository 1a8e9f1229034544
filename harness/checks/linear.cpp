// C27 distances, C29 PCA, C30 tonal
#include "pbt.hpp"
#include "ref.hpp"
#include "maths/CosineDistance.h"
#include "maths/KLDivergence.h"
#include "maths/Correlation.h"
#include "maths/MathAliases.h"
#include "maths/pca/pca.h"
#include "dsp/rhythm/BeatSpectrum.h"
#include "dsp/tonal/TonalEstimator.h"
#include "dsp/tonal/TCSgram.h"
#include "dsp/tonal/ChangeDetectionFunction.h"
#include <fcntl.h>
#include <unistd.h>
using namespace pbt;
typedef std::vector<double> V;

struct Hush { int saved; Hush() { fflush(stderr); saved = dup(2); int z = open("/dev/null", O_WRONLY); dup2(z, 2); close(z); } ~Hush() { dup2(saved, 2); close(saved); } };
static double cosdist(const V &a, const V &b) { long double s = 0, x = 0, y = 0; for (size_t i = 0; i < a.size(); ++i) { s += (long double)a[i] * b[i]; x += (long double)a[i] * a[i]; y += (long double)b[i] * b[i]; } return double(1 - s / (std::sqrt(x * y) + 1e-20L)); }

// ------------------------------------------------------------------ C27
SUB(C27, cosine, 2000, "two vectors neither of which is zero; several pairs through one object") {
    CosineDistance cd; int calls = s.hist(1, 3, 1e4, 25, 150);
    for (int c = 0; c < calls; ++c) {
        int n = calls > 3 ? s.i(0, 8) : s.szl(0, 60, 40, 3000); V a = values(s, n, 100, "a"), b = values(s, n, 100, "b");
        if (s.chance(4)) { double k = s.val(4); for (int i = 0; i < n; ++i) b[i] = k * a[i]; s.note("b = %g a", k); }
        if (s.chance(12)) { V l = a; l.resize(n + s.i(1, 3), s.val(2)); Hush q; REQUIRE(cd.distance(l, a) == 1 && cd.distance(a, l) == 1, "vectors of %zu and %d values: distance %g", l.size(), n, cd.distance(l, a)); }
        V a0 = a, b0 = b; double d = cd.distance(a, b), e = cd.distance(b, a); sameBits("first", a, a0); sameBits("second", b, b0);
        double na = 0, nb = 0; for (int i = 0; i < n; ++i) { na += a[i] * a[i]; nb += b[i] * b[i]; }
        if (na * nb > 0 && na * nb < 1e-20) continue;             // the documented regularisation shows
        REQUIRE(close(d, cosdist(a, b), 1e-9), "distance %.12g, expected %.12g", d, cosdist(a, b));
        REQUIRE(close(d, e, 1e-12), "distance is %.12g one way and %.12g the other", d, e);
        REQUIRE(d >= -1e-9 && d <= 2 + 1e-9, "distance %.12g", d);
        if (na > 1e-9) REQUIRE(close(cd.distance(a, a), 0, 1e-9), "distance of a vector from itself is %g", cd.distance(a, a));
        s.nontrivial(na > 0 && nb > 0);
    }
}
SUB(C27, divergence, 3000, "two different distributions or models of one or more dimensions; definition, symmetry, zero and finiteness") {
    KLDivergence kl; int rounds = s.hist(1, 2, 1e4, 25, 150); bool any = false;
    for (int round = 0; round < rounds; ++round) {
    int n = rounds > 2 ? s.i(0, 5) : s.szl(0, 40, 40, 2000);
    if (s.b()) {
        double S = s.chance(3) ? s.pick<double>({1e-8, 1e-4, 1e6, 1e-6, 1e10}) : 1; V m1 = values(s, n, 10 * std::sqrt(S), "m1"), m2 = values(s, n, 10 * std::sqrt(S), "m2"), v1(n), v2(n); for (int i = 0; i < n; ++i) { v1[i] = S * s.logu(1e-3, 1e3); v2[i] = S * s.logu(1e-3, 1e3); }
        if (s.chance(5)) { m2 = m1; v2 = v1; } s.notev("v1", v1); s.notev("v2", v2);
        V k1 = m1, k2 = m2, k3 = v1, k4 = v2; double d = kl.distanceGaussian(m1, v1, m2, v2), e = kl.distanceGaussian(m2, v2, m1, v1);
        sameBits("means", m1, k1); sameBits("means", m2, k2); sameBits("variances", v1, k3); sameBits("variances", v2, k4);
        double w = 0, sc = n, guard = 0; for (int i = 0; i < n; ++i) { double dm = m1[i] - m2[i], t = 0.5 * (v1[i] / v2[i] + v2[i] / v1[i] - 2) + 0.5 * dm * dm * (1 / v1[i] + 1 / v2[i]); w += t; sc += std::fabs(t) + v1[i] / v2[i] + v2[i] / v1[i]; guard += 1e-19 * (std::fabs(dm) * (1 / v1[i] + 1 / v2[i]) + (1 + std::fabs(t)) * (1 / v1[i] + 1 / v2[i]) * (v1[i] / v2[i] + v2[i] / v1[i])); }
        sc += guard * 1e11;
        REQUIRE(close(d, w, 1e-11 * sc), "divergence %.12g, expected %.12g", d, w); REQUIRE(close(d, e, 1e-11 * sc), "divergence %.12g one way, %.12g the other", d, e);
        REQUIRE(d >= -1e-11 * sc, "negative divergence %g", d); REQUIRE(close(kl.distanceGaussian(m1, v1, m1, v1), 0, 1e-11 * sc), "divergence from itself");
        any |= n > 0 && w > 0;
    } else {
        V a(n), b(n); double sa = 0, sb = 0; for (int i = 0; i < n; ++i) { a[i] = s.chance(4) ? 0 : s.unit() + 1e-6; b[i] = s.chance(4) ? 0 : s.unit() + 1e-6; sa += a[i]; sb += b[i]; }
        for (int i = 0; i < n; ++i) { if (sa > 0) a[i] /= sa; if (sb > 0) b[i] /= sb; }
        if (s.chance(6)) b = a; s.notev("a", a); s.notev("b", b);
        V a0 = a, b0 = b; double d = kl.distanceDistribution(a, b, false), e = kl.distanceDistribution(b, a, false), f = kl.distanceDistribution(a, b, true), g = kl.distanceDistribution(b, a, true);
        sameBits("first", a, a0); sameBits("second", b, b0);
        double w = 0, u = 0; for (int i = 0; i < n; ++i) { w += a[i] * std::log10((a[i] + 1e-20) / (b[i] + 1e-20)); u += b[i] * std::log10((b[i] + 1e-20) / (a[i] + 1e-20)); }
        double tol = 1e-10 * (1 + std::fabs(w) + std::fabs(u));
        REQUIRE(std::isfinite(d) && std::isfinite(f), "divergence not finite"); REQUIRE(close(d, w, tol), "divergence %.12g, expected %.12g", d, w); REQUIRE(close(e, u, tol), "divergence %.12g, expected %.12g", e, u);
        REQUIRE(close(f, w + u, tol), "symmetrised divergence %.12g, expected %.12g", f, w + u); REQUIRE(close(f, g, tol), "symmetrised divergence %.12g one way, %.12g the other", f, g);
        REQUIRE(f >= -tol, "negative symmetrised divergence %g", f); REQUIRE(close(kl.distanceDistribution(a, a, true), 0, 1e-12), "divergence from itself");
        any |= n > 1 && f > 1e-6;
    } }
    s.nontrivial(any);
}
SUB(C27, autocorrelation, 1500, "two or more samples, not all zero") {
    Correlation c; int rounds = s.hist(1, 2, 1e4, 25, 150); bool any = false;
    for (int round = 0; round < rounds; ++round) {
    int n = rounds > 2 ? s.i(0, 20) : s.szl(0, 200, 80, 2000); V x = s.b() ? values(s, n, 10) : signal(s, n); DBuf in(x), out(n, -7.0); c.doAutoUnBiased(in, out, n);
    sameBits("input", in.vec(), x); double e = 0; for (double v : x) e += v * v;
    for (int lag = 0; lag < n; ++lag) {
        long double t = 0; for (int i = 0; i + lag < n; ++i) t += (long double)x[i] * x[i + lag]; double w = double(t / (n - lag)), tol = 1e-12 * e + 3e-16;
        REQUIRE(out[lag] > 0, "autocorrelation at lag %d is %g", lag, out[lag]);
        REQUIRE(close(out[lag], w > 0 ? w : 0, tol), "autocorrelation at lag %d is %.12g, expected %.12g", lag, out[lag], w);
    }
    any |= n > 1 && e > 0; }
    s.nontrivial(any);
}
SUB(C27, beat_spectrum, 600, "four or more rows that differ") {
    BeatSpectrum b; int rounds = s.hist(1, 2, 1e4, 25, 100); bool any = false;
    for (int round = 0; round < rounds; ++round) {
    int rows = rounds > 2 ? s.i(0, 14) : s.szl(0, 40, 40, 1000), dim = s.szl(1, 8, 40, 60); std::vector<V> m(rows); int per = s.sz(1, 8);
    for (int i = 0; i < rows; ++i) m[i] = i >= per && s.chance(2) ? m[i - per] : values(s, dim, 5, "row");
    if (s.chance(8)) for (int i = 1; i < rows; ++i) m[i] = m[0];
    if (s.chance(8)) { double e = s.pick<double>({1e-3, 1e-4, 1e-5}); Rng r(s.seed()); for (int i = 1; i < rows; ++i) { m[i] = m[0]; for (auto &x : m[i]) x += e * r.sym(); } s.note("rows within %g of one another", e); }
    std::vector<V> m0 = m; V v = b.process(m); int sz = rows / 2;
    for (int i = 0; i < rows; ++i) sameBits("matrix row", m[i], m0[i]);
    REQUIRE(int(v.size()) == sz, "%zu values for %d rows", v.size(), rows);
    V w(sz, 0.0); for (int i = 0; i < sz; ++i) for (int k = 0; k < sz; ++k) w[k] += cosdist(m[i], m[i + k + 1]);
    double mx = 0; for (double x : w) mx = std::max(mx, x); finite("beat spectrum", v);
    for (double x : v) REQUIRE(x <= 1 + 1e-12, "beat spectrum value %g", x);
    if (mx < 1e-10 * sz) continue;                                 // nothing but rounding residue
    bool small = false; for (int i = 0; i < rows; ++i) { double q = 0; for (double x : m[i]) q += x * x; small |= q > 0 && q < 1e-8; } if (small) continue;   // the regularisation shows
    for (auto &x : w) x /= mx; same("beat spectrum", v, w, 1e-7 + 2e-15 * sz * (dim + 4) / mx);
    any |= rows >= 4; }
    s.nontrivial(any);
}

// ------------------------------------------------------------------ C29
static V jacobiEigen(std::vector<V> a) {     // eigenvalues of a symmetric matrix, descending
    int n = int(a.size());
    for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0, dia = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (i == j ? dia : off) += a[i][j] * a[i][j];
        if (off <= 1e-28 * dia) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) if (a[p][q] != 0) {
            double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), sn = t * c;
            for (int k = 0; k < n; ++k) { double x = a[k][p], y = a[k][q]; a[k][p] = c * x - sn * y; a[k][q] = sn * x + c * y; }
            for (int k = 0; k < n; ++k) { double x = a[p][k], y = a[q][k]; a[p][k] = c * x - sn * y; a[q][k] = sn * x + c * y; }
        }
    }
    V e(n); for (int i = 0; i < n; ++i) e[i] = a[i][i]; std::sort(e.rbegin(), e.rend()); return e;
}
SUB(C29, scores, 1500, "two or more dimensions with non-zero variance; scores against an independent eigen-decomposition") {
    int m = s.chance(120) ? s.i(49, 140) : s.chance(40) ? s.i(25, 48) : s.chance(5) ? s.i(2, 24) : s.i(2, 8), n = s.chance(6) ? s.i(2, 5) : s.szl(2, 60, 12, 1500), k = s.i(1, m);
    std::vector<V> x(n, V(m)); Rng r(s.seed()); int kind = int(s.draw(7)); s.note("n=%d m=%d components=%d kind=%d", n, m, k, kind);
    V sd(m); for (int j = 0; j < m; ++j) sd[j] = kind == 1 ? std::pow(10.0, r.i(-2, 2)) : kind == 2 ? j + 1 : kind == 3 ? m - j : 1;
    int rank = kind == 4 ? s.i(1, m) : m; std::vector<V> mixm(m, V(m)); for (auto &row : mixm) for (auto &v : row) v = r.gauss();
    for (int i = 0; i < n; ++i) {
        V z(m); for (int j = 0; j < m; ++j) z[j] = r.gauss();
        for (int j = 0; j < m; ++j) { if (kind == 4) { x[i][j] = 0; for (int q = 0; q < rank; ++q) x[i][j] += mixm[j][q] * z[q]; } else if (kind == 5) { x[i][j] = 0; for (int q = 0; q < m; ++q) x[i][j] += mixm[j][q] * z[q]; } else if (kind == 6) x[i][j] = r.i(-1, 1) * (j % 3 ? 1 : 0) + (j == 1 ? 5 : 0); else x[i][j] = sd[j] * z[j] + j; }
    }
    if (n <= 6 && m <= 4 && s.b()) for (auto &row : x) for (auto &v : row) v = s.val(10);
    if (s.chance(4)) { double top = s.pick<double>({10, 1e3, 1e5, 1e7, 1e9}); s.note("offsets of about %g", top); for (int j = 0; j < m; ++j) { double o = top * r.gauss(); if (r.i(0, 3)) for (auto &row : x) row[j] += o; } }
    std::vector<DBuf *> rows; struct Del { std::vector<DBuf *> &v; ~Del() { for (auto *p : v) delete p; } } del{rows};
    std::vector<double *> ptr; for (auto &row : x) { rows.push_back(new DBuf(row)); ptr.push_back(rows.back()->p); }
    pca_project(ptr.data(), n, m, k);
    std::vector<long double> mean(m, 0.0L); for (auto &row : x) for (int j = 0; j < m; ++j) mean[j] += row[j]; for (auto &v : mean) v /= n; double raw = 0; for (auto &row : x) raw = std::max(raw, maxabs(row));
    for (auto &row : x) for (int j = 0; j < m; ++j) row[j] -= mean[j];
    std::vector<V> C(m, V(m, 0.0)); for (auto &row : x) for (int a = 0; a < m; ++a) for (int b = 0; b < m; ++b) C[a][b] += row[a] * row[b];
    V ev = jacobiEigen(C); double tot = 0; for (double e : ev) tot += std::fabs(e); double shift = (2e-16 * n + 1e-15) * raw, tol = 1e-9 * tot + 10 * n * shift * (shift + 1e-12 * std::sqrt(tot)) * m + 1e-300;   // the mean's rounding, squared
    std::vector<V> T(k, V(n)); for (int q = 0; q < k; ++q) for (int i = 0; i < n; ++i) T[q][i] = (*rows[i])[q];
    for (int q = 0; q < k; ++q) {
        finite("scores", T[q]);
        for (int p = 0; p <= q; ++p) { double d = 0; for (int i = 0; i < n; ++i) d += T[q][i] * T[p][i];
            if (p == q) REQUIRE(close(d, std::max(ev[q], 0.0), tol), "component %d of %d has sum of squares %.9g, expected %.9g (eigenvalue %d of %d)", q, k, d, ev[q], q, m);
            else REQUIRE(std::fabs(d) <= tol, "components %d and %d are correlated: %.9g", p, q, d); }
        // they are scores of this data: X X' t = lambda t
        V y(m, 0.0); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) y[j] += x[i][j] * T[q][i];
        double ts = std::sqrt(tot) + 1e-300; for (int i = 0; i < n; ++i) { double z = 0; for (int j = 0; j < m; ++j) z += x[i][j] * y[j]; REQUIRE(close(z, ev[q] * T[q][i], tol * ts * 10 + 4 * tot * shift * m), "component %d row %d: covariance maps the score to %.9g, expected %.9g", q, i, z, ev[q] * T[q][i]); }
    }
    for (int i = 0; i < n; ++i) for (int j = k; j < m; ++j) REQUIRE(close((*rows[i])[j], x[i][j], 4 * shift + 1e-11 * std::fabs(x[i][j]) + 1e-300), "row %d column %d beyond the components is %.9g, mean-removed data %.9g", i, j, (*rows[i])[j], x[i][j]);
    s.nontrivial(tot > 0);
}

// ------------------------------------------------------------------ C30
static ChromaVector chroma(Src &s) { ChromaVector c; V v = values(s, 12, s.pick<double>({1, 1e-3, 100, 1e-4, 1e-5, 1e-6, 1e-7}), "chroma"); if (s.chance(6)) v.assign(12, 0.0); for (int i = 0; i < 12; ++i) c[i] = s.draw(2) ? std::fabs(v[i]) : v[i]; return c; }
static V tcsRef(const V &c) {
    static const double f[3] = {7.0 / 6, 2.0 / 3, 3.0 / 2}, r[3] = {1, 0.6, 1.1}; V t(6, 0.0);
    for (int k = 0; k < 3; ++k) for (int p = 0; p < 12; ++p) { t[2 * k] += r[k] * std::sin(f[k] * p * M_PI) * c[p]; t[2 * k + 1] += r[k] * std::cos(f[k] * p * M_PI) * c[p]; } return t;
}
SUB(C30, centroid, 2500, "a chroma vector that is not zero, and all its transpositions") {
    { ChromaVector z; TCSVector zt; REQUIRE(z.size() == 12 && zt.size() == 6, "a new chroma vector has %zu elements, a new centroid %zu", z.size(), zt.size()); for (size_t i = 0; i < 12; ++i) REQUIRE(z[i] == 0 && zt[i % 6] == 0, "a new vector is not silent"); int m = s.i(1, 60); ChromaVector y(m); REQUIRE(int(y.size()) == m, "size %zu, asked for %d", y.size(), m); for (int i = 0; i < m; ++i) REQUIRE(y[i] == 0, "a new vector is not silent"); }
    TonalEstimator te; for (int warm = s.hist(0, 0, 1e3, 12, 60); warm > 0; --warm) { ChromaVector j; for (int i = 0; i < 12; ++i) j[i] = (i * 7 + warm) % 5; te.transform2TCS(j); }
    ChromaVector c = chroma(s); V cv(12); double sc = 0; for (int i = 0; i < 12; ++i) { cv[i] = c[i]; sc += std::fabs(c[i]); }
    TCSVector t = te.transform2TCS(c); V tv(6); for (int i = 0; i < 6; ++i) tv[i] = t[i]; V w = tcsRef(cv); same("centroid", tv, w, 1e-11 * sc + 1e-300);
    for (int i = 0; i < 12; ++i) REQUIRE(c[i] == cv[i], "chroma modified");
    double mg = 0; for (double x : w) mg += x * x; REQUIRE(close(t.magnitude(), std::sqrt(mg), 1e-10 * sc + 1e-300), "magnitude %.12g, expected %.12g", t.magnitude(), std::sqrt(mg));
    int k = s.i(0, 11); ChromaVector d; for (int i = 0; i < 12; ++i) d[(i + k) % 12] = c[i]; TCSVector u = te.transform2TCS(d); static const double f[3] = {7.0 / 6, 2.0 / 3, 3.0 / 2};
    for (int q = 0; q < 3; ++q) { double a = f[q] * k * M_PI, x = t[2 * q] * std::cos(a) + t[2 * q + 1] * std::sin(a), y = t[2 * q + 1] * std::cos(a) - t[2 * q] * std::sin(a);
        REQUIRE(close(u[2 * q], x, 1e-11 * sc) && close(u[2 * q + 1], y, 1e-11 * sc), "transposed by %d, circle %d is (%.9g, %.9g), expected (%.9g, %.9g)", k, q, u[2 * q], u[2 * q + 1], x, y); }
    ChromaVector e = c; e.normalizeL1(); double sum = 0; for (int i = 0; i < 12; ++i) sum += std::fabs(e[i]);
    if (sc > 1.1e-7) { REQUIRE(close(sum, 1, 1e-9), "normalised magnitudes sum to %.12g", sum); for (int i = 0; i < 12; ++i) REQUIRE(close(e[i], c[i] / sc, 1e-9), "normalised element %d is %.12g, expected %.12g", i, e[i], c[i] / sc); }
    else if (sc < 0.9e-7) REQUIRE(sum == 0, "normalised silence sums to %g", sum);
    e.clear(); for (int i = 0; i < 12; ++i) REQUIRE(e[i] == 0, "cleared element %d is %g", i, e[i]);
    s.nontrivial(sc > 0);
}
static TCSVector tcs(Src &s) { TCSVector t; V v = values(s, 6, 2, "tcs"); for (int i = 0; i < 6; ++i) t[i] = v[i]; return t; }
SUB(C30, sequence, 1500, "one or more vectors; histories of add, clear, reserve and frame durations against a list") {
    TCSGram g; std::vector<V> list; std::vector<long> times; double dur = 0; bool set = false; int ops = s.szl(1, 40, 25, 2000); Rng big(s.seed());
    if (!s.chance(4)) { dur = s.pick<double>({10, 23.2, 371.5, 0.4, 1e4, 100001.7, 3.6e6}); g.setFrameDuration(dur); set = true; }
    for (int o = 0; o < ops; ++o) {
        int k = s.i(0, 9);
        if (k < 6) { TCSVector t; if (ops > 60) for (int i = 0; i < 6; ++i) t[i] = big.gauss(); else t = tcs(s); g.addTCSVector(t); times.push_back(long(list.size() * dur)); V v(6); for (int i = 0; i < 6; ++i) v[i] = t[i]; list.push_back(v); }
        else if (k == 6) { if (s.chance(3)) { g.clear(); list.clear(); times.clear(); s.note("clear"); } }
        else if (k == 7) { dur = s.pick<double>({10, 23.2, 512 / 44.1}); g.setFrameDuration(dur); set = true; s.note("duration %g", dur); }
        else if (k == 8) g.reserve(s.i(0, 50));
        else { int i = s.i(-2, int(list.size()) + 2); TCSVector t; t[0] = 9; g.getTCSVector(i, t); for (int j = 0; j < 6; ++j) { double w = i >= 0 && i < int(list.size()) ? list[i][j] : 0; REQUIRE(t[j] == w, "vector %d of %zu element %d is %g, expected %g", i, list.size(), j, t[j], w); } }
        REQUIRE(g.getSize() == int(list.size()), "size %d, expected %zu", g.getSize(), list.size());
        if (ops < 60 || o % 100 == 0 || o == ops - 1) for (size_t i = 0; i < list.size(); ++i) { TCSVector t; g.getTCSVector(int(i), t); for (int j = 0; j < 6; ++j) REQUIRE(t[j] == list[i][j], "vector %zu element %d is %g, expected %g", i, j, t[j], list[i][j]); if (set) REQUIRE(std::labs(g.getTime(i) - times[i]) <= 0, "time of vector %zu is %ld, expected %ld", i, g.getTime(i), times[i]); }
        if (set) REQUIRE(g.getDuration() == long(list.size() * dur), "duration %ld, expected %ld", g.getDuration(), long(list.size() * dur));
    }
    s.nontrivial(!list.empty());
}
SUB(C30, change, 1500, "two or more vectors that differ; the change function against smoothing and Euclidean distance") {
    int n = s.szl(0, 50, 40, 1500), sw = s.chance(30) ? s.i(13, 80) : s.i(0, 12); TCSGram g; if (s.b()) g.setFrameDuration(100); std::vector<V> x(n, V(6)); double sc = 0; Rng big(s.seed());
    for (int i = 0; i < n; ++i) { if (i && s.chance(3)) { x[i] = x[i - 1]; } else if (n > 100) { for (auto &v : x[i]) v = big.gauss(); } else { V v = values(s, 6, 2, "tcs"); x[i] = v; } TCSVector t; for (int j = 0; j < 6; ++j) { t[j] = x[i][j]; sc = std::max(sc, std::fabs(t[j])); } g.addTCSVector(t); }
    s.note("smoothing width %d", sw); ChangeDFConfig c; c.smoothingWidth = sw; ChangeDetectionFunction f(c);
    int calls = s.hist(2, 2, 100.0 * n * (sw + 1), 20, 60);
    for (int call = 0; call < calls; ++call) {
        if (call && s.b()) { if (s.b()) { g.clear(); x.clear(); sc = 0; } int more = s.i(0, 12); s.note("%s, %d more vectors", x.empty() ? "cleared" : "kept", more); Rng r(s.seed()); while (more--) { V v(6); TCSVector t; for (int j = 0; j < 6; ++j) { t[j] = v[j] = r.gauss(); sc = std::max(sc, std::fabs(v[j])); } x.push_back(v); g.addTCSVector(t); } n = int(x.size()); }
        ChangeDistance d = f.process(g); REQUIRE(int(d.size()) == n, "%zu values for %d vectors", d.size(), n);
        int W = 2 * sw + 1; double sg = W / (2 * 2.3548); std::vector<V> y(n, V(6, 0.0));
        for (int i = 0; i < n; ++i) for (int k = -sw; k <= sw; ++k) if (i + k >= 0 && i + k < n) for (int j = 0; j < 6; ++j) y[i][j] += std::exp(-k * k / (2 * sg * sg)) / (sg * std::sqrt(2 * M_PI)) * x[i + k][j];
        V zero(6, 0.0);
        for (int i = 0; i < n; ++i) { const V &a = i > 0 ? y[i - 1] : zero, &b = i + 1 < n ? y[i + 1] : zero; double t = 0; for (int j = 0; j < 6; ++j) t += (b[j] - a[j]) * (b[j] - a[j]);
            REQUIRE(close(d[i], std::sqrt(t), 1e-7 * sc + 1e-300), "change at %d of %d is %.9g, expected %.9g", i, n, d[i], std::sqrt(t)); }
    }
    s.nontrivial(n > 1 && sc > 0);
}
