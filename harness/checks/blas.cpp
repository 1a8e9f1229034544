// C35 the bundled BLAS and LAPACK kernels
#include "pbt.hpp"
#include "ext/cblas/include/cblas.h"
using namespace pbt;
typedef std::vector<double> V; typedef long double LD;
extern "C" {
int dgetrf_(int *, int *, double *, int *, int *, int *); int dgetf2_(int *, int *, double *, int *, int *, int *); int dgetri_(int *, double *, int *, int *, double *, int *, int *);
int dtrtri_(char *, char *, int *, double *, int *, int *); int dtrti2_(char *, char *, int *, double *, int *, int *); int dlaswp_(int *, double *, int *, int *, int *, int *, int *);
int dgemv_(char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *); int dger_(int *, int *, double *, double *, int *, double *, int *, double *, int *);
int dscal_(int *, double *, double *, int *); int dswap_(int *, double *, int *, double *, int *); int idamax_(int *, double *, int *); double dlamch_(char *);
int dtrmm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *); int dtrsm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *); int dtrmv_(char *, char *, char *, int *, double *, int *, double *, int *);
}
static const double EPS = 2.2204460492503131e-16, PAD = -987654.25;
static const double qn = std::numeric_limits<double>::quiet_NaN();

// a matrix held column after column at leading dimension ld in an exactly sized buffer, padding recognisable
struct CM { int m, n, ld; DBuf b; CM(int m_, int n_, int ld_) : m(m_), n(n_), ld(ld_), b(n_ > 0 ? size_t(ld_) * (n_ - 1) + m_ : 0, PAD) { }
    double &at(int i, int j) { return b[size_t(j) * ld + i]; } double *p() { return b; }
    void fill(Rng &r, int kind) { for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) at(i, j) = entry(r, kind, i, j); }
    static double entry(Rng &r, int kind, int i, int j) { switch (kind) { case 0: return r.sym(); case 1: return r.i(-3, 3); case 2: return r.uni() < 0.6 ? 0 : r.gauss(); case 3: return r.gauss() * std::pow(10.0, r.i(-6, 6)); default: return (i == j ? 2 : 0) + 0.3 * r.gauss(); } }
    void padding(const char *what) { for (int j = 0; j + 1 < n; ++j) for (int i = m; i < ld; ++i) REQUIRE(at(i, j) == PAD, "%s: padding at row %d, column %d was written", what, i, j); } };
static int ldFor(Src &s, int m) { return std::max(1, m) + (s.b() ? 0 : s.i(0, 5)); }
static double scal(Src &s) { switch (s.i(0, 4)) { case 0: return 1; case 1: return 0; case 2: return -1; case 3: return 0.5; default: return s.uni(-3, 3); } }
static int dim(Src &s) { return s.chance(12) ? s.i(0, 130) : s.sz(0, 30); }

SUB(C35, gemm, 700, "all dimensions at least one and alpha not zero") {
    bool row = s.b(); int ta = s.i(0, 2), tb = s.i(0, 2), m = dim(s), n = dim(s), k = dim(s), kind = s.i(0, 3); double al = scal(s), be = scal(s); if (s.chance(20) && !m) m = 1;
    // stored shapes, column major; a row-major matrix is the transpose of a column-major one
    int ar = ta ? k : m, ac = ta ? m : k, br = tb ? n : k, bc = tb ? k : n, cr = m, cc = n; if (row) { std::swap(ar, ac); std::swap(br, bc); std::swap(cr, cc); }
    CM a(ar, ac, ldFor(s, ar)), b(br, bc, ldFor(s, br)), c(cr, cc, ldFor(s, cr)); Rng r(s.seed()); a.fill(r, kind); b.fill(r, kind); c.fill(r, 0);
    bool poisonC = be == 0 && s.b(), poisonA = al == 0 && s.b(); if (poisonC) for (int j = 0; j < cc; ++j) for (int i = 0; i < cr; ++i) c.at(i, j) = qn; if (poisonA) { for (size_t i = 0; i < a.b.n; ++i) a.b[i] = qn; }
    s.note("%s-major A%s B%s m=%d n=%d k=%d alpha=%g beta=%g ld %d %d %d", row ? "row" : "column", ta ? "'" : "", tb ? "'" : "", m, n, k, al, be, a.ld, b.ld, c.ld); V c0 = c.b.vec(), a0 = a.b.vec(), b0 = b.b.vec();
    static const CBLAS_TRANSPOSE T[3] = {CblasNoTrans, CblasTrans, CblasConjTrans}; cblas_dgemm(row ? CblasRowMajor : CblasColMajor, T[ta], T[tb], m, n, k, al, a.p(), a.ld, b.p(), b.ld, be, c.p(), c.ld);
    sameBits("A", a.b.vec(), a0); sameBits("B", b.b.vec(), b0); c.padding("C");
    auto A = [&](int i, int j) { if (ta) std::swap(i, j); if (row) std::swap(i, j); return a.at(i, j); }; auto B = [&](int i, int j) { if (tb) std::swap(i, j); if (row) std::swap(i, j); return b.at(i, j); };
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { size_t o = row ? size_t(i) * c.ld + j : size_t(j) * c.ld + i; LD w = 0, q = 0; if (al != 0) for (int l = 0; l < k; ++l) { w += LD(A(i, l)) * B(l, j); q += std::fabs(A(i, l) * B(l, j)); } w *= al; q *= std::fabs(al); if (be != 0) { w += LD(be) * c0[o]; q += std::fabs(be * c0[o]); } REQUIRE(close(c.b[o], double(w), 2 * (k + 4) * EPS * double(q)), "C(%d,%d) is %.17g, expected %.17g", i, j, c.b[o], double(w)); }
    s.nontrivial(m && n && k && al != 0);
}
// strided vectors: logical element i of n at a positive or negative increment
struct SV { int n, inc; DBuf b; SV(int n_, int inc_) : n(n_), inc(inc_), b(n_ > 0 ? size_t(n_ - 1) * std::abs(inc_) + 1 : 0, PAD) { } size_t at(int i) const { return inc >= 0 ? size_t(i) * inc : size_t(n - 1 - i) * -inc; } double &operator()(int i) { return b[at(i)]; } double *p() { return b; }
    void fill(Rng &r, int kind) { for (int i = 0; i < n; ++i) (*this)(i) = CM::entry(r, kind, 0, 1); } V get() { V v(n); for (int i = 0; i < n; ++i) v[i] = (*this)(i); return v; }
    void gaps(const char *what) { for (size_t i = 0; i < b.n; ++i) if (inc && i % std::abs(inc)) REQUIRE(b[i] == PAD, "%s: the element between the strided ones at %zu was written", what, i); } };
static int incFor(Src &s) { return s.b() ? 1 : s.pick<int>({1, 2, 3, 5, -1, -2, -4}); }
SUB(C35, vectors, 2500, "two or more elements") {
    int n = s.chance(10) ? s.i(0, 300) : s.szl(0, 40, 200, 3000), ix = incFor(s), iy = incFor(s), kind = s.i(0, 3); SV x(n, ix), y(n, iy); Rng r(s.seed()); x.fill(r, kind); y.fill(r, kind); V xs = x.get(), ys = y.get(), xb = x.b.vec(), yb = y.b.vec(); s.note("n=%d strides %d %d", n, ix, iy);
    switch (s.i(0, 4)) {
    case 0: { double d = cblas_ddot(n, x.p(), ix, y.p(), iy); LD w = 0, q = 0; for (int i = 0; i < n; ++i) { w += LD(xs[i]) * ys[i]; q += std::fabs(xs[i] * ys[i]); } s.note("ddot"); REQUIRE(close(d, double(w), (n + 2) * EPS * double(q)), "dot product %.17g, expected %.17g", d, double(w)); sameBits("x", x.b.vec(), xb); sameBits("y", y.b.vec(), yb); break; }
    case 1: { s.note("dswap"); dswap_(&n, x.p(), &ix, y.p(), &iy); sameBits("x after swapping", x.get(), ys); sameBits("y after swapping", y.get(), xs); x.gaps("x"); y.gaps("y"); break; }
    case 2: { if (ix <= 0) { ix = -ix; } double a = scal(s); s.note("dscal %g", a); dscal_(&n, &a, x.p(), &ix); V w = xs; for (auto &v : w) v *= a; sameBits("scaled", x.get(), w); x.gaps("x"); break; }
    case 3: { if (ix <= 0) { ix = -ix; SV z(n, ix); z.fill(r, kind); xs = z.get(); int k = idamax_(&n, z.p(), &ix), w = 0; for (int i = 0; i < n; ++i) if (!w || std::fabs(xs[i]) > std::fabs(xs[w - 1])) w = i + 1; REQUIRE(k == w, "largest element is %d, expected %d", k, w); break; } s.note("idamax"); int k = idamax_(&n, x.p(), &ix), w = 0; for (int i = 0; i < n; ++i) if (!w || std::fabs(xs[i]) > std::fabs(xs[w - 1])) w = i + 1; REQUIRE(k == w, "largest element is %d, expected %d", k, w); break; }
    default: { int m = n, k = s.sz(0, 20); SV z(k, iy); z.fill(r, kind); V zs = z.get(); CM a(m, k, ldFor(s, m)); a.fill(r, 0); V a0 = a.b.vec(); double al = scal(s); s.note("dger k=%d alpha=%g", k, al); dger_(&m, &k, &al, x.p(), &ix, z.p(), &iy, a.p(), &a.ld); a.padding("A"); for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) { double o = a0[size_t(j) * a.ld + i], w = o + al * xs[i] * zs[j]; REQUIRE(close(a.at(i, j), w, 4 * EPS * (std::fabs(o) + std::fabs(al * xs[i] * zs[j]))), "A(%d,%d) is %.17g, expected %.17g", i, j, a.at(i, j), w); } }
    }
    s.nontrivial(n > 1);
}
SUB(C35, gemv, 1200, "both dimensions at least one and alpha not zero") {
    char t[2] = {s.pick<char>({'N', 'T', 'n', 't', 'C'}), 0}; bool tr = t[0] != 'N' && t[0] != 'n'; int m = dim(s), n = dim(s), ix = incFor(s), iy = incFor(s), kind = s.i(0, 3); double al = scal(s), be = scal(s); CM a(m, n, ldFor(s, m)); SV x(tr ? m : n, ix), y(tr ? n : m, iy); Rng r(s.seed()); a.fill(r, kind); x.fill(r, kind); y.fill(r, 0); if (be == 0 && s.b()) for (int i = 0; i < y.n; ++i) y(i) = qn;
    V x0 = x.get(), y0 = y.get(), ab = a.b.vec(); s.note("trans=%s m=%d n=%d strides %d %d alpha=%g beta=%g", t, m, n, ix, iy, al, be); dgemv_(t, &m, &n, &al, a.p(), &a.ld, x.p(), &ix, &be, y.p(), &iy); sameBits("A", a.b.vec(), ab); sameBits("x", x.get(), x0); y.gaps("y");
    if (m == 0 || n == 0) { sameBits("y", y.get(), y0); return; }
    for (int i = 0; i < y.n; ++i) { LD w = 0, q = 0; if (al != 0) for (int k = 0; k < x.n; ++k) { double v = tr ? a.at(k, i) : a.at(i, k); w += LD(v) * x0[k]; q += std::fabs(v * x0[k]); } w *= al; q *= std::fabs(al); if (be != 0) { w += LD(be) * y0[i]; q += std::fabs(be * y0[i]); } REQUIRE(close(y(i), double(w), 2 * (x.n + 4) * EPS * double(q)), "y(%d) is %.17g, expected %.17g", i, y(i), double(w)); }
    s.nontrivial(al != 0);
}
// triangular kernels: op(T) with T upper or lower, unit or not; the other triangle must not be read
struct Tri { CM a; bool up, unit, tr; Tri(Src &s, int n, char *u, char *t, char *d) : a(n, n, ldFor(s, n)) { up = s.b(); int k = s.i(0, 2); unit = s.b(); tr = k > 0; *u = up ? 'U' : 'L'; *t = "NTC"[k]; *d = unit ? 'U' : 'N'; Rng r(s.seed()); int kind = s.i(0, 1); for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { bool in = up ? i < j : i > j; a.at(i, j) = i == j ? (unit ? qn : (r.uni() < 0.5 ? -1 : 1) * (1 + r.uni())) : in ? (kind ? r.i(-1, 1) : r.sym() / std::sqrt(double(n))) : qn; } }
    double el(int i, int j) { if (tr) std::swap(i, j); if (i == j) return unit ? 1 : a.at(i, j); return (up ? i < j : i > j) ? a.at(i, j) : 0; } };
SUB(C35, triangular, 1200, "both dimensions at least two and alpha not zero") {
    char u, t, d, side = s.b() ? 'L' : 'R'; int m = s.chance(12) ? s.i(0, 80) : s.sz(0, 20), n = s.chance(12) ? s.i(0, 80) : s.sz(0, 20); bool left = side == 'L', solve = s.b(); double al = scal(s); int na = left ? m : n; Tri T(s, na, &u, &t, &d); CM b(m, n, ldFor(s, m)); Rng r(s.seed()); b.fill(r, s.i(0, 2)); if (al == 0 && s.b()) for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) b.at(i, j) = qn;
    s.note("%s side=%c uplo=%c trans=%c diag=%c m=%d n=%d alpha=%g", solve ? "dtrsm" : "dtrmm", side, u, t, d, m, n, al); V b0 = b.b.vec(), a0 = T.a.b.vec(); (solve ? dtrsm_ : dtrmm_)(&side, &u, &t, &d, &m, &n, &al, T.a.p(), &T.a.ld, b.p(), &b.ld); sameBits("triangular matrix", T.a.b.vec(), a0); b.padding("B"); auto B0 = [&](int i, int j) { return b0[size_t(j) * b.ld + i]; };
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
        LD w = 0, q = 0; int K = na; if (al == 0) { REQUIRE(b.at(i, j) == 0, "B(%d,%d) is %.17g for alpha zero", i, j, b.at(i, j)); continue; }
        for (int k = 0; k < K; ++k) { double e = left ? T.el(i, k) : T.el(k, j); if (e == 0) continue; double v = solve ? (left ? b.at(k, j) : b.at(i, k)) : (left ? B0(k, j) : B0(i, k)); w += LD(e) * v; q += std::fabs(e * v); }
        if (solve) REQUIRE(close(double(w), al * B0(i, j), 4 * (K + 4) * EPS * double(q + std::fabs(al * B0(i, j)))), "the solution multiplied back at (%d,%d) gives %.17g, expected %.17g", i, j, double(w), al * B0(i, j));
        else { w *= al; q *= std::fabs(al); REQUIRE(close(b.at(i, j), double(w), 2 * (K + 4) * EPS * double(q)), "B(%d,%d) is %.17g, expected %.17g", i, j, b.at(i, j), double(w)); }
    }
    s.nontrivial(m > 1 && n > 1 && al != 0);
}
SUB(C35, trmv, 800, "two or more elements") {
    char u, t, d; int n = s.sz(0, 60), ix = incFor(s); Tri T(s, n, &u, &t, &d); SV x(n, ix); Rng r(s.seed()); x.fill(r, 0); V x0 = x.get(); s.note("uplo=%c trans=%c diag=%c n=%d stride=%d", u, t, d, n, ix); dtrmv_(&u, &t, &d, &n, T.a.p(), &T.a.ld, x.p(), &ix); x.gaps("x");
    for (int i = 0; i < n; ++i) { LD w = 0, q = 0; for (int k = 0; k < n; ++k) { double e = T.el(i, k); if (e != 0) { w += LD(e) * x0[k]; q += std::fabs(e * x0[k]); } } REQUIRE(close(x(i), double(w), 2 * (n + 4) * EPS * double(q)), "x(%d) is %.17g, expected %.17g", i, x(i), double(w)); } s.nontrivial(n > 1);
}
SUB(C35, trtri, 500, "order two or more; half of the cases by the blocked routine") {
    char u, t, d; int n = s.chance(6) ? s.i(60, 150) : s.sz(0, 40), info = -99; Tri T(s, n, &u, &t, &d); T.tr = false; int sing = (!T.unit && n && s.chance(5)) ? s.i(0, n - 1) : -1; if (sing >= 0) T.a.at(sing, sing) = 0; bool blocked = s.b() || sing >= 0; CM x(n, n, T.a.ld); for (size_t i = 0; i < x.b.n; ++i) x.b[i] = T.a.b[i]; s.note("%s uplo=%c diag=%c n=%d%s", blocked ? "dtrtri" : "dtrti2", u, d, n, sing >= 0 ? " singular" : "");
    (blocked ? dtrtri_ : dtrti2_)(&u, &d, &n, x.p(), &x.ld, &info); x.padding("inverse"); REQUIRE(info == sing + 1, "info %d, expected %d", info, sing + 1); if (sing >= 0) return;
    auto X = [&](int i, int j) { return i == j ? (T.unit ? 1.0 : x.at(i, j)) : (T.up ? i < j : i > j) ? x.at(i, j) : 0.0; };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!(T.up ? i <= j : i >= j)) { REQUIRE(std::isnan(x.at(i, j)), "the other triangle was written"); continue; } LD w = 0, q = 0, w2 = 0, q2 = 0; for (int k = std::min(i, j); k <= std::max(i, j); ++k) { w += LD(X(i, k)) * T.el(k, j); q += std::fabs(X(i, k) * T.el(k, j)); w2 += LD(T.el(i, k)) * X(k, j); q2 += std::fabs(T.el(i, k) * X(k, j)); }
        // either residual is small in the normwise sense for a backward stable method
        REQUIRE(close(double(w), i == j, 1e3 * (n + 4) * EPS * double(q + 1)) || close(double(w2), i == j, 1e3 * (n + 4) * EPS * double(q2 + 1)), "inverse times matrix at (%d,%d) is %.17g", i, j, double(w)); }
    s.nontrivial(n > 1);
}
SUB(C35, laswp, 600, "one or more exchanges of different rows") {
    int m = s.i(1, 40), n = s.sz(0, 70), k1 = s.i(1, m), k2 = s.i(k1, m), inc = s.b() ? 1 : -1; CM a(m, n, ldFor(s, m)); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) a.at(i, j) = i * 1000 + j; Buf<int> p(k2); bool any = false; for (int i = 0; i < k2; ++i) { p[i] = i + 1 >= k1 ? s.i(1, m) : 1; any |= p[i] != i + 1; }
    std::vector<int> row(m); for (int i = 0; i < m; ++i) row[i] = i; if (inc > 0) for (int i = k1; i <= k2; ++i) std::swap(row[i - 1], row[p[i - 1] - 1]); else for (int i = k2; i >= k1; --i) std::swap(row[i - 1], row[p[i - 1] - 1]); s.note("m=%d n=%d rows %d to %d inc=%d", m, n, k1, k2, inc);
    dlaswp_(&n, a.p(), &a.ld, &k1, &k2, p, &inc); a.padding("A"); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) REQUIRE(a.at(i, j) == row[i] * 1000 + j, "A(%d,%d) is %.17g, expected %d", i, j, a.at(i, j), row[i] * 1000 + j); s.nontrivial(any && n > 0);
}
// LU factors: P A = L U with |L| <= 1, info the first zero on U's diagonal
static void luCheck(CM &a, const V &orig, Buf<int> &piv, int info) {
    int m = a.m, n = a.n, k = std::min(m, n); a.padding("LU"); std::vector<int> row(m); for (int i = 0; i < m; ++i) row[i] = i; for (int i = 0; i < k; ++i) { REQUIRE(piv[i] >= i + 1 && piv[i] <= m, "pivot %d is %d of %d", i + 1, piv[i], m); std::swap(row[i], row[piv[i] - 1]); }
    int z = 0; for (int i = 0; i < k && !z; ++i) if (a.at(i, i) == 0) z = i + 1; REQUIRE(info == z, "info %d, the first zero on the diagonal of U is %d", info, z);
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { if (i > j) REQUIRE(std::fabs(a.at(i, j)) <= 1 + 4 * EPS, "L(%d,%d) is %.17g: not pivoted", i, j, a.at(i, j)); LD w = 0, q = 0; int e = std::min(std::min(i, j), k - 1); for (int l = 0; l <= e; ++l) { double x = i == l ? 1.0 : a.at(i, l); w += LD(x) * a.at(l, j); q += std::fabs(x * a.at(l, j)); } double o = orig[size_t(j) * a.ld + row[i]]; REQUIRE(close(double(w), o, 2 * (k + 4) * EPS * double(q + std::fabs(o))), "L U at (%d,%d) is %.17g, P A has %.17g", i, j, double(w), o); }
}
static int order(Src &s) { return s.chance(5) ? s.i(60, 140) : s.sz(0, 30); }
SUB(C35, lu, 300, "order two or more") {
    int m = order(s), n = s.b() ? m : order(s), kind = s.i(0, 4), info = -99; bool blocked = !s.chance(3); CM a(m, n, ldFor(s, m)); Rng r(s.seed()); a.fill(r, kind); int sing = s.i(0, 5); if (m && n) { if (sing == 1) { int c = r.i(0, n - 1); for (int i = 0; i < m; ++i) a.at(i, c) = 0; } if (sing == 2) for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) a.at(i, j) = 0; if (sing == 3 && n > 1) { for (int i = 0; i < m; ++i) a.at(i, n - 1) = a.at(i, 0) * 2; } if (sing == 4) for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) a.at(i, j) *= 1e-155; }
    s.note("%s m=%d n=%d kind=%d case=%d", blocked ? "dgetrf" : "dgetf2", m, n, kind, sing); V o = a.b.vec(); Buf<int> piv(std::min(m, n), -5); (blocked ? dgetrf_ : dgetf2_)(&m, &n, a.p(), &a.ld, piv, &info); luCheck(a, o, piv, info); if (m && n && m >= n && (sing == 1 || sing == 2)) REQUIRE(info > 0, "a matrix with a column of zeros was not reported singular"); s.nontrivial(m > 1 && n > 1);
}
SUB(C35, inverse, 250, "order two or more, not singular") {
    int n = order(s), kind = s.i(0, 4), info = -99, lw = -1; CM a(n, n, ldFor(s, n)); Rng r(s.seed()); a.fill(r, kind); bool sing = n && s.chance(6); if (sing) { int c = r.i(0, n - 1); for (int i = 0; i < n; ++i) a.at(i, c) = 0; } V o = a.b.vec(); Buf<int> piv(n, -5); dgetrf_(&n, &n, a.p(), &a.ld, piv, &info); luCheck(a, o, piv, info); V lu = a.b.vec(); bool bad = info > 0;
    int i2 = -99; double q0 = 0; dgetri_(&n, a.p(), &a.ld, piv, &q0, &lw, &i2); REQUIRE(i2 == 0 && q0 >= n && q0 >= 0, "workspace query gives %g (info %d)", q0, i2); sameBits("matrix after a workspace query", a.b.vec(), lu); int kw = s.i(0, 2), one = std::max(1, n); lw = kw == 0 ? std::max(one, int(q0)) : kw == 1 ? one : one * s.i(1, 70); DBuf work(lw, qn); s.note("n=%d kind=%d workspace=%d%s", n, kind, lw, sing ? " singular" : "");
    dgetri_(&n, a.p(), &a.ld, piv, work, &lw, &i2); a.padding("inverse"); REQUIRE(i2 == info, "info %d from the inversion, %d from the factorisation", i2, info); if (bad) return;
    // X P' |L| |U| bounds the residual of X A - I row by row
    std::vector<int> row(n); for (int i = 0; i < n; ++i) row[i] = i; for (int i = 0; i < n; ++i) std::swap(row[i], row[piv[i] - 1]); auto L = [&](int i, int j) { return i == j ? 1.0 : i > j ? std::fabs(lu[size_t(j) * a.ld + i]) : 0.0; }; auto U = [&](int i, int j) { return i <= j ? std::fabs(lu[size_t(j) * a.ld + i]) : 0.0; };
    V XL(size_t(n) * n, 0.0), B(size_t(n) * n, 0.0); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { double x = std::fabs(a.at(i, row[k])); for (int l = 0; l <= k; ++l) XL[size_t(i) * n + l] += x * L(k, l); } for (int i = 0; i < n; ++i) for (int l = 0; l < n; ++l) for (int j = l; j < n; ++j) B[size_t(i) * n + j] += XL[size_t(i) * n + l] * U(l, j);
    double amp = 1; for (double v : B) amp = std::max(amp, v);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { LD w = 0; for (int k = 0; k < n; ++k) w += LD(a.at(i, k)) * o[size_t(j) * a.ld + k]; double tol = 1e2 * (n + 4) * EPS * (B[size_t(i) * n + j] + 1); (void)amp; REQUIRE(close(double(w), i == j, tol), "the inverse times the matrix at (%d,%d) is %.17g (tolerance %.3g)", i, j, double(w), tol); }
    s.nontrivial(n > 1);
}
SUB(C35, machine, 30, "every case: the floating-point parameters the factorisation scales by") {
    char c = s.pick<char>({'E', 'S', 'B', 'P', 'N', 'R', 'M', 'U', 'L', 'O'}); double v = dlamch_(&c), w = 0; s.note("%c", c); switch (c) { case 'E': w = EPS / 2; break; case 'S': w = 2.2250738585072014e-308; break; case 'B': w = 2; break; case 'P': w = EPS; break; case 'N': w = 53; break; case 'R': w = 1; break; case 'M': w = -1021; break; case 'U': w = 2.2250738585072014e-308; break; case 'L': w = 1024; break; case 'O': w = 1.7976931348623157e308; }
    REQUIRE(v == w, "parameter %c is %.17g, expected %.17g", c, v, w); s.nontrivial();
}
