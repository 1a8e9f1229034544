// C31 hidden Markov models
#include "pbt.hpp"
#include "detrand.hpp"
#include "hmm/hmm.h"
using namespace pbt;
typedef std::vector<double> V; typedef std::vector<V> M; typedef long double LD;

// matrices handed to the library: exactly sized rows
struct Mat { std::vector<DBuf *> r; std::vector<double *> p; Mat(int n, int m, double f = -77) { for (int i = 0; i < n; ++i) { r.push_back(new DBuf(m, f)); p.push_back(r.back()->p); } if (!n) p.push_back(nullptr); }
    explicit Mat(const M &x) { for (auto &row : x) { r.push_back(new DBuf(row)); p.push_back(r.back()->p); } if (x.empty()) p.push_back(nullptr); }
    Mat(const Mat &) = delete; ~Mat() { for (auto *q : r) delete q; } operator double **() { return p.data(); } M get() const { M o; for (auto *q : r) o.push_back(q->vec()); return o; } };

static bool refInvert(const M &a, std::vector<std::vector<LD>> &inv, LD &det) {
    int n = int(a.size()); std::vector<std::vector<LD>> w(n, std::vector<LD>(2 * n, 0)); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) w[i][j] = a[i][j]; w[i][n + i] = 1; }
    det = 1;
    for (int c = 0; c < n; ++c) { int p = c; for (int i = c + 1; i < n; ++i) if (std::fabs(w[i][c]) > std::fabs(w[p][c])) p = i; if (w[p][c] == 0) return false; if (p != c) { std::swap(w[p], w[c]); det = -det; }
        det *= w[c][c]; LD d = w[c][c]; for (auto &v : w[c]) v /= d; for (int i = 0; i < n; ++i) if (i != c && w[i][c] != 0) { LD f = w[i][c]; for (int j = 0; j < 2 * n; ++j) w[i][j] -= f * w[c][j]; } }
    inv.assign(n, std::vector<LD>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) inv[i][j] = w[i][n + j]; return true;
}
static LD cond(const M &a, const std::vector<std::vector<LD>> &inv) { LD x = 0, y = 0; for (auto &r : a) { LD s = 0; for (double v : r) s += std::fabs(v); x = std::max(x, s); } for (auto &r : inv) { LD s = 0; for (LD v : r) s += std::fabs(v); y = std::max(y, s); } return x * y; }
static M spd(Rng &r, int L, double spread) { M g(L, V(L)), c(L, V(L, 0.0)); for (auto &x : g) for (auto &v : x) v = r.gauss(); V s(L); for (auto &v : s) v = std::pow(10.0, spread * r.sym()); for (int i = 0; i < L; ++i) for (int j = 0; j <= i; ++j) { double t = 0; for (int k = 0; k < L; ++k) t += g[i][k] * g[j][k]; if (i == j) t += 0.3; c[i][j] = c[j][i] = t * s[i] * s[j]; } return c; }

SUB(C31, gaussian, 2500, "inverse, determinant and density of one to eight dimensions, well enough conditioned to compare") {
    int L = s.szl(1, 8, 20, 60); Rng r(s.seed()); int kind = s.i(0, 3); M c = spd(r, L, kind == 1 ? 2 : 0.5);
    if (kind == 2) for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) if (i != j) c[i][j] = 0;
    if (kind == 3) for (auto &row : c) for (auto &v : row) v = r.gauss();               // any non-singular matrix
    double S = s.chance(3) ? std::pow(10.0, s.uni(-1, 1) * std::min(30.0, 200.0 / L)) : 1; for (auto &row : c) for (auto &v : row) v *= S;
    s.note("L=%d kind=%d scale=%g", L, kind, S);
    std::vector<std::vector<LD>> inv; LD det; if (!refInvert(c, inv, det)) return; if (std::fabs(std::log(std::fabs(det))) > 600) return; LD cn = cond(c, inv); if (cn > 1e9) return;
    Mat cm(c), im(L, L); double dc = -1; invert(cm, L, im, &dc); for (int i = 0; i < L; ++i) sameBits("matrix", cm.r[i]->vec(), c[i]);
    LD im_ = 0; for (auto &row : inv) for (LD v : row) im_ = std::max(im_, std::fabs(v)); M ic = im.get();
    for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) REQUIRE(std::fabs(ic[i][j] - inv[i][j]) <= 1e-13 * L * cn * im_, "inverse (%d,%d) is %.12g, expected %.12Lg", i, j, ic[i][j], inv[i][j]);
    REQUIRE(std::fabs(dc - std::fabs(det)) <= 1e-13 * L * cn * std::fabs(det), "determinant %.12g, expected magnitude %.12Lg", dc, std::fabs(det));
    if (kind == 3) return;
    V x(L), mu(L); for (int i = 0; i < L; ++i) { mu[i] = std::sqrt(S) * s.val(5); x[i] = s.chance(6) ? mu[i] : mu[i] + std::sqrt(c[i][i]) * r.gauss() * (s.chance(10) ? 10 : 1); }
    DBuf xb(x), mb(mu), y(L), z(L); double lg = loggauss(xb, L, mb, im, dc, y, z), g = gauss(xb, L, mb, im, dc, y, z);
    sameBits("x", xb.vec(), x); sameBits("mean", mb.vec(), mu);
    LD q = 0, qa = 0; for (int i = 0; i < L; ++i) for (int j = 0; j < L; ++j) { LD t = (x[i] - mu[i]) * inv[i][j] * (x[j] - mu[j]); q += t; qa += std::fabs(t); } LD w = -0.5L * (q + L * std::log(2 * M_PIl) + std::log(std::fabs(det)));
    LD tol = 1e-12 * (1 + cn * 0.1) * (1 + qa) + 1e-12 * std::fabs(w);
    REQUIRE(std::fabs(lg - w) <= tol, "log density %.12g, expected %.12Lg", lg, w); LD e = std::exp(w); bool inrange = q < 1300 && std::fabs(std::log(std::fabs(det))) < 1200 && std::fabs(w) < 680;     // outside it a factor or the density itself has no double
    if (inrange) REQUIRE(std::fabs(g - e) <= e * 2 * (tol + 1e-12), "density %.12g, expected %.12Lg", g, e); s.nontrivial(L > 1);
}

// independent log-domain recursions
struct Post { std::vector<std::vector<LD>> gamma; std::vector<std::vector<std::vector<LD>>> xi; LD ll; bool ok; };
static LD lse(const std::vector<LD> &v) { LD m = -INFINITY; for (LD x : v) m = std::max(m, x); if (m == -INFINITY) return m; LD t = 0; for (LD x : v) t += std::exp(x - m); return m + std::log(t); }
static Post posteriors(const V &p0, const M &a, const std::vector<std::vector<LD>> &lb) {
    int T = int(lb.size()), N = int(p0.size()); Post P; std::vector<std::vector<LD>> al(T, std::vector<LD>(N)), be = al; std::vector<LD> t(N);
    for (int i = 0; i < N; ++i) al[0][i] = std::log((LD)p0[i]) + lb[0][i];
    for (int k = 1; k < T; ++k) for (int j = 0; j < N; ++j) { for (int i = 0; i < N; ++i) t[i] = al[k - 1][i] + std::log((LD)a[i][j]); al[k][j] = lse(t) + lb[k][j]; }
    for (int i = 0; i < N; ++i) be[T - 1][i] = 0;
    for (int k = T - 2; k >= 0; --k) for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) t[j] = std::log((LD)a[i][j]) + lb[k + 1][j] + be[k + 1][j]; be[k][i] = lse(t); }
    P.ll = lse(al[T - 1]); P.ok = std::isfinite(P.ll); if (!P.ok) return P;
    P.gamma.assign(T, std::vector<LD>(N)); P.xi.assign(T > 0 ? T - 1 : 0, std::vector<std::vector<LD>>(N, std::vector<LD>(N)));
    for (int k = 0; k < T; ++k) for (int i = 0; i < N; ++i) P.gamma[k][i] = std::exp(al[k][i] + be[k][i] - P.ll);
    for (int k = 0; k + 1 < T; ++k) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) P.xi[k][i][j] = std::exp(al[k][i] + std::log((LD)a[i][j]) + lb[k + 1][j] + be[k + 1][j] - P.ll);
    return P;
}
static V stochastic(Src &s, Rng &r, int N, bool zeros) { V p(N); double t = 0; for (int i = 0; i < N; ++i) { p[i] = zeros && s.chance(3) ? 0 : 0.05 + r.uni(); t += p[i]; } if (t == 0) { p[r.i(0, N - 1)] = 1; t = 1; } for (auto &v : p) v /= t; return p; }

SUB(C31, posteriors, 1500, "two or more states and observations of positive total probability") {
    int N = s.szl(1, 6, 40, 20), T = s.chance(4) ? s.szl(1, 200, 10, 1500) : s.sz(1, 12); Rng r(s.seed()); bool z = s.chance(3); V p0 = stochastic(s, r, N, z); M a(N); for (auto &row : a) row = stochastic(s, r, N, z);
    double lv = s.pick<double>({1, 1e-3, 1e-30, 1e30}); M b(T, V(N)); bool uneven = s.chance(3); for (auto &row : b) { double rl = uneven ? std::pow(10.0, 200 * r.sym()) : lv; for (auto &v : row) v = rl * (z && r.i(0, 5) == 0 ? 0 : std::exp(3 * r.gauss())); }
    s.note("N=%d T=%d zeros=%d level=%g uneven=%d", N, T, z, lv, uneven);
    std::vector<std::vector<LD>> lb(T, std::vector<LD>(N)); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) lb[t][i] = std::log((LD)b[t][i]);
    Post P = posteriors(p0, a, lb); if (!P.ok) return;
    double total = -1; if (T <= 12 && std::pow(double(N), T) <= 5000) {      // every state path
        LD sum = 0; long paths = 1; for (int t = 0; t < T; ++t) paths *= N; for (long q = 0; q < paths; ++q) { long k = q; LD p = 1; int prev = -1; for (int t = 0; t < T && p > 0; ++t) { int st = int(k % N); k /= N; p *= (t ? (LD)a[prev][st] : (LD)p0[st]) * b[t][st]; prev = st; } sum += p; }
        total = double(std::log(sum)); REQUIRE(std::fabs(total - (double)P.ll) < 1e-9 * (1 + std::fabs((double)P.ll)), "the two references disagree");
    }
    Mat am(a), bm(b), g(T, N); DBuf pm(p0); std::vector<Mat *> xm; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xm.push_back(new Mat(N, N)); xp.push_back(*xm.back()); }
    struct Del { std::vector<Mat *> &v; ~Del() { for (auto *q : v) delete q; } } del{xm};
    double ll = 123, l1 = 0, l2 = 0; int iter = s.i(1, 3); forward_backwards(xp.data(), g, &ll, &l1, &l2, iter, N, T, pm, am, bm);
    REQUIRE(close(ll, (double)P.ll, 1e-9 * (1 + std::fabs((double)P.ll))), "log likelihood %.12g, expected %.12Lg", ll, P.ll); REQUIRE(l1 == 123, "the previous log likelihood is reported as %g, expected 123", l1);
    for (int t = 0; t < T; ++t) { double sum = 0; for (int i = 0; i < N; ++i) { double v = (*g.r[t])[i]; sum += v; REQUIRE(close(v, (double)P.gamma[t][i], 1e-9), "posterior of state %d at %d of %d is %.12g, expected %.12Lg", i, t, T, v, P.gamma[t][i]); } REQUIRE(close(sum, 1, 1e-9), "posteriors at %d sum to %.12g", t, sum); }
    for (int t = 0; t + 1 < T; ++t) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double v = (*xm[t]->r[i])[j]; REQUIRE(close(v, (double)P.xi[t][i][j], 1e-9), "posterior of transition %d to %d at %d of %d is %.12g, expected %.12Lg", i, j, t, T, v, P.xi[t][i][j]); }
    sameBits("initial", pm.vec(), p0); for (int i = 0; i < N; ++i) sameBits("transitions", am.r[i]->vec(), a[i]); for (int t = 0; t < T; ++t) sameBits("observation probabilities", bm.r[t]->vec(), b[t]);
    s.nontrivial(N > 1 && T > 1);
}

// observation sequences: clusters, smooth walks, scaled dimensions
static M observations(Src &s, int T, int L, int &kind) {
    Rng r(s.seed()); kind = s.i(0, 4); int nc = s.i(1, 4); M cen(nc, V(L)); double sep = s.pick<double>({3, 1, 10, 40}); for (auto &c : cen) for (auto &v : c) v = sep * r.gauss(); V sc(L, 1.0); if (s.chance(3)) for (auto &v : sc) v = std::pow(10.0, 2 * r.sym()); V off(L, 0.0); if (s.chance(5)) for (auto &v : off) v = s.pick<double>({1e3, 1e5, 1e6}) * r.sym();
    M x(T, V(L)); int st = 0; V w(L, 0.0); for (int t = 0; t < T; ++t) { if (r.uni() < (kind == 1 ? 0.5 : 0.1)) st = r.i(0, nc - 1); for (int d = 0; d < L; ++d) { if (kind == 2) { w[d] = 0.9 * w[d] + r.gauss(); x[t][d] = sc[d] * w[d]; } else x[t][d] = sc[d] * (cen[st][d] + (kind == 3 ? 0.01 : 1) * r.gauss()); if (kind == 4 && d) x[t][d] += 0.8 * x[t][0] * sc[d] / sc[0]; } }
    for (auto &row : x) for (int d = 0; d < L; ++d) row[d] += sc[d] * off[d];      // a mean much larger than the spread
    s.note("T=%d L=%d kind=%d clusters=%d separation=%g", T, L, kind, nc, sep); return x;
}
struct Params { V p0; M a, mu, cov; };
static bool logdens(const Params &m, const M &x, std::vector<std::vector<LD>> &lb) {
    int T = int(x.size()), N = int(m.p0.size()), L = int(m.cov.size()); std::vector<std::vector<LD>> inv; LD det; if (!refInvert(m.cov, inv, det) || !(det > 0) || !(cond(m.cov, inv) < 1e10)) return false;
    lb.assign(T, std::vector<LD>(N)); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) { LD q = 0; for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) q += (x[t][d] - m.mu[i][d]) * inv[d][e] * (x[t][e] - m.mu[i][e]); lb[t][i] = -0.5L * (q + L * std::log(2 * M_PIl) + std::log(det)); } return true;
}
static Params read(const model_t *m) { Params p; p.p0.assign(m->p0, m->p0 + m->N); for (int i = 0; i < m->N; ++i) { p.a.push_back(V(m->a[i], m->a[i] + m->N)); p.mu.push_back(V(m->mu[i], m->mu[i] + m->L)); } for (int d = 0; d < m->L; ++d) p.cov.push_back(V(m->cov[d], m->cov[d] + m->L)); return p; }
static void validModel(const char *when, const Params &p, bool unvisited) {
    int N = int(p.p0.size()), L = int(p.cov.size()); double sum = 0; for (double v : p.p0) { REQUIRE(v >= 0 && v <= 1 + 1e-9, "%s: initial probability %g", when, v); sum += v; } REQUIRE(close(sum, 1, 1e-8), "%s: initial probabilities sum to %.12g", when, sum);
    for (int i = 0; i < N; ++i) { double t = 0; for (double v : p.a[i]) { REQUIRE(v >= 0 && v <= 1 + 1e-8, "%s: transition probability %g", when, v); t += v; } REQUIRE(close(t, 1, 1e-7) || (unvisited && t == 0), "%s: transitions from state %d of %d sum to %.12g", when, i, N, t); finite(when, p.mu[i]); }
    for (int d = 0; d < L; ++d) { finite(when, p.cov[d]); REQUIRE(p.cov[d][d] >= 0, "%s: variance %g", when, p.cov[d][d]); for (int e = 0; e < d; ++e) REQUIRE(close(p.cov[d][e], p.cov[e][d], 1e-9 * std::sqrt(p.cov[d][d] * p.cov[e][e]) + 1e-300), "%s: covariance not symmetric: %.12g and %.12g", when, p.cov[d][e], p.cov[e][d]); }
}
// one exact re-estimation step of the reference
static Params reestimate(const Params &m, const M &x, const Post &P) {
    int T = int(x.size()), N = int(m.p0.size()), L = int(m.cov.size()); Params o = m; std::vector<LD> sg(N, 0);
    for (int i = 0; i < N; ++i) { o.p0[i] = double(P.gamma[0][i]); for (int t = 0; t + 1 < T; ++t) sg[i] += P.gamma[t][i]; for (int j = 0; j < N; ++j) { LD v = 0; for (int t = 0; t + 1 < T; ++t) v += P.xi[t][i][j]; o.a[i][j] = sg[i] > 0 ? double(v / sg[i]) : 0; } }
    for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) { LD v = 0; for (int j = 0; j < N; ++j) for (int t = 0; t < T; ++t) v += P.gamma[t][j] * (x[t][d] - (LD)m.mu[j][d]) * (x[t][e] - (LD)m.mu[j][e]); o.cov[d][e] = double(v / T); }
    for (int j = 0; j < N; ++j) { sg[j] += P.gamma[T - 1][j]; for (int d = 0; d < L; ++d) { LD v = 0; for (int t = 0; t < T; ++t) v += P.gamma[t][j] * x[t][d]; o.mu[j][d] = double(v / sg[j]); } }
    return o;
}
SUB(C31, reestimation, 700, "two or more states and dimensions; one re-estimation step against the expectation formulas, and its likelihood") {
    int N = s.szl(1, 5, 40, 12), L = s.szl(1, 4, 40, 12), T = s.szl(2 + 4 * L, 60, 15, 800), kind; M x = observations(s, T, L, kind); Rng r(s.seed()); bool z = s.chance(4); s.note("N=%d", N);
    Params m; m.p0 = stochastic(s, r, N, z); m.a.resize(N); for (auto &row : m.a) row = stochastic(s, r, N, z); m.mu.resize(N); for (auto &row : m.mu) { row = x[r.i(0, T - 1)]; for (auto &v : row) v += r.gauss(); }
    V mean(L, 0.0); for (auto &row : x) for (int d = 0; d < L; ++d) mean[d] += row[d] / T; m.cov.assign(L, V(L, 0.0)); for (auto &row : x) for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) m.cov[d][e] += (row[d] - mean[d]) * (row[e] - mean[e]) / T;
    std::vector<std::vector<LD>> lb; if (!logdens(m, x, lb)) return; for (auto &row : lb) for (LD v : row) if (std::fabs(v) > 1e5) return;
    Post P = posteriors(m.p0, m.a, lb); if (!P.ok) return;
    Params w = reestimate(m, x, P); for (int j = 0; j < N; ++j) { LD t = 0; for (int k = 0; k < T; ++k) t += P.gamma[k][j]; if (t < 1e-6 || t - P.gamma[T - 1][j] < 1e-6) return; }
    Mat am(m.a), mu(m.mu), cov(m.cov), xm(x), g(T, N); DBuf p0(m.p0); for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i) (*g.r[t])[i] = double(P.gamma[t][i]);
    std::vector<Mat *> xi; std::vector<double **> xp; for (int t = 0; t < T; ++t) { xi.push_back(new Mat(N, N, 0)); xp.push_back(*xi.back()); if (t + 1 < T) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) (*xi[t]->r[i])[j] = double(P.xi[t][i][j]); }
    struct Del { std::vector<Mat *> &v; ~Del() { for (auto *q : v) delete q; } } del{xi};
    baum_welch(p0, am, mu, cov, N, T, L, xm, xp.data(), g); for (int t = 0; t < T; ++t) sameBits("observations", xm.r[t]->vec(), x[t]);
    Params o; o.p0 = p0.vec(); o.a = am.get(); o.mu = mu.get(); o.cov = cov.get(); validModel("after re-estimation", o, false);
    for (int i = 0; i < N; ++i) { REQUIRE(close(o.p0[i], w.p0[i], 1e-9), "initial probability %d is %.12g, expected %.12g", i, o.p0[i], w.p0[i]); for (int j = 0; j < N; ++j) REQUIRE(close(o.a[i][j], w.a[i][j], 1e-8), "transition %d to %d is %.12g, expected %.12g", i, j, o.a[i][j], w.a[i][j]);
        for (int d = 0; d < L; ++d) REQUIRE(close(o.mu[i][d], w.mu[i][d], 1e-8 * (std::sqrt(w.cov[d][d]) + std::fabs(w.mu[i][d]))), "mean %d of state %d is %.12g, expected %.12g", d, i, o.mu[i][d], w.mu[i][d]); }
    for (int d = 0; d < L; ++d) for (int e = 0; e < L; ++e) REQUIRE(close(o.cov[d][e], w.cov[d][e], 1e-9 * std::sqrt(w.cov[d][d] * w.cov[e][e])), "covariance (%d,%d) is %.12g, expected %.12g", d, e, o.cov[d][e], w.cov[d][e]);
    std::vector<std::vector<LD>> lb2; if (logdens(o, x, lb2)) { Post Q = posteriors(o.p0, o.a, lb2); REQUIRE(Q.ll >= P.ll - 1e-7 * (1 + std::fabs(P.ll)), "re-estimation lowered the log likelihood from %.12Lg to %.12Lg", P.ll, Q.ll); }
    s.nontrivial(N > 1 && L > 1);
}
SUB(C31, decode, 1500, "two or more states and observations; the joint probability of the returned path against the best path") {
    int N = s.szl(1, 6, 40, 20), L = s.sz(1, 3), T = s.chance(5) ? s.szl(1, 150, 10, 1000) : s.sz(1, 12), kind; M x = observations(s, T, L, kind); Rng r(s.seed()); bool z = s.chance(3); s.note("N=%d zeros=%d", N, z);
    Params m; m.p0 = stochastic(s, r, N, z); m.a.resize(N); for (auto &row : m.a) row = stochastic(s, r, N, z); m.mu.resize(N); for (auto &row : m.mu) { row = x[r.i(0, T - 1)]; for (auto &v : row) v += r.gauss(); } m.cov = spd(r, L, 0.3);
    if (s.chance(6)) for (int i = 1; i < N; ++i) m.mu[i] = m.mu[0];
    std::vector<std::vector<LD>> lb; if (!logdens(m, x, lb)) return;
    Mat am(m.a), mu(m.mu), cov(m.cov), xm(x); DBuf p0(m.p0); Buf<int> q(T, -7); model_t mod; mod.N = N; mod.L = L; mod.p0 = p0; mod.a = am; mod.mu = mu; mod.cov = cov; viterbi_decode(xm, T, &mod, q);
    for (int t = 0; t < T; ++t) REQUIRE(q[t] >= 0 && q[t] < N, "state %d at %d of %d", q[t], t, T);
    std::vector<LD> ph(N), nx(N); for (int i = 0; i < N; ++i) ph[i] = std::log((LD)m.p0[i]) + lb[0][i]; for (int t = 1; t < T; ++t) { for (int j = 0; j < N; ++j) { nx[j] = -INFINITY; for (int i = 0; i < N; ++i) nx[j] = std::max(nx[j], ph[i] + std::log((LD)m.a[i][j])); nx[j] += lb[t][j]; } ph = nx; }
    LD best = -INFINITY; for (LD v : ph) best = std::max(best, v); LD sc = std::log((LD)m.p0[q[0]]) + lb[0][q[0]]; for (int t = 1; t < T; ++t) sc += std::log((LD)m.a[q[t - 1]][q[t]]) + lb[t][q[t]];
    LD mag = 1; for (auto &row : lb) for (LD v : row) mag = std::max(mag, std::fabs(v));
    if (best > -INFINITY) REQUIRE(sc >= best - 1e-10 * mag * T, "the returned path has log probability %.12Lg, the best path %.12Lg", sc, best);
    if (T <= 12 && std::pow(double(N), T) <= 3000 && best > -INFINITY) { LD bf = -INFINITY; long paths = 1; for (int t = 0; t < T; ++t) paths *= N; for (long p = 0; p < paths; ++p) { long k = p; LD v = 0; int prev = 0; for (int t = 0; t < T; ++t) { int st = int(k % N); k /= N; v += std::log((LD)(t ? m.a[prev][st] : m.p0[st])) + lb[t][st]; prev = st; } bf = std::max(bf, v); } REQUIRE(std::fabs(bf - best) <= 1e-10 * mag * T, "the two references disagree"); }
    sameBits("initial", p0.vec(), m.p0); for (int i = 0; i < N; ++i) { sameBits("transitions", am.r[i]->vec(), m.a[i]); sameBits("means", mu.r[i]->vec(), m.mu[i]); } for (int t = 0; t < T; ++t) sameBits("observations", xm.r[t]->vec(), x[t]);
    s.nontrivial(N > 1 && T > 1 && best > -INFINITY);
}
SUB(C31, initial_model, 800, "two or more states; the initial model against the data's mean and variance") {
    int N = s.szl(1, 12, 30, 60), L = s.szl(1, 8, 30, 24), T = s.szl(2, 60, 20, 600), kind; M x = observations(s, T, L, kind); s.note("N=%d", N); detrand(s.seed()); Mat xm(x); model_t *m = hmm_init(xm, T, L, N); struct Del { model_t *m; ~Del() { hmm_close(m); } } del{m};
    REQUIRE(m->N == N && m->L == L, "model of %d states, %d dimensions", m->N, m->L); for (int t = 0; t < T; ++t) sameBits("observations", xm.r[t]->vec(), x[t]); Params p = read(m); validModel("initial model", p, false);
    for (int d = 0; d < L; ++d) { LD mean = 0, v = 0; for (auto &row : x) mean += row[d]; mean /= T; for (auto &row : x) v += (row[d] - mean) * (row[d] - mean); v /= T - 1;
        for (int e = 0; e < L; ++e) REQUIRE(close(p.cov[d][e], d == e ? double(v) : 0, 1e-9 * double(v) + 1e-12 * double(mean * mean)), "covariance (%d,%d) is %.12g, variance %.12Lg", d, e, p.cov[d][e], v);
        for (int i = 0; i < N; ++i) REQUIRE(std::fabs(p.mu[i][d] - mean) <= 0.2500001 * std::sqrt(v) + 1e-9 * std::fabs(mean), "mean of state %d is %.12g, the data's %.12Lg with deviation %.6Lg", i, p.mu[i][d], mean, std::sqrt(v)); }
    double lo = 1e9, hi = 0; for (double v : p.p0) { lo = std::min(lo, v); hi = std::max(hi, v); } REQUIRE(lo > 0 && hi <= 2.000001 * lo, "initial probabilities from %g to %g", lo, hi);
    for (auto &row : p.a) { lo = 1e9; hi = 0; for (double v : row) { lo = std::min(lo, v); hi = std::max(hi, v); } REQUIRE(lo > 0 && hi <= 2.000001 * lo, "transition probabilities from %g to %g", lo, hi); }
    s.nontrivial(N > 1);
}
// the reference's training run: expectation maximisation until the gain is below a ten-thousandth of the log likelihood
// (beyond that of the first observation at the second step, which is what the library subtracts)
static bool refTrain(Params m, const M &x, Params &out, LD &ll) {
    LD l1 = 0, l2 = 0, l = 0; int it = 0; bool margin = true;
    while (it < 50 && !(it > 1 && (l - l1) < 0.0001L * (l1 - l2))) {
        if (it > 2) { LD d = (l - l1) - 0.0001L * (l1 - l2); if (std::fabs(d) < 1e-6 * std::fabs(l1 - l2) + 1e-9 * std::fabs(l)) margin = false; }
        ++it; std::vector<std::vector<LD>> lb; if (!logdens(m, x, lb)) return false; Post P = posteriors(m.p0, m.a, lb); if (!P.ok) return false;
        for (auto &row : lb) { LD b = -1e9; for (LD v : row) b = std::max(b, v); if (b < -600) return false; }       // densities would underflow in double
        l1 = l; l = P.ll; if (it == 2) { std::vector<LD> f; for (size_t j = 0; j < m.p0.size(); ++j) f.push_back(std::log((LD)m.p0[j]) + lb[0][j]); l2 = lse(f); } for (size_t j = 0; j < m.p0.size(); ++j) { LD t = 0; for (auto &g : P.gamma) t += g[j]; if (t < 1e-9) return false; } m = reestimate(m, x, P);
    }
    if (it > 2) { LD d = (l - l1) - 0.0001L * (l1 - l2); if (std::fabs(d) < 1e-6 * std::fabs(l1 - l2) + 1e-9 * std::fabs(l)) margin = false; }
    std::vector<std::vector<LD>> lb; if (!logdens(m, x, lb)) return false; Post P = posteriors(m.p0, m.a, lb); out = m; ll = P.ll; return P.ok && margin;
}
SUB(C31, training, 150, "two or more states; a whole training run against its starting point and a reference run") {
    bool big = s.chance(60); int N = big ? s.i(3, 40) : s.sz(1, 5), L = big ? s.i(3, 24) : s.sz(1, 4), T = big ? s.i(10 * N + 5 * L, 10 * N + 5 * L + 60) : s.sz(10 * N + 5 * L, 120), kind; M x = observations(s, T, L, kind); s.note("N=%d", N); detrand(s.seed()); Mat xm(x); model_t *m = hmm_init(xm, T, L, N); struct Del { model_t *m; ~Del() { hmm_close(m); } } del{m}; Params p = read(m);
    hmm_train(xm, T, m); for (int t = 0; t < T; ++t) sameBits("observations", xm.r[t]->vec(), x[t]); Params o = read(m); REQUIRE(m->N == N && m->L == L, "model of %d states, %d dimensions", m->N, m->L);
    std::vector<std::vector<LD>> lb, lo; if (!logdens(p, x, lb)) return; Post P = posteriors(p.p0, p.a, lb); if (!P.ok) return; if (!logdens(o, x, lo)) { for (auto &row : o.cov) finite("covariance", row); return; }
    validModel("trained model", o, true); Post Q = posteriors(o.p0, o.a, lo); REQUIRE(Q.ok && Q.ll >= P.ll - 1e-6 * (1 + std::fabs(P.ll)), "training lowered the log likelihood from %.12Lg to %.12Lg", P.ll, Q.ll);
    s.nontrivial(N > 1); if (double(N) * L * T > 3000) return;
    Params r1, r2; LD l1, l2; if (!refTrain(p, x, r1, l1)) return; Params pp = p; Rng jr(7); for (auto &row : pp.mu) for (auto &v : row) v *= 1 + 1e-12 * jr.sym(); for (auto &v : pp.p0) v *= 1 + 1e-12 * jr.sym(); if (!refTrain(pp, x, r2, l2)) return;
    if (std::fabs(l1 - l2) > 1e-7 * (1 + std::fabs(l1))) return;       // a training run that amplifies rounding
    REQUIRE(std::fabs(Q.ll - l1) <= 1e-4 * (1 + std::fabs(l1)), "training reached a log likelihood of %.12Lg, the reference %.12Lg from %.12Lg", Q.ll, l1, P.ll); s.nontrivial(N > 1);
}
SUB(C31, training_short, 400, "a run over two or more observations, perhaps fewer than there are states or dimensions; a model of one state ends at the data's mean and covariance") {
    int N = s.chance(3) ? 1 : s.sz(1, 10), L = s.sz(1, 5), T = s.sz(2, 24), kind; M x = observations(s, T, L, kind); s.note("N=%d", N); detrand(s.seed()); Mat xm(x); model_t *m = hmm_init(xm, T, L, N); struct Del { model_t *m; ~Del() { hmm_close(m); } } del{m};
    hmm_train(xm, T, m); for (int t = 0; t < T; ++t) sameBits("observations", xm.r[t]->vec(), x[t]); REQUIRE(m->N == N && m->L == L, "model of %d states, %d dimensions", m->N, m->L); Params o = read(m); s.nontrivial();
    if (N > 1) return;
    V mean(L, 0.0), dev(L, 0.0); M c(L, V(L, 0.0)); for (auto &row : x) for (int d = 0; d < L; ++d) mean[d] += row[d] / T; for (auto &row : x) for (int d = 0; d < L; ++d) { dev[d] = std::max(dev[d], std::fabs(row[d] - mean[d])); for (int e = 0; e < L; ++e) c[d][e] += (row[d] - mean[d]) * (row[e] - mean[e]) / T; }
    std::vector<std::vector<LD>> inv; LD det; if (!refInvert(c, inv, det) || !(det > 0) || !(cond(c, inv) < 1e6)) return; for (int d = 0; d < L; ++d) { for (auto &row : x) if (std::fabs(row[d]) > 1e3 * dev[d]) return; if (dev[d] < 1e-6 || dev[d] > 1e6) return; }
    REQUIRE(close(o.p0[0], 1, 1e-9) && close(o.a[0][0], 1, 1e-9), "one state with initial probability %g, transition %g", o.p0[0], o.a[0][0]);
    for (int d = 0; d < L; ++d) { REQUIRE(close(o.mu[0][d], mean[d], 1e-8 * (dev[d] + std::fabs(mean[d]))), "mean %d is %.12g, the data's %.12g", d, o.mu[0][d], mean[d]);
        for (int e = 0; e < L; ++e) { double w = 0; for (auto &row : x) w += (row[d] - mean[d]) * (row[e] - mean[e]) / T; REQUIRE(close(o.cov[d][e], w, 1e-7 * dev[d] * dev[e]), "covariance (%d,%d) is %.12g, the data's %.12g", d, e, o.cov[d][e], w); } }
}
SUB(C31, training_robustness, 60, "hard data: outliers, tight clusters, long sequences; the model stays a valid one") {
    int N = s.sz(1, 4), L = s.sz(1, 3), kind = s.i(0, 2), T = kind == 1 ? s.sz(100, 500) : s.sz(1500, 4000); Rng r(s.seed()); M x(T, V(L)); s.note("N=%d L=%d T=%d kind=%d", N, L, T, kind);
    for (int t = 0; t < T; ++t) for (int d = 0; d < L; ++d) x[t][d] = kind == 1 ? (t * 3 / T) * 10.0 + 1e-3 * r.gauss() : 1e-3 * r.gauss();
    if (kind != 1) { int at = kind == 0 ? T - 1 : s.i(0, T - 1); s.note("outlier at %d", at); for (auto &v : x[at]) v = 1000; }
    detrand(s.seed()); Mat xm(x); model_t *m = hmm_init(xm, T, L, N); struct Del { model_t *m; ~Del() { hmm_close(m); } } del{m}; hmm_train(xm, T, m); Params o = read(m); validModel("trained model", o, true);
    Buf<int> q(T, -7); viterbi_decode(xm, T, m, q); for (int t = 0; t < T; ++t) REQUIRE(q[t] >= 0 && q[t] < N, "state %d at %d of %d", q[t], t, T); s.nontrivial();
}
