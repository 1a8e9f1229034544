// Reference implementations used as oracles: direct, slow, independent of the library.
#pragma once
#include <cmath>
#include <vector>
#include <algorithm>
namespace ref {
typedef std::vector<double> V;
// one bin of the DFT (inverse: conjugate kernel, unscaled); exact twiddle argument reduction
inline void dftBin(const V &re, const V &im, int k, bool inverse, double &outRe, double &outIm) {
    int n = int(re.size()); long double a = 0, b = 0; long long idx = 0;
    const double w = 2 * M_PI / n;
    for (int i = 0; i < n; ++i) {
        double ang = w * double(idx); double c = std::cos(ang), s = inverse ? std::sin(ang) : -std::sin(ang);
        a += (long double)re[i] * c - (long double)im[i] * s;
        b += (long double)re[i] * s + (long double)im[i] * c;
        idx += k; if (idx >= n) idx %= n;
    }
    outRe = double(a); outIm = double(b);
}
// bins 0..count-1 of the DFT of a real frame
inline void realDft(const V &x, int count, V &re, V &im) {
    int n = int(x.size()); re.assign(count, 0); im.assign(count, 0);
    V c(n), s(n); for (int i = 0; i < n; ++i) { c[i] = std::cos(2 * M_PI * i / n); s[i] = -std::sin(2 * M_PI * i / n); }
    for (int k = 0; k < count; ++k) { long double a = 0, b = 0; long long idx = 0;
        for (int i = 0; i < n; ++i) { a += (long double)x[i] * c[idx]; b += (long double)x[i] * s[idx]; idx += k; if (idx >= n) idx %= n; }
        re[k] = double(a); im[k] = double(b); }
}
// radix-2 FFT (size a power of two), unscaled in both directions
inline void fft2(V &re, V &im, bool inverse) {
    size_t n = re.size();
    for (size_t i = 1, j = 0; i < n; ++i) { size_t b = n >> 1; for (; j & b; b >>= 1) j ^= b; j ^= b; if (i < j) { std::swap(re[i], re[j]); std::swap(im[i], im[j]); } }
    V c(n / 2 + 1), s(n / 2 + 1); for (size_t i = 0; i < n / 2; ++i) { c[i] = std::cos(2 * M_PI * i / n); s[i] = (inverse ? 1 : -1) * std::sin(2 * M_PI * i / n); }
    for (size_t len = 2; len <= n; len <<= 1) for (size_t i = 0; i < n; i += len) for (size_t k = 0; k < len / 2; ++k) {
        size_t a = i + k, b = a + len / 2, t = k * (n / len);
        double x = re[b] * c[t] - im[b] * s[t], y = re[b] * s[t] + im[b] * c[t];
        re[b] = re[a] - x; im[b] = im[a] - y; re[a] += x; im[a] += y;
    }
}
inline V rotateHalf(const V &x) { int n = int(x.size()); V y(n); for (int i = 0; i < n / 2; ++i) { y[i] = x[i + n / 2]; y[i + n / 2] = x[i]; } return y; }
// y[i] = sum b[k] x[i-k] - sum a[k] y[i-k]
inline V filter(const V &a, const V &b, const V &x) {
    V y(x.size());
    for (size_t i = 0; i < x.size(); ++i) {
        long double t = 0;
        for (size_t k = 0; k < b.size() && k <= i; ++k) t += (long double)b[k] * x[i - k];
        for (size_t k = 1; k < a.size() && k <= i; ++k) t -= (long double)a[k] * y[i - k];
        y[i] = double(t);
    }
    return y;
}
inline double median(V v) { std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2; }
}
