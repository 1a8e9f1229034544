// generator of filter coefficient sets with a known bound on error amplification
#pragma once
#include "pbt.hpp"
struct Coefs { std::vector<double> a, b; double gain; };
inline Coefs makeCoefs(pbt::Src &s, int order, bool fir) {
    Coefs c; c.gain = 20;
    c.b.resize(order + 1);
    int kind = int(s.draw(4));
    if (kind == 0 && order == 2 && !fir) {      // the library's own butterworth
        c.a = {1.0, -0.5949, 0.2348}; c.b = {0.1600, 0.3200, 0.1600}; c.gain = 100; s.note("butterworth"); return c;
    }
    if (order <= 12) for (auto &x : c.b) x = s.val(2);
    else { pbt::Rng r(s.seed()); for (auto &x : c.b) x = r.sym() * 2; }
    if (fir) { s.notev("b", c.b); return c; }
    c.a.assign(order + 1, 0.0); c.a[0] = 1;
    if (kind <= 2 || order > 6) {                // sum of |a| below one: stable
        pbt::Rng r(s.seed()); double tot = 0; for (int i = 1; i <= order; ++i) { c.a[i] = r.sym(); tot += std::fabs(c.a[i]); }
        double sc = s.uni(0, 0.95); if (tot > 0) for (int i = 1; i <= order; ++i) c.a[i] *= sc / tot;
        if (kind == 2 && order >= 1) { for (int i = 1; i < order; ++i) c.a[i] = 0; c.a[order] = sc; }   // only the last tap: reaches the far end of the history
    } else {                                      // poles inside the circle
        std::vector<double> p = {1.0}; int left = order; c.gain = 1;
        while (left > 0) {
            double rad = s.uni(0, 0.9), th = s.uni(0, M_PI); std::vector<double> q;
            if (left >= 2) { q = {1, -2 * rad * std::cos(th), rad * rad}; left -= 2; c.gain *= 1 / ((1 - rad) * (1 - rad)); }
            else { q = {1, -rad}; left -= 1; c.gain *= 1 / (1 - rad); }
            std::vector<double> t(p.size() + q.size() - 1, 0.0);
            for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < q.size(); ++j) t[i + j] += p[i] * q[j];
            p = t;
        }
        c.a = p; c.gain = std::min(1e6, 20 + c.gain);
    }
    s.notev("a", c.a); s.notev("b", c.b);
    return c;
}
