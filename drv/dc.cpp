// Divide and conquer: sorting, merging, the secular equation.
#include "num.hpp"
#include <tlapack/lapack/lasrt.hpp>
#include <tlapack/lapack/lamrg.hpp>
#include <tlapack/lapack/laed4.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;

template <class T, char d> void lasrt_(Ctx& c)
{
    auto x = c.V<T, dir<d>::v>("x");
    c.setint(lasrt(c.str("id")[0], idx(size(x)), x));
}
template <class T> void lamrg_(Ctx& c)
{
    auto a = c.V<T, Direction::Forward>("x");
    auto p = c.V<std::int64_t, Direction::Forward>("ind");
    idx n1 = c.i("n1");
    lamrg(n1, idx(size(a)) - n1, a, int(c.i("d1")), int(c.i("d2")), p);
}

struct Sec {                 // poles, squared weights, 1/rho, all exact
    vector<LR> d, z2;
    LR ri;
    /// f(d[o] + t) and the size of its terms
    LR f(size_t o, LR t, LR* size = nullptr) const
    {
        LR s = ri, a = fabsl(ri);
        for (size_t j = 0; j < d.size(); ++j) {
            LR q = z2[j] / ((d[j] - d[o]) - t);
            s += q; a += fabsl(q);
        }
        if (size) *size = a;
        return s;
    }
    /// the root in (d[i], d[i+1]), as origin and offset
    std::pair<size_t, LR> root(size_t i, LR top) const
    {
        size_t n = d.size(), o = i;
        LR lo = 0, hi;
        if (i + 1 < n) {
            LR g = d[i + 1] - d[i];
            if (f(i, g / 2) > 0) hi = g / 2;
            else o = i + 1, lo = -g / 2, hi = 0;
        }
        else hi = top;
        for (int k = 0; k < 300; ++k) {
            LR m = (lo + hi) / 2;
            if (m == lo || m == hi) break;
            (f(o, m) > 0 ? hi : lo) = m;
        }
        return {o, lo == 0 ? hi : lo};
    }
};
template <class T> static void poles(Rng& g, int kind, size_t n, vector<T>& d, vector<T>& z, T& rho)
{
    const LR eps = epsof<T>();
    LR x = g.sym() * 4;
    vector<LR> w(n);
    d.assign(n, T(0)); z.assign(n, T(0));
    rho = T(ldexp(1 + g.u01(), kind == 5 ? g.in(-8, 8) : g.in(-1, 3)));
    for (size_t j = 0; j < n; ++j) {
        LR gap;
        if (kind == 0) gap = 1;
        else if (kind == 1) gap = .1 + g.u01();
        else if (kind == 2) gap = g.in(0, 1) ? 1 : ldexpl(1, -g.in(3, 6)) ;
        else if (kind == 3) gap = g.in(0, 2) ? sqrtl(eps) * (1 + g.u01()) : g.u01() + .01;
        else if (kind == 4) gap = 256 * eps * (1 + g.u01()) * 8;
        else gap = ldexpl(1 + g.u01(), g.in(-6, 3));
        if (kind == 6) gap = j % 2 ? 1 : 4096 * eps;
        x += gap;
        d[j] = T(x);
        if (j && !(d[j] > d[j - 1])) d[j] = std::nextafter(d[j - 1], std::numeric_limits<T>::max());
        w[j] = g.sym();
        if (w[j] == 0) w[j] = .5;
        if (fabsl(w[j]) < .01) w[j] = .01;
        if (kind == 2 && g.in(0, 2) == 0) w[j] *= sqrtl(eps);
        if (kind == 5) w[j] = ldexpl(w[j], -g.in(0, 10));
        if (kind == 7) w[j] = g.in(0, 1) ? 1 : -1;
        if (kind == 8) w[j] = j == n / 2 ? 1 : 4096 * eps;
    }
    LR s = 0;
    for (auto v : w) s += v * v;
    for (size_t j = 0; j < n; ++j) z[j] = T(w[j] / sqrtl(s));
}
template <class T> void n_laed4_(Ctx& c)
{
    Rec r;
    Rng g(c.i("seed"));
    const LR eps = epsof<T>();
    size_t n = c.i("n");
    vector<T> d, z, d0, z0;
    T rho;
    poles(g, c.i("kind"), n, d, z, rho);
    d0 = d; z0 = z;
    Sec S;
    S.ri = 1 / LR(rho);
    LR top = 0, sc = fabsl(rho);
    for (size_t j = 0; j < n; ++j) {
        S.d.push_back(d[j]); S.z2.push_back(LR(z[j]) * z[j]);
        top += S.z2[j] * rho; sc = std::max(sc, fabsl(LR(d[j])));
    }
    long ret = 0, sign = 1, in = 1, lam = 0, res = 0, del = 0, vec = 0, unit = 0, tr = 0;
    LR sum = 0;
    for (size_t i = 0; i < n; ++i) {
        vector<T> delta(n, std::numeric_limits<T>::quiet_NaN());
        T dlam = std::numeric_limits<T>::quiet_NaN();
        ret = std::max<long>(ret, laed4(n, i, d, z, delta, rho, dlam));
        LR x = dlam;
        sum += x - S.d[i];
        auto [o, t] = S.root(i, top * (1 + 8 * eps));
        lam = std::max(lam, U(fabsl((x - S.d[o]) - t), sc, eps));
        // in its own interval, the ends included (rounding), never further
        LR hi = i + 1 < n ? S.d[i + 1] : S.d[i] + top * (1 + 64 * eps) + 4 * eps * sc;
        if (!(x >= S.d[i] && x <= hi)) in = 0;
        if (n == 1) { if (delta[0] != T(1)) sign = 0; continue; }
        if (n == 2) {
            // delta is the unit eigenvector of diag(d) + rho z z'
            LR a = delta[0], b = delta[1], p = LR(z[0]) * a + LR(z[1]) * b;
            unit = std::max(unit, U(fabsl(hypotl(a, b) - 1), 1, eps));
            LR e1 = S.d[0] * a + rho * z[0] * p - x * a, e2 = S.d[1] * b + rho * z[1] * p - x * b;
            vec = std::max(vec, U(hypotl(e1, e2), sc, eps));
            continue;
        }
        LR f = S.ri, m = fabsl(S.ri), dw = 0;
        for (size_t j = 0; j < n; ++j) {
            LR q = delta[j];
            if (!(j <= i ? q < 0 : q > 0)) sign = 0;
            f += S.z2[j] / q; m += fabsl(S.z2[j] / q); dw += fabsl(S.z2[j] / (q * q));
            del = std::max(del, U(fabsl(q - (S.d[j] - x)), sc, eps));
        }
        LR tau = x - S.d[o];
        res = std::max(res, U(fabsl(f), m * n + fabsl(tau) * dw, eps));
    }
    tr = U(fabsl(sum - top), sc, eps);
    r.put("ret", ret); r.put("in", in); r.put("sign", sign); r.put("lam", lam); r.put("res", res);
    r.put("del", del); r.put("vec", vec); r.put("unit", unit); r.put("tr", tr); r.put("n", n);
    r.put("same", d == d0 && z == z0);
    c.ret = r.done();
}
/// the middle root of rho + z1/(d1-x) + z2/(d2-x) + z3/(d3-x), nearest 0
template <class T> void n_laed6_(Ctx& c)
{
    Rec r;
    Rng g(c.i("seed"));
    const LR eps = epsof<T>();
    int kind = c.i("kind");
    long ret = 0, in = 1, res = 0, same = 1, bad = -1;
    for (long k = 0; k < c.i("count"); ++k) {
        bool org = g.in(0, 1), org0 = org;
        LR sc = kind == 1 ? ldexpl(1, -g.in(0, std::numeric_limits<T>::max_exponent / 3)) : 1;
        auto p = [&](int e) { return (.05L + g.u01()) * ldexpl(1, kind == 2 ? -g.in(0, sizeof(T) == 4 ? e / 4 : e) : 0); };
        vector<T> d(3), z(3), d0, z0;
        LR a = p(20), b = p(20), e = p(6);
        if (org) { d[0] = T(-(a + e) * sc); d[1] = T(-a * sc); d[2] = T(b * sc); }
        else { d[0] = T(-a * sc); d[1] = T(b * sc); d[2] = T((b + e) * sc); }
        for (auto& x : z) x = T(p(30) * sc);
        T rho = T((kind == 3 ? 30 * g.sym() : g.sym()) * 2);
        LR f0 = rho;
        for (int j = 0; j < 3; ++j) f0 += LR(z[j]) / d[j];
        T fi = T(f0), fi0 = fi, tau = std::numeric_limits<T>::quiet_NaN();
        d0 = d; z0 = z;
        ret = std::max<long>(ret, laed6(idx(g.in(1, 4)), org, rho, d, z, fi, tau));
        same &= d == d0 && z == z0 && org == org0 && fi == fi0;
        LR x = tau, lo = org ? d[1] : d[0], hi = org ? d[2] : d[1];
        if (fi < 0) lo = 0; else hi = 0;
        if (!(x >= lo && x <= hi)) in = 0;
        LR m, df;
        auto at = [&](LR y) {
            LR f = fi;
            m = fabsl(f), df = 0;
            for (int j = 0; j < 3; ++j) {
                LR q = y * (LR(z[j]) / d[j] / (LR(d[j]) - y));
                f += q; m += fabsl(q); df += LR(z[j]) / ((LR(d[j]) - y) * (LR(d[j]) - y));
            }
            return f;
        };
        LR f = at(x);
        long u = U(fabsl(f), m + fabsl(x) * df, eps);
        // a root between two neighbours of tau is as good as the format allows
        // (near a pole the residual says nothing)
        if (u > 40) {
            LR s = 4 * fabsl(x) * eps;
            if ((x - s <= lo || at(x - s) <= 0) && (x + s >= hi || at(x + s) >= 0)) u = 40;
        }
        if (u > res) res = u, bad = k;
    }
    r.put("ret", ret); r.put("in", in); r.put("res", res); r.put("same", same); r.put("at", bad);
    c.ret = r.done();
}
VR1(lasrt_, d, D, F) VR1(lasrt_, d, D, B) VR1(lasrt_, s, S, F)
VR0(lamrg_, d, D) VR0(lamrg_, s, S)
VR0(n_laed4_, d, D) VR0(n_laed4_, s, S) VR0(n_laed6_, d, D) VR0(n_laed6_, s, S)
