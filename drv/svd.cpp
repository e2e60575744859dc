// Singular values and symmetric eigenvalues: 2x2 kernels, bidiagonal and
// tridiagonal iterations, the SVD of a general matrix.
#include "eig.hpp"
#include <tlapack/lapack/lae2.hpp>
#include <tlapack/lapack/laev2.hpp>
#include <tlapack/lapack/singularvalues22.hpp>
#include <tlapack/lapack/svd22.hpp>
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/gesvd.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;

/// integer codes with the order of the values: 0 for zero, sign kept, equal
/// values equal codes; -10^9 for a value that is not finite
static vector<long> ranks(const vector<LR>& v)
{
    vector<LR> s;
    for (LR x : v) if (std::isfinite(x)) s.push_back(x);
    s.push_back(0);
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    long z = std::lower_bound(s.begin(), s.end(), LR(0)) - s.begin();
    vector<long> r;
    for (LR x : v) r.push_back(std::isfinite(x) ? long(std::lower_bound(s.begin(), s.end(), x) - s.begin()) - z : -BIG);
    return r;
}
template <class T> static vector<LR> reals(PV<T>& d)
{
    vector<LR> r;
    for (auto& z : d.get()) r.push_back(z.real());
    return r;
}
struct Worst {
    long v = 0, at = -1;
    void operator()(long x, long k) { if (x > v) v = x, at = k; }
};
/// the triples a 2x2 kernel is tried on
template <class T> static vector<std::array<T, 3>> triples(Ctx& c)
{
    Rng g(c.i("seed"));
    vector<std::array<T, 3>> out;
    if (c.i("kind") == 0) {
        vector<double> S = {0, 1, -1, 2, -3, 1 + 1.0 / 1024, -1 - 1.0 / 1024, 0x1p-20, -0x1p-20, 0x1p30, -0x1p30, .75};
        for (double x : S) for (double y : S) for (double z : S) out.push_back({T(x), T(y), T(z)});
    }
    else
        for (long k = 0; k < c.i("count"); ++k) {
            std::array<T, 3> w;
            long e = c.i("kind") == 2 ? 30 : 0;
            for (auto& x : w) {
                x = T(ldexp(g.sym(), g.in(-e, e)));
                if (g.in(0, 9) == 0) x = T(0);
            }
            if (g.in(0, 5) == 0) w[2] = w[0];
            if (g.in(0, 5) == 0) w[2] = w[0] * (1 + std::numeric_limits<T>::epsilon());
            if (g.in(0, 7) == 0) w[1] = (w[0] - w[2]) / 2;
            if (g.in(0, 9) == 0) w[2] = -w[0];
            out.push_back(w);
        }
    return out;
}
template <class T> void n_sym22_(Ctx& c)
{
    Rec r;
    const LR eps = epsof<T>();
    Worst w1, w2, res, orth, agree, ord;
    long k = 0;
    for (auto& [a, b, d] : triples<T>(c)) {
        T s1, s2, t1, t2, cs, sn;
        lae2(a, b, d, s1, s2);
        laev2(a, b, d, t1, t2, cs, sn);
        LR A = a, B = b, C = d, df = A - C, sm = A + C, rt = hypotl(df, 2 * B);
        LR x1 = sm < 0 ? (sm - rt) / 2 : (sm + rt) / 2, x2 = x1 == 0 ? -x1 : ((A / x1) * C - (B / x1) * B);
        LR sc = std::max(fabsl(x1), fabsl(x2));
        w1(U(fabsl(s1 - x1), fabsl(x1), eps), k);
        w2(U(fabsl(s2 - x2), sc, eps), k);
        agree(U(fabsl(LR(s1) - t1) + fabsl(LR(s2) - t2), sc, eps), k);
        ord(fabsl(s1) < fabsl(s2) * (1 - 4 * eps), k);
        LR q = cs, p = sn;
        orth(U(fabsl(q * q + p * p - 1), 1, eps), k);
        // [cs sn; -sn cs] [a b; b c] [cs -sn; sn cs]
        LR m11 = q * (q * A + p * B) + p * (q * B + p * C), m12 = -p * (q * A + p * B) + q * (q * B + p * C);
        LR m22 = -p * (-p * A + q * B) + q * (-p * B + q * C);
        res(U(std::max(std::max(fabsl(m11 - t1), fabsl(m12)), fabsl(m22 - t2)), sc, eps), k);
        ++k;
    }
    r.put("n", k); r.put("large", w1.v); r.put("small", w2.v); r.put("agree", agree.v); r.put("order", ord.v == 0);
    r.put("orth", orth.v); r.put("res", res.v);
    r.put("at", std::max(std::max(w1.at, w2.at), std::max(orth.at, res.at)));
    c.ret = r.done();
}
template <class T> void n_svd22_(Ctx& c)
{
    Rec r;
    const LR eps = epsof<T>();
    Worst w1, w2, y1, y2, res, ol, orr, neg;
    long k = 0;
    for (auto& [f, g, h] : triples<T>(c)) {
        T mn, mx, smn, smx, csl, snl, csr, snr;
        singularvalues22(f, g, h, mn, mx);
        svd22(f, g, h, smn, smx, csl, snl, csr, snr);
        LR F = f, G = g, H = h;
        LR x1 = (hypotl(F + H, G) + hypotl(F - H, G)) / 2, x2 = x1 == 0 ? 0 : fabsl(F) * (fabsl(H) / x1);
        w1(U(fabsl(mx - x1), x1, eps), k);
        w2(U(fabsl(mn - x2), x2, eps), k);
        neg(!(mn >= 0 && mx >= mn * (1 - 4 * eps)), k);
        y1(U(fabsl(fabsl(LR(smx)) - x1), x1, eps), k);
        y2(U(fabsl(fabsl(LR(smn)) - x2), x2, eps), k);
        LR cl = csl, sl = snl, cr = csr, sr = snr;
        ol(U(fabsl(cl * cl + sl * sl - 1), 1, eps), k);
        orr(U(fabsl(cr * cr + sr * sr - 1), 1, eps), k);
        LR a11 = cl * F, a12 = cl * G + sl * H, a21 = -sl * F, a22 = -sl * G + cl * H;
        LR b11 = a11 * cr + a12 * sr, b12 = -a11 * sr + a12 * cr, b21 = a21 * cr + a22 * sr, b22 = -a21 * sr + a22 * cr;
        LR e = std::max(std::max(fabsl(b11 - smx), fabsl(b12)), std::max(fabsl(b21), fabsl(b22 - smn)));
        res(U(e, x1, eps), k);
        ++k;
    }
    r.put("n", k); r.put("large", w1.v); r.put("small", w2.v); r.put("order", neg.v == 0); r.put("vlarge", y1.v); r.put("vsmall", y2.v);
    r.put("orthl", ol.v); r.put("orthr", orr.v); r.put("res", res.v);
    r.put("at", std::max(std::max(w2.at, y2.at), std::max(ol.at, res.at)));
    c.ret = r.done();
}
/// off-diagonal and diagonal of a test tridiagonal/bidiagonal matrix
static void bands(Rng& g, long kind, idx n, vector<LR>& d, vector<LR>& e)
{
    for (idx i = 0; i < n; ++i) {
        LR x = g.sym(), y = g.sym();
        switch (kind) {
            case 1: x = g.in(-2, 2); y = g.in(-1, 1); break;
            case 2: x = 2; y = -1; break;                                            // equal diagonal
            case 3: x = ldexpl(x, -3 * long(i % 9)); y = ldexpl(y, -3 * long(i % 9)); break;  // graded
            case 4: x = ldexpl(x, -3 * long((n - 1 - i) % 9)); y = ldexpl(y, -3 * long((n - 1 - i) % 9)); break;
            case 5: if (g.in(0, 2) == 0) y = 0; if (g.in(0, 3) == 0) x = 0; break;   // splits and zeros
            case 6: x = 0; y = 0; break;
            case 7: x = fabsl(LR(i) - LR(n - 1) / 2); y = 1; break;                  // Wilkinson
            case 8: x = 0; y = 1; break;                                             // zero diagonal
            case 9: x = ldexpl(x, 40); y = ldexpl(y, 40); break;
            case 10: x = ldexpl(x, -40); y = ldexpl(y, -40); break;
            case 11: x = 1; y = ldexpl(1, -long(6 * i)); break;
            default: break;
        }
        d[i] = x;
        if (i + 1 < n) e[i] = y;
    }
}
template <class T> static XM diagm(const vector<LR>& d, idx m = 0, idx n = 0)
{
    XM A(m ? m : d.size(), n ? n : d.size());
    for (idx i = 0; i < d.size(); ++i) A(i, i) = d[i];
    return A;
}
template <class T, char a> void n_steqr_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    Rng g(c.i("seed"));
    idx n = c.i("n");
    bool wz = c.i("wantz");
    long nz = c.i("nz");  // rows of Z
    vector<LR> dd(n), ee(n);
    bands(g, c.i("kind"), n, dd, ee);
    PV<R> d(n, c.i("inc")), e(n ? n - 1 : 0, c.i("inc")), d2(n), e2(n ? n - 1 : 0);
    XM Tm(n, n);
    for (idx i = 0; i < n; ++i) {
        d[i] = d2[i] = R(dd[i]);
        Tm(i, i) = LR(d[i]);
        if (i + 1 < n) { e[i] = e2[i] = R(ee[i]); Tm(i, i + 1) = Tm(i + 1, i) = LR(e[i]); }
    }
    PM<T, L> Z(wz ? nz : 1, wz ? n : 1), Zs(1, 1);
    XM Z0(nz, n);
    if (wz) {
        Z0 = rounded<T>(c.i("ident") ? eye(nz, n) : nz >= long(n) ? block(runitary<T>(g, nz), 0, 0, nz, n) : block(runitary<T>(g, n), 0, 0, nz, n));
        Z.set(Z0);
    }
    else Zs = Z;
    auto dv = d.v(); auto ev = e.v(); auto Zv = Z.v();
    long ret = steqr(wz, dv, ev, Zv);
    Rec r;
    r.put("ret", ret);
    auto D = reals(d);
    r.arr("order", ranks(D));
    r.put("pad", d.pad_ok() && e.pad_ok() && Z.pad_ok() && (wz || Z.same(Zs)));
    // eigenvalues by bisection on the exact tridiagonal matrix
    LR nt = nrm(Tm);
    vector<LR> ex(n);
    for (idx k = 0; k < n; ++k) {
        LR lo = -2 * nt - 1e-30L, hi = 2 * nt + 1e-30L;
        for (int it = 0; it < 90; ++it) {
            LR x = (lo + hi) / 2, q = 1;
            idx cnt = 0;
            for (idx i = 0; i < n; ++i) {
                LR o = i ? Tm(i, i - 1).real() : 0;
                q = Tm(i, i).real() - x - (i ? o * o / q : 0);
                if (q == 0) q = 1e-4000L;
                if (q < 0) ++cnt;
            }
            if (cnt > k) hi = x;
            else lo = x;
        }
        ex[k] = (lo + hi) / 2;
    }
    LR we = 0;
    for (idx k = 0; k < n; ++k) we = std::max(we, std::isfinite(D[k]) ? fabsl(D[k] - ex[k]) : LR(INFINITY));
    r.put("val", nt == 0 ? (we > 1e-29L ? BIG : 0) : U(we, nt * n, epsof<T>()));
    if (wz) {
        XM ZX = Z.get();
        r.put("res", diffU<T>(mul(Z0, mul(Tm, ct(Z0))), mul(ZX, mul(diagm<T>(D), ct(ZX))), nt));
        r.put("orth", diffU<T>(mul(Z0, ct(Z0)), mul(ZX, ct(ZX)), 1));
        r.put("gram", nz >= long(n) ? orthoU<T>(ZX) : 0);
    }
    c.ret = r.done();
}
template <class T, char a> void n_svdqr_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), nu = c.i("nu"), nv = c.i("nv");
    bool wu = c.i("wantu"), wv = c.i("wantv");
    bool up = c.str("uplo") == "U";
    vector<LR> dd(n), ee(n);
    bands(g, c.i("kind"), n, dd, ee);
    PV<R> d(n, c.i("inc")), e(n ? n - 1 : 0, c.i("inc")), d2(n), e2(n ? n - 1 : 0);
    XM B(n, n);
    for (idx i = 0; i < n; ++i) {
        d[i] = d2[i] = R(dd[i]);
        B(i, i) = LR(d[i]);
        if (i + 1 < n) { e[i] = e2[i] = R(ee[i]); (up ? B(i, i + 1) : B(i + 1, i)) = LR(e[i]); }
    }
    PM<T, L> Um(wu ? nu : 1, wu ? n : 1), Vm(wv ? n : 1, wv ? nv : 1);
    auto orth0 = [&](idx p) { return rounded<T>(p >= n ? block(runitary<T>(g, p), 0, 0, p, n) : block(runitary<T>(g, n), 0, 0, p, n)); };
    XM U0 = orth0(nu), V0 = ct(orth0(nv));
    if (wu) Um.set(U0);
    if (wv) Vm.set(V0);
    PM<T, L> Us = Um, Vs = Vm;
    auto dv = d.v(); auto ev = e.v(); auto Uv = Um.v(); auto Vv = Vm.v();
    auto dv2 = d2.v(); auto ev2 = e2.v();
    Uplo ul = up ? Uplo::Upper : Uplo::Lower;
    Rec r;
    r.put("ret", svd_qr(ul, wu, wv, dv, ev, Uv, Vv));
    // the same values with the other choice of vectors
    PM<T, L> Uf(n, n), Vf(n, n);
    Uf.set(eye(n, n)); Vf.set(eye(n, n));
    auto Ufv = Uf.v(); auto Vfv = Vf.v();
    r.put("ret2", svd_qr(ul, !wu, !wv, dv2, ev2, Ufv, Vfv));
    auto D = reals(d), D2 = reals(d2);
    r.arr("order", ranks(D)); r.arr("order2", ranks(D2));
    r.put("pad", d.pad_ok() && e.pad_ok() && Um.pad_ok() && Vm.pad_ok() && (wu || Um.same(Us)) && (wv || Vm.same(Vs)));
    LR nb = nrm(B), w = 0;
    for (idx k = 0; k < n; ++k) w = std::max(w, fabsl(D[k] - D2[k]));
    r.put("agree", U(w, nb * n, epsof<T>()));
    XM S = diagm<T>(D), UX = Um.get(), VX = Vm.get();
    if (wu && wv) r.put("res", diffU<T>(mul(U0, mul(B, V0)), mul(UX, mul(S, VX)), nb));
    if (wu) {
        r.put("ures", diffU<T>(mul(U0, mul(mul(B, ct(B)), ct(U0))), mul(UX, mul(mul(S, S), ct(UX))), nb * nb));
        r.put("uorth", diffU<T>(mul(U0, ct(U0)), mul(UX, ct(UX)), 1));
        r.put("ugram", nu >= n ? orthoU<T>(UX) : 0);
    }
    if (wv) {
        r.put("vres", diffU<T>(mul(ct(V0), mul(mul(ct(B), B), V0)), mul(ct(VX), mul(mul(S, S), VX)), nb * nb));
        r.put("vorth", diffU<T>(mul(ct(V0), V0), mul(ct(VX), VX), 1));
        r.put("vgram", nv >= n ? orthoU<T>(ct(VX)) : 0);
    }
    // invariants of the singular values: the Frobenius norm
    LR f = 0;
    for (auto x : D) f += x * x;
    r.put("fro", U(fabsl(sqrtl(f) - nb), nb * std::max<idx>(1, n), epsof<T>()));
    c.ret = r.done();
}
template <class T, char a> void n_gesvd_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    Rng g(c.i("seed"));
    idx m = c.i("m"), n = c.i("n"), k = std::min(m, n);
    bool wu = c.i("wantu"), wv = c.i("wantv");
    PM<T, L> A(m, n);
    XM A0 = rnd_into(A, g, c.i("kind"));
    if (c.i("kind") == 1 && g.in(0, 2) == 0) { A0 = XM(m, n); A.set(A0); }
    PM<T, L> A2 = A;
    PM<T, L> Um(wu ? m : 1, wu ? (c.i("fullu") ? m : k) : 1), Vm(wv ? (c.i("fullv") ? n : k) : 1, wv ? n : 1), Us = Um, Vs = Vm;
    PM<T, L> U2(m, m), V2(n, n);
    PV<R> s(k, c.i("inc")), s2(k, c.i("inc"));
    auto Av = A.v(); auto sv = s.v(); auto Uv = Um.v(); auto Vv = Vm.v();
    Rec r;
    r.put("ret", gesvd(wu, wv, Av, sv, Uv, Vv));
    auto Av2 = A2.v(); auto sv2 = s2.v(); auto Uv2 = U2.v(); auto Vv2 = V2.v();
    r.put("ret2", gesvd(!wu, !wv, Av2, sv2, Uv2, Vv2));
    auto D = reals(s), D2 = reals(s2);
    r.arr("order", ranks(D)); r.arr("order2", ranks(D2));
    r.put("pad", A.pad_ok() && s.pad_ok() && Um.pad_ok() && Vm.pad_ok() && (wu || Um.same(Us)) && (wv || Vm.same(Vs)));
    LR na = nrm(A0), w = 0, f = 0;
    LR dim = std::max<idx>(1, std::max(m, n));
    for (idx i = 0; i < k; ++i) w = std::max(w, fabsl(D[i] - D2[i])), f += D[i] * D[i];
    r.put("agree", U(w, na * dim, epsof<T>()));
    r.put("fro", U(fabsl(sqrtl(f) - na), na * dim, epsof<T>()));
    XM UX = Um.get(), VX = Vm.get();
    if (wu && wv) r.put("res", diffU<T>(A0, mul(block(UX, 0, 0, m, k), mul(diagm<T>(D), block(VX, 0, 0, k, n)))));
    if (wu) {
        XM S = diagm<T>(D, UX.n, UX.n);
        r.put("ures", diffU<T>(mul(A0, ct(A0)), mul(UX, mul(mul(S, S), ct(UX))), na * na));
        r.put("ugram", orthoU<T>(UX));
    }
    if (wv) {
        XM S = diagm<T>(D, VX.m, VX.m);
        r.put("vres", diffU<T>(mul(ct(A0), A0), mul(ct(VX), mul(mul(S, S), VX)), na * na));
        r.put("vgram", orthoU<T>(ct(VX)));
    }
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(n_steqr_) ALL1(n_svdqr_) ALL1(n_gesvd_)
VR0(n_sym22_, d, D) VR0(n_sym22_, s, S) VR0(n_svd22_, d, D) VR0(n_svd22_, s, S)
