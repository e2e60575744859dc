// Generalized eigenvalue iterations on a Hessenberg-triangular pair and their
// building blocks.
#include "hess.hpp"
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/lahqr_eig22.hpp>
#include <tlapack/lapack/lahqz_schur22.hpp>
#include <tlapack/lapack/multishift_qz.hpp>
#include <tlapack/lapack/aggressive_early_deflation_generalized.hpp>
#include <tlapack/lapack/multishift_qz_sweep.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;

/// upper triangular test matrices
template <class T, Layout L> void tri_into(PM<T, L>& B, Rng& g, long kind)
{
    using R = real_type<T>;
    idx n = B.n;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            T v = g.val<T>();
            if (i > j) v = T(0);
            else switch (kind) {
                case 1: v = T(i == j ? 1 : 0); break;                                    // identity
                case 2: if (i == j && g.u01() < .3) v = T(0); break;                     // infinite eigenvalues
                case 3: v = v * T(R(ldexp(1.0, -int((i + j) % 14)))); break;             // graded
                case 4: if (i == j) v = T(R(-1 - g.u01())); break;                       // negative diagonal
                case 5: if (i == j) v = v * T(R(ldexp(1.0, -g.in(0, 60)))); break;       // tiny diagonal entries
                case 6: v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? 50 : 400))); break;
                case 7: v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? -50 : -400))); break;
                case 8: v = g.ival<T>(2); break;                                         // small integers, often singular
                case 9: if (i == j) v = T(R(1 + g.u01())); break;                        // positive diagonal
                case 10: v = (i == j && (i == 0 || i + 1 == n)) ? T(0) : v; break;       // infinite at both ends
                case 11: if (i == j) v = T(R(i % 3 == 0 ? 0 : 1)); else v = v * T(R(.1)); break;
                default: if (i == j) v = v + T(real(v) < 0 ? R(-1) : R(1)); break;
            }
            B.at(i, j) = v;
        }
}
inline XM tripart(const XM& A)
{
    XM B = A;
    for (idx j = 0; j < B.n; ++j) for (idx i = j + 1; i < B.m; ++i) B(i, j) = 0;
    return B;
}
inline XM lin(const XM& A, LC a, const XM& B, LC b)   // a A + b B
{
    XM M = A;
    for (idx k = 0; k < M.a.size(); ++k) M.a[k] = cmul(a, A.a[k]) + cmul(b, B.a[k]);
    return M;
}
/// determinant by elimination
inline LC detL(XM F)
{
    idx n = F.n;
    LC d = 1;
    for (idx j = 0; j < n; ++j) {
        idx q = j;
        for (idx i = j + 1; i < n; ++i) if (absl(F(i, j)) > absl(F(q, j))) q = i;
        if (F(q, j) == LC(0)) return 0;
        if (q != j) { d = -d; for (idx k = 0; k < n; ++k) std::swap(F(j, k), F(q, k)); }
        d = cmul(d, F(j, j));
        for (idx i = j + 1; i < n; ++i) {
            LC z = cdivL(F(i, j), F(j, j));
            for (idx k = j + 1; k < n; ++k) F(i, k) -= cmul(z, F(j, k));
        }
    }
    return d;
}
/// backward error of the eigenvalue pair (al, be) of the pair (A, B) with norms na, nb
inline LR pairres(const XM& A, const XM& B, LC al, LC be, LR na, LR nb, Rng& g, bool& fin)
{
    LR s = std::max(absl(al) / (na > 0 ? na : 1), absl(be) / (nb > 0 ? nb : 1));
    if (!std::isfinite(s)) { fin = false; return 0; }
    if (s == 0) {   // 0/0: the pencil must be singular
        LR w = 0;
        for (int k = 0; k < 2; ++k) {
            LC x = lc(g.val<Z>()), y = lc(g.val<Z>());
            w = std::max(w, smin(lin(A, x / (na > 0 ? na : 1), B, y / (nb > 0 ? nb : 1)), g));
        }
        return w;
    }
    // beta A - alpha B, scaled
    LC a = be / s, b = -al / s;
    if (na > 0) b /= na; 
    if (nb > 0) a /= nb;
    XM As = A, Bs = B;
    if (na > 0) for (auto& z : As.a) z /= na;
    if (nb > 0) for (auto& z : Bs.a) z /= nb;
    return smin(lin(As, a, Bs, b), g) / (absl(a) + absl(b) > 0 ? absl(a) + absl(b) : 1);
}
/// the eigenvalue pairs are those of (A, B): backward errors and, through the
/// determinant at two points, multiplicities
template <class T>
void check_pairs(Rec& r, Rng& g, const XM& A, const XM& B, const vector<LC>& al, const vector<LC>& be)
{
    idx n = A.n;
    LR na = nrm(A), nb = nrm(B), eps = epsof<T>(), sg = 0;
    bool fin = true;
    for (idx i = 0; i < n; ++i) sg = std::max(sg, pairres(A, B, al[i], be[i], na, nb, g, fin));
    r.put("fin", fin);
    r.put("sig", U(sg, sqrtl(LR(n ? n : 1)), eps));
    LR dv = 0;
    if (n && na > 0 && nb > 0 && fin) {
        LC d[2], p[2] = {1, 1};
        LR kap = 0;
        XM As = A, Bs = B;
        for (auto& z : As.a) z /= na;
        for (auto& z : Bs.a) z /= nb;
        bool z0 = false;
        for (int k = 0; k < 2; ++k) {
            LR th = g.u01() * 6.28L;
            LC x(cosl(th), sinl(th));
            XM M = lin(As, 1, Bs, -x);
            LR s = smin(M, g);
            kap = std::max(kap, s > 0 ? 1 / s : 1e30L);
            d[k] = detL(M);
            for (idx i = 0; i < n; ++i) {
                LC a = al[i] / na, b = be[i] / nb;
                LR s = std::max(absl(a), absl(b));
                if (s == 0) { z0 = true; break; }
                p[k] = cmul(p[k], (a - cmul(x, b)) / s);
            }
        }
        if (!z0 && n * kap * eps < 1e-3L && absl(d[1]) > 0 && absl(p[1]) > 0) {
            LC q = cdivL(d[0], d[1]), w = cdivL(p[0], p[1]);
            dv = U(absl(cdivL(w, q) - LC(1)), n * n * kap, eps);
        }
    }
    r.put("det", long(dv));
}
template <class T>
void check_gschur(Rec& r, Rng& g, const XM& A0, const XM& B0, XM X, XM Y, const XM& Q0, const XM& QX, const XM& Z0, const XM& ZX,
                  const vector<LC>& al, const vector<LC>& be, idx ilo, idx ihi, bool ws, bool wq, bool wz)
{
    constexpr bool real = is_real<T>;
    idx n = A0.n, nh = ihi - ilo;
    LR an = nrm(A0), bn = nrm(B0), eps = epsof<T>();
    XM Ab = block(A0, ilo, ilo, nh, nh), Bb = block(B0, ilo, ilo, nh, nh);
    vector<LC> ab(al.begin() + ilo, al.begin() + ihi), bb(be.begin() + ilo, be.begin() + ihi);
    check_pairs<T>(r, g, Ab, Bb, ab, bb);
    X = hesspart(X); Y = tripart(Y);
    bool out = true;
    for (idx jj = 0; jj < n; ++jj)
        for (idx i = 0; i <= std::min(jj + 1, n - 1); ++i) {
            bool ra = i >= ilo && i < ihi, ca = jj >= ilo && jj < ihi;
            if (!ws ? !(ra && ca) : (!ra && !ca)) if (X(i, jj) != A0(i, jj) || Y(i, jj) != B0(i, jj)) out = false;
        }
    r.put("out", out);
    if (ws) {
        vector<long> bl = blocks(X);
        bool bOK = true, std_ = true, fin = true, pairs = true;
        LR we = 0;
        idx j = 0;
        for (long b : bl) {
            if (b == -1) { bOK = false; break; }
            if (j >= ilo && j < ihi) {
                if (b == 1) { if (al[j] != X(j, j) || be[j] != Y(j, j)) std_ = false; }
                else if (!real) bOK = false;
                else {
                    if (Y(j, j + 1) != LC(0) || !(Y(j, j).real() >= 0)) std_ = false;
                    XM A2 = block(X, j, j, 2, 2), B2 = block(Y, j, j, 2, 2);
                    for (int k = 0; k < 2; ++k) we = std::max(we, pairres(A2, B2, al[j + k], be[j + k], an, bn, g, fin));
                    if (!fin || al[j].imag() == 0 || al[j + 1].imag() == 0) pairs = false;
                    else {
                        // conjugate ratios
                        LC u = cmul(al[j], std::conj(be[j + 1])), v = cmul(std::conj(al[j + 1]), be[j]);
                        if (absl(u - v) > 64 * eps * absl(u)) pairs = false;
                    }
                }
            }
            j += b;
        }
        r.put("blk", bOK); r.put("std", std_); r.put("pairs", pairs);
        r.put("weq", fin ? U(we, 1, eps) : 999L);
    }
    XM Aq = mul(Q0, A0), Bq = mul(Q0, B0);
    auto keepcols = [&](const XM& P0, const XM& P) { for (idx jj = 0; jj < n; ++jj) if (jj < ilo || jj >= ihi) for (idx i = 0; i < n; ++i) if (P(i, jj) != P0(i, jj)) return false; return true; };
    if (wq) r.put("qout", keepcols(Q0, QX)), r.put("qorth", orthoU<T>(QX));
    if (wz) r.put("zout", keepcols(Z0, ZX)), r.put("zorth", orthoU<T>(ZX));
    if (ws) {
        if (wq && wz) {
            r.put("ares", diffU<T>(mul(Q0, mul(A0, ct(Z0))), mul(QX, mul(X, ct(ZX))), an));
            r.put("bres", diffU<T>(mul(Q0, mul(B0, ct(Z0))), mul(QX, mul(Y, ct(ZX))), bn));
        }
        else if (wq) {
            XM F = mul(Q0, A0), G = mul(QX, X), H = mul(Q0, B0), K = mul(QX, Y);
            r.put("ares", diffU<T>(mul(F, ct(F)), mul(G, ct(G)), an * an));
            r.put("bres", diffU<T>(mul(H, ct(H)), mul(K, ct(K)), bn * bn));
            r.put("cres", diffU<T>(mul(F, ct(H)), mul(G, ct(K)), an * bn));
        }
        else if (wz) {
            XM F = mul(A0, ct(Z0)), G = mul(X, ct(ZX)), H = mul(B0, ct(Z0)), K = mul(Y, ct(ZX));
            r.put("ares", diffU<T>(mul(ct(F), F), mul(ct(G), G), an * an));
            r.put("bres", diffU<T>(mul(ct(H), H), mul(ct(K), K), bn * bn));
            r.put("cres", diffU<T>(mul(ct(H), F), mul(ct(K), G), an * bn));
        }
        else {
            r.put("ares", U(fabsl(nrm(X) - an), an * n, eps));
            r.put("bres", U(fabsl(nrm(Y) - bn), bn * n, eps));
        }
    }
}
template <class T, Layout L> struct Pair {
    PM<T, L> A, B, Q, Zm, Qs, Zs;
    XM A0, B0, Q0, Z0;
    Pair(Rng& g, idx n, idx ilo, idx ihi, long ka, long kb, bool id) : A(n, n), B(n, n), Q(n, n), Zm(n, n), Qs(0, 0), Zs(0, 0)
    {
        hess_into(A, g, ka, ilo, ihi);
        tri_into(B, g, kb);
        A0 = A.get(); B0 = B.get();
        Q0 = rounded<T>(id ? eye(n, n) : runitary<T>(g, n));
        Z0 = rounded<T>(id ? eye(n, n) : runitary<T>(g, n));
        Q.set(Q0); Zm.set(Z0);
        Qs = Q; Zs = Zm;
    }
};
template <class T, char a> void n_hqz_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi");
    bool ms = c.str("alg") == "ms";
    bool ws = c.i("wants"), wq = c.i("wantq"), wz = c.i("wantz");
    Pair<T, L> p(g, n, ilo, ihi, c.i("kind"), c.i("kb"), c.i("zid", 0));
    PV<CT> al(n, c.i("inc", 1));
    PV<T> be(n, c.i("inc", 1));
    for (idx i = 0; i < n; ++i) al[i] = CT(R(-77), R(i)), be[i] = T(R(i) + 99);
    PV<CT> als = al; PV<T> bes = be;
    auto Av = p.A.v(); auto Bv = p.B.v(); auto Qv = p.Q.v(); auto Zv = p.Zm.v(); auto alv = al.v(); auto bev = be.v();
    FrancisOpts o;
    if (c.has("nmin")) {
        o.nmin = c.i("nmin"); o.nibble = c.i("nibble");
        size_t ns = c.i("ns"), nw = c.i("nw");
        o.nshift_recommender = [ns](size_t, size_t) { return ns; };
        o.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
    }
    Rec r;
    r.put("ret", coded([&]() -> long {
        if (ms) return multishift_qz(ws, wq, wz, ilo, ihi, Av, Bv, alv, bev, Qv, Zv, o);
        return lahqz(ws, wq, wz, ilo, ihi, Av, Bv, alv, bev, Qv, Zv);
    }));
    bool scratch = ms && n >= o.nmin;
    XM X = p.A.get(), Y = p.B.get();
    r.put("low", scratch || (hessOK(X) && hessOK(Y, 0)));
    r.put("pad", p.A.pad_ok() && p.B.pad_ok() && al.pad_ok() && be.pad_ok() && p.Q.pad_ok() && p.Zm.pad_ok());
    r.put("keep", (wz || p.Zm.same(p.Zs)) && (wq || p.Q.same(p.Qs)));
    bool wo = true;
    for (idx i = 0; i < n; ++i) if (i < ilo || i >= ihi) if (al[i] != als[i] || be[i] != bes[i]) wo = false;
    r.put("wout", wo);
    check_gschur<T>(r, g, p.A0, p.B0, X, Y, p.Q0, p.Q.get(), p.Z0, p.Zm.get(), al.get(), be.get(), ilo, ihi, ws, wq, wz);
    if (wq || wz) {
        PM<T, L> A2(n, n), B2(n, n), E(0, 0), F(0, 0);
        A2.set(p.A0); B2.set(p.B0);
        PV<CT> al2(n); PV<T> be2(n);
        auto A2v = A2.v(); auto B2v = B2.v(); auto Ev = E.v(); auto Fv = F.v(); auto al2v = al2.v(); auto be2v = be2.v();
        long ret2 = coded([&]() -> long {
            if (ms) return multishift_qz(ws, false, false, ilo, ihi, A2v, B2v, al2v, be2v, Ev, Fv, o);
            return lahqz(ws, false, false, ilo, ihi, A2v, B2v, al2v, be2v, Ev, Fv);
        });
        if (ret2 == 0) {
            bool same = true;
            for (idx i = ilo; i < ihi; ++i) if (al2[i] != al[i] || be2[i] != be[i]) same = false;
            if (ws) same = same && nrm(sub(hesspart(A2.get()), hesspart(X))) == 0 && nrm(sub(tripart(B2.get()), tripart(Y))) == 0;
            r.put("same", same);
        }
        else r.put("same", -1L);
    }
    c.ret = r.done();
}
/// one deflation or one sweep: a unitary equivalence of the active block
template <class T, Layout L>
void check_gstep(Rec& r, Pair<T, L>& p, idx ilo, idx ihi, bool ws, bool wq, bool wz)
{
    idx n = p.A0.n, nh = ihi - ilo;
    XM X = hesspart(p.A.get()), Y = tripart(p.B.get()), QX = p.Q.get(), ZX = p.Zm.get();
    r.put("pad", p.A.pad_ok() && p.B.pad_ok() && p.Q.pad_ok() && p.Zm.pad_ok());
    r.put("keep", (wz || p.Zm.same(p.Zs)) && (wq || p.Q.same(p.Qs)));
    bool out = true;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i <= std::min(j + 1, n - 1); ++i) {
            bool ra = i >= ilo && i < ihi, ca = j >= ilo && j < ihi;
            if (!ws ? !(ra && ca) : (!ra && !ca)) if (X(i, j) != p.A0(i, j) || Y(i, j) != p.B0(i, j)) out = false;
        }
    r.put("out", out);
    if (wq) r.put("qorth", orthoU<T>(QX));
    if (wz) r.put("zorth", orthoU<T>(ZX));
    XM Ab = block(p.A0, ilo, ilo, nh, nh), Xb = block(X, ilo, ilo, nh, nh), Bb = block(p.B0, ilo, ilo, nh, nh), Yb = block(Y, ilo, ilo, nh, nh);
    LR an = nrm(Ab), bn = nrm(Bb);
    XM QQ = block(mul(ct(p.Q0), QX), ilo, ilo, nh, nh), ZZ = block(mul(ct(p.Z0), ZX), ilo, ilo, nh, nh);
    if (wq && wz) {
        r.put("ares", diffU<T>(Ab, mul(QQ, mul(Xb, ct(ZZ)))));
        r.put("bres", diffU<T>(Bb, mul(QQ, mul(Yb, ct(ZZ)))));
        if (ws) {
            r.put("afull", diffU<T>(mul(p.Q0, mul(p.A0, ct(p.Z0))), mul(QX, mul(X, ct(ZX))), nrm(p.A0)));
            r.put("bfull", diffU<T>(mul(p.Q0, mul(p.B0, ct(p.Z0))), mul(QX, mul(Y, ct(ZX))), nrm(p.B0)));
        }
    }
    else if (wq) {
        XM G = mul(QQ, Xb), K = mul(QQ, Yb);
        r.put("ares", diffU<T>(mul(Ab, ct(Ab)), mul(G, ct(G)), an * an));
        r.put("bres", diffU<T>(mul(Bb, ct(Bb)), mul(K, ct(K)), bn * bn));
        r.put("cres", diffU<T>(mul(Ab, ct(Bb)), mul(G, ct(K)), an * bn));
    }
    else if (wz) {
        XM G = mul(Xb, ct(ZZ)), K = mul(Yb, ct(ZZ));
        r.put("ares", diffU<T>(mul(ct(Ab), Ab), mul(ct(G), G), an * an));
        r.put("bres", diffU<T>(mul(ct(Bb), Bb), mul(ct(K), K), bn * bn));
        r.put("cres", diffU<T>(mul(ct(Bb), Ab), mul(ct(K), G), an * bn));
    }
    r.put("fro", U(std::max(fabsl(nrm(Xb) - an) / (an > 0 ? an : 1), fabsl(nrm(Yb) - bn) / (bn > 0 ? bn : 1)), nh ? nh : 1, epsof<T>()));
}
template <class T, char a> void n_aedg_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi"), nw = c.i("nw");
    bool ws = c.i("wants"), wq = c.i("wantq"), wz = c.i("wantz");
    Pair<T, L> p(g, n, ilo, ihi, c.i("kind"), c.i("kb"), false);
    if (c.i("tiny", 0))
        for (idx i = ihi - std::min<idx>(3, ihi - ilo - 1); i < ihi; ++i) p.A.at(i, i - 1) = p.A.at(i, i - 1) * T(R(ldexp(1.0, -g.in(0, 30))));
    p.A0 = p.A.get();
    PV<CT> al(n); PV<T> be(n);
    for (idx i = 0; i < n; ++i) al[i] = CT(R(-77), R(i)), be[i] = T(R(i) + 99);
    PV<CT> als = al; PV<T> bes = be;
    FrancisOpts o;
    o.nmin = c.i("nmin", 75);
    o.nshift_recommender = [](size_t, size_t) { return size_t(2); };
    o.deflation_window_recommender = [](size_t, size_t) { return size_t(3); };
    tlapack::size_type<vf::MatT<T, L>> ns = 77, nd = 77;
    auto Av = p.A.v(); auto Bv = p.B.v(); auto Qv = p.Q.v(); auto Zv = p.Zm.v(); auto alv = al.v(); auto bev = be.v();
    Rec r;
    r.put("ret", coded([&]() -> long { aggressive_early_deflation_generalized(ws, wq, wz, ilo, ihi, nw, Av, Bv, alv, bev, Qv, Zv, ns, nd, o); return 0; }));
    check_gstep<T, L>(r, p, ilo, ihi, ws, wq, wz);
    idx jw = std::min(std::min(nw, ihi - ilo), (n - 3) / 3);
    r.put("count", ns + nd == jw);
    r.put("nd", nd);
    XM X = hesspart(p.A.get()), Y = tripart(p.B.get());
    idx s = ihi - (nd <= jw ? nd : 0);
    r.put("defl", nd == 0 || s == ilo || X(s, s - 1) == LC(0));
    bool ok = true, fin = true;
    LR we = 0, an = nrm(p.A0), bn = nrm(p.B0);
    for (idx j = s; j < ihi;) {
        idx b = (j + 1 < ihi && X(j + 1, j) != LC(0)) ? 2 : 1;
        if (b == 2 && (!is_real<T> || (j + 2 < ihi && X(j + 2, j + 1) != LC(0)))) { ok = false; break; }
        XM A2 = block(X, j, j, b, b), B2 = block(Y, j, j, b, b);
        for (idx k = 0; k < b; ++k) we = std::max(we, pairres(A2, B2, lc(al[j + k]), lc(be[j + k]), an, bn, g, fin));
        j += b;
    }
    r.put("schur", ok && fin);
    r.put("weq", U(we, 1, epsof<T>()));
    bool wo = al.pad_ok() && be.pad_ok();
    for (idx i = 0; i < n; ++i) if (i < ihi - jw || i >= ihi) if (al[i] != als[i] || be[i] != bes[i]) wo = false;
    r.put("wout", wo);
    c.ret = r.done();
}
template <class T, char a> void n_sweepg_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi"), ns = c.i("ns");
    bool ws = c.i("wants"), wq = c.i("wantq"), wz = c.i("wantz");
    Pair<T, L> p(g, n, ilo, ihi, c.i("kind"), c.i("kb"), false);
    PV<CT> s(ns); PV<T> be(ns);
    LR sc = nmax(p.A0), sb = nmax(p.B0);
    for (idx i = 0; i + 1 < ns; i += 2) {
        LC z = lc(g.val<Z>()) * sc;
        bool cplx = g.in(0, 1);
        be[i] = T(R(g.u01() * sb)); be[i + 1] = cplx ? be[i] : T(R(g.u01() * sb));
        if (is_complex<T>) { s[i] = CT(R(z.real()), R(z.imag())); z = lc(g.val<Z>()) * sc; s[i + 1] = CT(R(z.real()), R(z.imag())); }
        else if (cplx) { s[i] = CT(R(z.real()), R(fabsl(z.imag()))); s[i + 1] = std::conj(s[i]); }
        else { s[i] = CT(R(z.real())); s[i + 1] = CT(R(z.imag())); }
    }
    auto Av = p.A.v(); auto Bv = p.B.v(); auto Qv = p.Q.v(); auto Zv = p.Zm.v(); auto sv = s.v(); auto bv = be.v();
    Rec r;
    multishift_QZ_sweep(ws, wq, wz, ilo, ihi, Av, Bv, sv, bv, Qv, Zv);
    check_gstep<T, L>(r, p, ilo, ihi, ws, wq, wz);
    r.put("ret", 0L);
    c.ret = r.done();
}
/// 2-by-2 pairs
template <class T> void n_qz22_(Ctx& c)
{
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    long kind = c.i("kind");
    XM A0(3, 3), B0(3, 3);
    auto gen = [&](bool b) {
        T v = kind == 1 ? g.ival<T>(2) : g.val<T>();
        if (kind == 2) v = v * T(R(ldexp(1.0, g.in(-20, 20))));
        if (kind == 3 && g.in(0, 2) == 0) v = T(0);
        if (kind == 4) v = v * T(R(ldexp(1.0, b ? (sizeof(R) == 4 ? 60 : 400) : (sizeof(R) == 4 ? -30 : -200))));
        if (kind == 5) v = v * T(R(ldexp(1.0, b ? (sizeof(R) == 4 ? -50 : -400) : (sizeof(R) == 4 ? 30 : 200))));
        return lc(v);
    };
    for (idx j = 0; j < 3; ++j) for (idx i = 0; i < 3; ++i) { if (i <= j + 1) A0(i, j) = gen(false); if (i <= j) B0(i, j) = gen(true); }
    if (kind == 6) B0(g.in(0, 1), 0) = 0, B0(1, 1) = g.in(0, 1) ? LC(0) : B0(1, 1);
    B0(1, 0) = 0;
    if (kind == 7) A0(1, 0) = 0;
    XM A2 = block(A0, 0, 0, 2, 2), B2 = block(B0, 0, 0, 2, 2);
    LR na = nrm(A2), nb = nrm(B2), eps = epsof<T>();
    Rec r;
    bool fin = true;
    {
        PM<T> A(2, 2), B(2, 2);
        A.set(A2); B.set(B2);
        auto Av = A.v(); auto Bv = B.v();
        CT a1, a2; T b1, b2;
        lahqz_eig22(Av, Bv, a1, a2, b1, b2);
        Rec e;
        check_pairs<T>(r, g, A2, B2, {lc(a1), lc(a2)}, {lc(b1), lc(b2)});
        r.put("conj", !is_real<T> || (imag(a1) == 0 && imag(a2) == 0) || (imag(a1) > 0 && imag(a2) < 0));
        // start vector: compared with the exact one where that is not cancelled away
        LR worst = 0;
        for (idx n = 2; n <= 3; ++n) {
            if (kind >= 2) break;
            PM<T> H(n, n), K(n, n);
            for (idx i = 0; i < n; ++i) B0(i, i) += real(narrow<T>(B0(i, i))) < 0 ? -2 : 2;
            H.set(block(A0, 0, 0, n, n)); K.set(block(B0, 0, 0, n, n));
            XM Hx = H.get(), Kx = K.get();
            PV<T> x(n);
            auto Hv = H.v(); auto Kv = K.v(); auto xv = x.v();
            CT s1, s2; T c1 = T(R(.5 + g.u01())), c2 = T(R(.5 + g.u01()));
            LC z = lc(g.val<Z>());
            if (is_complex<T>) { s1 = CT(R(z.real()), R(z.imag())); z = lc(g.val<Z>()); s2 = CT(R(z.real()), R(z.imag())); }
            else if (g.in(0, 1)) { s1 = CT(R(z.real()), R(z.imag())); s2 = std::conj(s1); c2 = c1; }
            else s1 = CT(R(z.real())), s2 = CT(R(z.imag()));
            lahqz_shiftcolumn(Hv, Kv, xv, s1, s2, c1, c2);
            // (c1 A - s1 B) e1
            vector<LC> y(n), w(n);
            for (idx i = 0; i < n; ++i) y[i] = cmul(lc(c1), Hx(i, 0)) - cmul(lc(s1), Kx(i, 0));
            LR sc = 0;
            if (n == 3) {
                for (idx i = n; i-- > 0;) { for (idx j = i + 1; j < n; ++j) y[i] -= cmul(Kx(i, j), y[j]); y[i] = cdivL(y[i], Kx(i, i)); }
                for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) {
                    LC q = cmul(cmul(lc(c2), Hx(i, j)) - cmul(lc(s2), Kx(i, j)), y[j]);
                    w[i] += q;
                    sc = std::max(sc, (absl(lc(c2)) * absl(Hx(i, j)) + absl(lc(s2)) * absl(Kx(i, j))) * absl(y[j]));
                }
            }
            else {
                if (is_real<T> && imag(s1) != 0) break;     // two real shifts or none: the column would not be real
                w = y;
                for (idx i = 0; i < n; ++i) sc = std::max(sc, absl(lc(c1)) * absl(Hx(i, 0)) + absl(lc(s1)) * absl(Kx(i, 0)));
            }
            LC pv = 0; LR pp = 0;
            for (idx i = 0; i < n; ++i) { pv += cmul(std::conj(w[i]), lc(x[i])); pp += absl(w[i]) * absl(w[i]); }
            if (pp <= sc * sc * 1e-4L) continue;
            LC f = pv / pp;
            LR er = 0;
            for (idx i = 0; i < n; ++i) er = std::max(er, absl(lc(x[i]) - cmul(f, w[i])));
            worst = std::max(worst, er / (absl(f) * sqrtl(pp) * 100));
            if (!(absl(f) > 0)) worst = 9;
        }
        r.put("col", U(worst, 1, eps));
    }
    {
        PM<T> A(2, 2), B(2, 2);
        A.set(A2); B.set(B2);
        auto Av = A.v(); auto Bv = B.v();
        CT a1, a2; R b1, b2; R cl, cr; T sl, sr, s0, s1;
        lahqz_schur22(Av, Bv, a1, a2, b1, b2, cl, sl, cr, sr, s0, s1);
        XM S = A.get(), TT = B.get(), Q(2, 2), Z1(2, 2), D(2, 2);
        Q(0, 0) = LC(cl); Q(0, 1) = -lc(sl); Q(1, 0) = std::conj(lc(sl)); Q(1, 1) = LC(cl);
        Z1(0, 0) = LC(cr); Z1(0, 1) = -std::conj(lc(sr)); Z1(1, 0) = lc(sr); Z1(1, 1) = LC(cr);
        D(0, 0) = lc(s0); D(1, 1) = lc(s1);
        Z1 = mul(Z1, D);
        r.put("sqorth", orthoU<T>(Q)); r.put("szorth", orthoU<T>(Z1));
        r.put("sares", diffU<T>(A2, mul(Q, mul(S, ct(Z1))), na)); r.put("sbres", diffU<T>(B2, mul(Q, mul(TT, ct(Z1))), nb));
        bool f = TT(1, 0) == LC(0) && TT(0, 0).imag() == 0 && TT(1, 1).imag() == 0 && TT(0, 0).real() >= 0 && TT(1, 1).real() >= 0;
        if (S(1, 0) != LC(0)) f = f && is_real<T> && TT(0, 1) == LC(0) && imag(a1) != 0;
        else f = f && lc(a1) == S(0, 0) && lc(a2) == S(1, 1) && LR(b1) == TT(0, 0).real() && LR(b2) == TT(1, 1).real();
        r.put("sform", f);
        LR we = 0;
        we = std::max(pairres(S, TT, lc(a1), LC(b1), na, nb, g, fin), pairres(S, TT, lc(a2), LC(b2), na, nb, g, fin));
        r.put("sfin", fin);
        r.put("sval", U(we, 1, eps));
        r.put("pad", A.pad_ok() && B.pad_ok());
    }
    c.ret = r.done();
}
/// the reflector that clears the first column of a 2-by-3 matrix from the right
template <class T> void n_invh_(Ctx& c)
{
    using R = real_type<T>;
    Rng g(c.i("seed"));
    long kind = c.i("kind");
    PM<T> A(2, 3);
    for (idx j = 0; j < 3; ++j) for (idx i = 0; i < 2; ++i) {
        T v = kind == 1 ? g.ival<T>(2) : g.val<T>();
        if (kind == 2) v = v * T(R(ldexp(1.0, g.in(-20, 20))));
        if (kind == 3 && g.in(0, 2) == 0) v = T(0);
        if (kind == 4) v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? 40 : 300)));
        if (kind == 5) v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? -40 : -300)));
        if (kind == 6 && i == 1) v = A.at(0, j) * T(2);
        A.at(i, j) = v;
    }
    XM A0 = A.get();
    auto Av = A.v();
    PV<T> v(3);
    auto vv = v.v();
    T tau;
    inv_house3(Av, vv, tau);
    // H = I - tau v v^H with v(0) = 1, applied from the right
    XM w(3, 1);
    w(0, 0) = 1; w(1, 0) = lc(v[1]); w(2, 0) = lc(v[2]);
    XM H = lin(eye(3, 3), 1, mul(w, ct(w)), -lc(tau));
    XM P = mul(A0, H);
    Rec r;
    r.put("orth", orthoU<T>(H));
    r.put("zero", U(std::max(absl(P(0, 0)), absl(P(1, 0))), nrm(A0), epsof<T>()));
    r.put("same", nrm(sub(A.get(), A0)) == 0 && A.pad_ok() && v.pad_ok());
    c.ret = r.done();
}
#define T4(op) VR0(op, s, S) VR0(op, d, D) VR0(op, c, vf::C) VR0(op, z, Z)
T4(n_qz22_) T4(n_invh_)
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(n_hqz_) ALL1(n_aedg_) ALL1(n_sweepg_)
