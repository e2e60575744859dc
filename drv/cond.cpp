// Reductions to condensed form: Hessenberg, bidiagonal, tridiagonal,
// Hessenberg-triangular.
#include "eig.hpp"
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/ungbr.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/ungtr.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/gghd3.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;

template <class T, char a> void n_hess_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi");
    string alg = c.str("alg");
    long wk = c.i("wk", 0), kind = c.i("kind");
    PM<T, L> A(n, n);
    rnd_into(A, g, kind);
    // upper triangular outside of the active range
    for (idx j = 0; j < n; ++j)
        for (idx i = j + 1; i < n; ++i)
            if (j < ilo || i >= ihi) A.at(i, j) = T(0);
    XM A0 = A.get();
    PV<T> tau(n ? n - 1 : 0, c.i("inc"));
    for (idx i = 0; i < tau.n; ++i) tau[i] = T(-5);
    auto Av = A.v(); auto tv = tau.v();
    GehrdOpts o; o.nb = c.i("nb"); o.nx_switch = c.i("nx");
    HessenbergOpts ho; ho.nb = o.nb; ho.nx_switch = o.nx_switch;
    ho.variant = alg == "h2" ? HessenbergVariant::Level2 : HessenbergVariant::Blocked;
    long ret = -5;
    if (wk) {
        if (alg == "gehd2") { auto W = c.work<T, L>(gehd2_worksize<T>(ilo, ihi, Av, tv), wk); ret = gehd2_work(ilo, ihi, Av, tv, W); }
        else if (alg == "gehrd") { auto W = c.work<T, L>(gehrd_worksize<T>(ilo, ihi, Av, tv, o), wk); ret = gehrd_work(ilo, ihi, Av, tv, W, o); }
        else { auto W = c.work<T, L>(hessenberg_worksize<T>(ilo, ihi, Av, tv, ho), wk); ret = hessenberg_work(ilo, ihi, Av, tv, W, ho); }
    }
    else if (alg == "gehd2") ret = gehd2(ilo, ihi, Av, tv);
    else if (alg == "gehrd") ret = gehrd(ilo, ihi, Av, tv, o);
    else ret = hessenberg(ilo, ihi, Av, tv, ho);
    Rec r;
    r.put("ret", ret);
    XM X = A.get(), H = X, Q = eye(n, n);
    auto tg = tau.get();
    Refl R;
    for (idx i = ilo; i + 1 < ihi; ++i) {
        vector<LC> v(n, LC(0));
        v[i + 1] = 1;
        for (idx p = i + 2; p < ihi; ++p) { v[p] = X(p, i); H(p, i) = 0; }
        R.v.push_back(v);
        R.tau.push_back(tg[i]);
    }
    for (idx i = R.v.size(); i-- > 0;) reflL(Q, R.v[i], R.tau[i]);
    bool frame = A.pad_ok() && tau.pad_ok(), tk = true;
    for (idx i = 0; i < tau.n; ++i)
        if ((i < ilo || i + 1 >= ihi) && tg[i] != lc(T(-5))) tk = false;
    r.put("pad", frame);
    r.put("hess", hessOK(H));
    // outside: the corner blocks the similarity does not touch
    bool out = true;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i)
            if ((j <= ilo && i <= ilo) || (i >= ihi && j >= ihi) || (j < ilo) || i >= ihi || (i < ilo + 1 && j >= ihi))
                if (X(i, j) != A0(i, j)) out = false;
    r.put("outside", ihi > ilo ? out : nrm(sub(X, A0)) == 0);
    r.put("res", diffU<T>(A0, mul(Q, mul(H, ct(Q)))));
    r.put("tau", tauU<T>(R));
    LR si = 0;
    for (idx i = ilo; i + 1 < ihi; ++i) si = std::max(si, fabsl(H(i + 1, i).imag()));
    r.put("sreal", si == 0);
    // the explicit transformation
    PM<T, L> G(n, n);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < n; ++i) G.at(i, j) = A.at(i, j);
    auto Gv = G.v();
    long gret = 0;
    if (wk) { auto W = c.work<T, L>(unghr_worksize<T>(ilo, ihi, Gv, tv), wk); gret = unghr_work(ilo, ihi, Gv, tv, W); }
    else gret = unghr(ilo, ihi, Gv, tv);
    XM GX = G.get();
    bool id = true;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i)
            if (i <= ilo || i >= ihi || j <= ilo || j >= ihi)
                if (GX(i, j) != LC(i == j ? 1 : 0)) id = false;
    r.put("gret", gret); r.put("gpad", G.pad_ok()); r.put("ident", id);
    r.put("gerr", diffU<T>(GX, Q, 1)); r.put("orth", orthoU<T>(GX));
    c.ret = r.done();
}
template <class T, char a> void n_bidiag_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    idx m = c.i("m"), n = c.i("n"), k = std::min(m, n);
    string alg = c.str("alg");
    long wk = c.i("wk", 0);
    PM<T, L> A(m, n);
    XM A0 = rnd_into(A, g, c.i("kind"));
    PV<T> tq(k, c.i("inc")), tp(k, c.i("inc"));
    auto Av = A.v(); auto qv = tq.v(); auto pv = tp.v();
    GebrdOpts o; o.nb = c.i("nb");
    BidiagOpts bo; bo.nb = o.nb; bo.variant = alg == "b2" ? BidiagVariant::Level2 : BidiagVariant::Blocked;
    long ret = -5;
    if (wk) {
        if (alg == "gebd2") { auto W = c.work<T, L>(gebd2_worksize<T>(Av, qv, pv), wk); ret = gebd2_work(Av, qv, pv, W); }
        else if (alg == "gebrd") { auto W = c.work<T, L>(gebrd_worksize<T>(Av, qv, pv, o), wk); ret = gebrd_work(Av, qv, pv, W, o); }
        else { auto W = c.work<T, L>(bidiag_worksize<T>(Av, qv, pv, bo), wk); ret = bidiag_work(Av, qv, pv, W, bo); }
    }
    else if (alg == "gebd2") ret = gebd2(Av, qv, pv);
    else if (alg == "gebrd") ret = gebrd(Av, qv, pv, o);
    else ret = bidiag(Av, qv, pv, bo);
    Rec r;
    r.put("ret", ret);
    r.put("pad", A.pad_ok() && tq.pad_ok() && tp.pad_ok());
    XM X = A.get(), B(m, n), Q = eye(m, m), P = eye(n, n);
    LR im = 0;
    Refl RQ, RP;
    auto tqg = tq.get(), tpg = tp.get();
    idx dq = m >= n ? 0 : 1, dp = 1 - dq;  // offset of the unit entries
    for (idx i = 0; i < k; ++i) {
        B(i, i) = X(i, i);
        im = std::max(im, fabsl(B(i, i).imag()));
        if (m >= n && i + 1 < n) { B(i, i + 1) = X(i, i + 1); im = std::max(im, fabsl(B(i, i + 1).imag())); }
        if (m < n && i + 1 < m) { B(i + 1, i) = X(i + 1, i); im = std::max(im, fabsl(B(i + 1, i).imag())); }
        if (i + dq < m) {
            vector<LC> v(m, LC(0));
            v[i + dq] = 1;
            for (idx p = i + dq + 1; p < m; ++p) v[p] = X(p, i);
            RQ.v.push_back(v); RQ.tau.push_back(tqg[i]);
        }
        if (i + dp < n) {
            vector<LC> v(n, LC(0));
            v[i + dp] = 1;
            for (idx p = i + dp + 1; p < n; ++p) v[p] = std::conj(X(i, p));
            RP.v.push_back(v); RP.tau.push_back(tpg[i]);
        }
    }
    for (idx i = RQ.v.size(); i-- > 0;) reflL(Q, RQ.v[i], RQ.tau[i]);
    for (idx i = RP.v.size(); i-- > 0;) reflL(P, RP.v[i], RP.tau[i]);
    r.put("breal", im == 0);
    r.put("res", diffU<T>(A0, mul(Q, mul(B, ct(P)))));
    r.put("tau", std::max(tauU<T>(RQ), tauU<T>(RP)));
    // generate Q (w columns) and P^H (h rows)
    idx w = m >= n ? c.i("w") : m, h = n > m ? c.i("h") : n;
    PM<T, L> GQ(m, w), GP(h, n);
    for (idx j = 0; j < w; ++j) for (idx i = 0; i < m; ++i) GQ.at(i, j) = j < n ? A.at(i, j) : T(9);
    for (idx j = 0; j < n; ++j) for (idx i = 0; i < h; ++i) GP.at(i, j) = i < m ? A.at(i, j) : T(9);
    auto Gqv = GQ.v(); auto Gpv = GP.v();
    UngbrOpts uo; uo.nb = c.i("gnb");
    long gret = 0;
    if (wk) {
        auto W = c.work<T, L>(ungbr_q_worksize<T>(n, Gqv, qv, uo), wk);
        gret = ungbr_q_work(n, Gqv, qv, W, uo);
        auto W2 = c.work<T, L>(ungbr_p_worksize<T>(m, Gpv, pv, uo), wk);
        gret += ungbr_p_work(m, Gpv, pv, W2, uo);
    }
    else gret = ungbr_q(n, Gqv, qv, uo) + ungbr_p(m, Gpv, pv, uo);
    r.put("gret", gret); r.put("gpad", GQ.pad_ok() && GP.pad_ok());
    r.put("qerr", diffU<T>(GQ.get(), block(Q, 0, 0, m, w), 1));
    r.put("perr", diffU<T>(GP.get(), block(ct(P), 0, 0, h, n), 1));
    r.put("orth", std::max(orthoU<T>(GQ.get()), orthoU<T>(ct(GP.get()))));
    c.ret = r.done();
}
template <class T, char a> void n_trid_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    idx n = c.i("n");
    char ul = c.str("uplo")[0];
    PM<T, L> A(n, n);
    rnd_into(A, g, c.i("kind"));
    XM A0 = herm(A.get(), ul);
    // the other triangle and the imaginary parts of the diagonal must not matter
    Poison<T, L> pz(c);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            if (ul == 'U' ? i > j : i < j) pz.at(A, i, j);
            if constexpr (is_complex<T>) if (i == j) A.at(i, j).imag(pz.one());
        }
    PV<T> tau(n ? n - 1 : 0, c.i("inc"));
    auto Av = A.v(); auto tv = tau.v();
    Uplo u = ul == 'U' ? Uplo::Upper : Uplo::Lower;
    Rec r;
    r.put("ret", hetd2(u, Av, tv));
    r.put("unref", pz.untouched(A));
    pz.clear(A);
    r.put("pad", A.pad_ok() && tau.pad_ok());
    XM X = A.get(), D(n, n), Q = eye(n, n);
    LR im = 0;
    Refl R;
    auto tg = tau.get();
    for (idx i = 0; i < n; ++i) {
        D(i, i) = X(i, i);
        im = std::max(im, fabsl(X(i, i).imag()));
        if (i + 1 < n) {
            LC e = ul == 'U' ? X(i, i + 1) : X(i + 1, i);
            im = std::max(im, fabsl(e.imag()));
            D(i, i + 1) = D(i + 1, i) = e;
            vector<LC> v(n, LC(0));
            if (ul == 'U') { v[i] = 1; for (idx p = 0; p < i; ++p) v[p] = X(p, i + 1); }
            else { v[i + 1] = 1; for (idx p = i + 2; p < n; ++p) v[p] = X(p, i); }
            R.v.push_back(v); R.tau.push_back(tg[i]);
        }
    }
    if (ul == 'U') for (idx i = 0; i < R.v.size(); ++i) reflL(Q, R.v[i], R.tau[i]);
    else for (idx i = R.v.size(); i-- > 0;) reflL(Q, R.v[i], R.tau[i]);
    r.put("treal", im == 0);
    r.put("res", diffU<T>(A0, mul(Q, mul(D, ct(Q)))));
    r.put("tau", tauU<T>(R));
    PM<T, L> G = A;
    auto Gv = G.v();
    r.put("gret", ungtr(u, Gv, tv));
    r.put("gpad", G.pad_ok());
    r.put("gerr", diffU<T>(G.get(), Q, 1)); r.put("orth", orthoU<T>(G.get()));
    c.ret = r.done();
}
template <class T, char a> void n_gghd_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi");
    bool wq = c.i("wantq"), wz = c.i("wantz");
    string alg = c.str("alg");
    long kind = c.i("kind");
    PM<T, L> A(n, n), B(n, n);
    rnd_into(A, g, kind);
    rnd_into(B, g, kind);
    for (idx j = 0; j < n; ++j)
        for (idx i = j + 1; i < n; ++i)
            if (j < ilo || i >= ihi) A.at(i, j) = T(0);
    XM A0 = A.get(), B0 = tri(B.get(), 'U');
    PM<T, L> Q(n, n), Z(n, n);
    XM Q0 = rounded<T>(runitary<T>(g, n)), Z0 = rounded<T>(runitary<T>(g, n));
    Q.set(Q0); Z.set(Z0);
    PM<T, L> Qs = Q, Zs = Z;
    auto Av = A.v(); auto Bv = B.v(); auto Qv = Q.v(); auto Zv = Z.v();
    Rec r;
    if (alg == "gghrd") r.put("ret", gghrd(wq, wz, ilo, ihi, Av, Bv, Qv, Zv));
    else { Gghd3Opts o; o.nb = c.i("nb"); r.put("ret", gghd3(wq, wz, ilo, ihi, Av, Bv, Qv, Zv, o)); }
    XM X = A.get(), Y = B.get(), QX = Q.get(), ZX = Z.get();
    r.put("hess", hessOK(X)); r.put("tri", hessOK(Y, 0));
    r.put("pad", A.pad_ok() && B.pad_ok() && Q.pad_ok() && Z.pad_ok());
    r.put("keep", (wq || Q.same(Qs)) && (wz || Z.same(Zs)));
    bool out = true;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            bool fixed = i >= ihi || j < ilo || (i <= ilo && j >= ihi) || (i <= ilo && j <= ilo);
            if (fixed && X(i, j) != A0(i, j)) out = false;
            if (fixed && Y(i, j) != B0(i, j)) out = false;
        }
    r.put("outside", out);
    r.put("qorth", orthoU<T>(QX)); r.put("zorth", orthoU<T>(ZX));
    if (wq && wz) {
        r.put("ares", diffU<T>(mul(Q0, mul(A0, ct(Z0))), mul(QX, mul(X, ct(ZX)))));
        r.put("bres", diffU<T>(mul(Q0, mul(B0, ct(Z0))), mul(QX, mul(Y, ct(ZX)))));
    }
    else {
        // the accumulated side alone determines A^H A or A A^H
        if (wz) r.put("ares", diffU<T>(mul(Z0, mul(mul(ct(A0), A0), ct(Z0))), mul(ZX, mul(mul(ct(X), X), ct(ZX)))));
        if (wq) r.put("ares", diffU<T>(mul(Q0, mul(mul(A0, ct(A0)), ct(Q0))), mul(QX, mul(mul(X, ct(X)), ct(QX)))));
        r.put("nres", U(fabsl(nrm(A0) - nrm(X)), nrm(A0) * n, epsof<T>()));
        r.put("mres", U(fabsl(nrm(B0) - nrm(Y)), nrm(B0) * n, epsof<T>()));
    }
    c.ret = r.done();
}
/// the left rotations turn T into a Hessenberg matrix, the right ones back
template <class T, char a> void n_hrq_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), k = n ? n - 1 : 0;
    PM<T, L> A(n, n);
    rnd_into(A, g, c.i("kind"));
    for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) A.at(i, j) = T(0);
    XM A0 = A.get();
    PV<R> cl(k), cr(k);
    PV<T> sl(k), sr(k);
    for (idx i = 0; i < k; ++i) {
        LC s = lc(g.val<T>());
        LR q = sqrtl(absl(s) * absl(s) + .5L);
        cl[i] = R(sqrtl(.5L) / q); sl[i] = narrow<T>(s / q);
        if (g.in(0, 5) == 0) { cl[i] = 1; sl[i] = T(0); }
    }
    PV<R> cs = cl; PV<T> ss = sl;
    auto Av = A.v(); auto clv = cl.v(); auto slv = sl.v(); auto crv = cr.v(); auto srv = sr.v();
    hessenberg_rq(Av, clv, slv, crv, srv);
    Rec r;
    XM X = A.get();
    r.put("tri", hessOK(X, 0));
    r.put("pad", A.pad_ok() && cl.pad_ok() && sl.pad_ok() && cr.pad_ok() && sr.pad_ok() && cl.st == cs.st && sl.st == ss.st);
    // left: P(i) = [c s; -conj(s) c] on rows i, i+1, last rotation first
    XM E = A0;
    auto rows = [&](XM& M, idx i, LC cc, LC s) {
        for (idx j = 0; j < M.n; ++j) {
            LC x = M(i, j), y = M(i + 1, j);
            M(i, j) = cmul(cc, x) + cmul(s, y);
            M(i + 1, j) = -cmul(std::conj(s), x) + cmul(cc, y);
        }
    };
    for (idx i = k; i-- > 0;) rows(E, i, lc(cl[i]), lc(sl[i]));
    XM F = ct(E);
    LR un = 0;
    // right: A := A P(i)^H, i.e. A^H := P(i) A^H
    for (idx i = k; i-- > 0;) {
        rows(F, i, lc(cr[i]), lc(sr[i]));
        LR q = absl(lc(sr[i]));
        un = std::max(un, fabsl(LR(cr[i]) * cr[i] + q * q - 1));
    }
    r.put("unit", U(un, 1, epsof<T>()));
    r.put("res", diffU<T>(ct(F), X, nrm(A0)));
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(n_hess_) ALL1(n_bidiag_) ALL1(n_trid_) ALL1(n_gghd_) ALL1(n_hrq_)
