// Eigenvalue iterations on a Hessenberg matrix and their building blocks.
#include "hess.hpp"
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/multishift_qr.hpp>
#include <tlapack/lapack/aggressive_early_deflation.hpp>
#include <tlapack/lapack/multishift_qr_sweep.hpp>
#include <tlapack/lapack/qr_iteration.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;

/// what an eigenvalue iteration must deliver
template <class T>
void check_schur(Rec& r, Rng& g, const XM& A0, XM X, const XM& Z0, const XM& ZX, const vector<LC>& w, idx ilo, idx ihi, bool wt, bool wz)
{
    constexpr bool real = is_real<T>;
    idx n = A0.n, nh = ihi - ilo;
    LR an = nrm(A0), eps = epsof<T>();
    XM Ab = block(A0, ilo, ilo, nh, nh);
    LR bn = nrm(Ab);
    // eigenvalues: backward error, trace and trace of the square
    LR sg = 0;
    bool fin = true;
    LC t1 = 0, t2 = 0;
    for (idx i = ilo; i < ihi; ++i) {
        if (!std::isfinite(w[i].real()) || !std::isfinite(w[i].imag())) { fin = false; continue; }
        XM M = Ab;
        for (idx k = 0; k < nh; ++k) M(k, k) -= w[i];
        sg = std::max(sg, smin(M, g));
        t1 += w[i]; t2 += cmul(w[i], w[i]);
    }
    r.put("fin", fin);
    r.put("sig", U(sg, bn * sqrtl(LR(nh ? nh : 1)), eps));
    XM A2 = mul(Ab, Ab);
    LC s1 = 0, s2 = 0;
    for (idx i = 0; i < nh; ++i) s1 += Ab(i, i), s2 += A2(i, i);
    r.put("tr1", U(absl(s1 - t1), bn * (nh ? nh : 1), eps));
    r.put("tr2", U(absl(s2 - t2), bn * bn * (nh ? nh : 1), eps));
    if (real) {
        bool pairs = true;
        for (idx i = ilo; i < ihi; ++i)
            if (w[i].imag() != 0) {
                if (i + 1 >= ihi || w[i + 1].imag() != -w[i].imag() || w[i + 1].real() != w[i].real()) { pairs = false; break; }
                ++i;
            }
        r.put("pairs", pairs);
    }
    if (wt) {
        vector<long> bl = blocks(hesspart(X));
        bool bOK = true, std_ = true;
        LR we = 0;
        idx j = 0;
        for (long b : bl) {
            if (b == -1) { bOK = false; break; }
            if (j >= ilo && j < ihi) {
                if (b == 1) we = std::max(we, absl(w[j] - X(j, j)));
                else if (!real) bOK = false;
                else {
                    LR a = X(j, j).real(), d = X(j + 1, j + 1).real(), bb = X(j, j + 1).real(), cc = X(j + 1, j).real();
                    if (a != d || !(bb * cc < 0)) {
                        // products may underflow; compare signs
                        if (a != d || !((bb < 0) != (cc < 0)) || bb == 0 || cc == 0) std_ = false;
                    }
                    LR im = sqrtl(fabsl(bb)) * sqrtl(fabsl(cc));
                    we = std::max(we, std::max(absl(w[j] - LC(a, im)), absl(w[j + 1] - LC(a, -im))));
                }
            }
            j += b;
        }
        if (!std_ && getenv("DBG")) for (idx q = 0; q + 1 < n; ++q) if (X(q+1,q) != LC(0)) fprintf(stderr, "%ld: %.17Lg %.17Lg %.17Lg %.17Lg\n", long(q), X(q,q).real(), X(q,q+1).real(), X(q+1,q).real(), X(q+1,q+1).real());
        r.put("blk", bOK); r.put("std", std_);
        r.put("weq", U(we, an, eps));
        // what lies outside of the active rows and columns stays
        bool out = true;
        for (idx jj = 0; jj < n; ++jj)
            for (idx i = 0; i <= std::min(jj + 1, n - 1); ++i) {
                bool ra = i >= ilo && i < ihi, ca = jj >= ilo && jj < ihi;
                if (!ra && !ca && X(i, jj) != A0(i, jj)) out = false;
            }
        r.put("out", out);
    }
    else {
        bool out = true;
        for (idx jj = 0; jj < n; ++jj)
            for (idx i = 0; i <= std::min(jj + 1, n - 1); ++i) {
                bool ra = i >= ilo && i < ihi, ca = jj >= ilo && jj < ihi;
                if (!(ra && ca) && X(i, jj) != A0(i, jj)) out = false;
            }
        r.put("out", out);
    }
    if (wz) {
        bool zo = true;
        for (idx jj = 0; jj < n; ++jj) if (jj < ilo || jj >= ihi) for (idx i = 0; i < n; ++i) if (ZX(i, jj) != Z0(i, jj)) zo = false;
        r.put("zout", zo);
        r.put("orth", orthoU<T>(ZX));
        if (wt) r.put("res", diffU<T>(mul(Z0, mul(A0, ct(Z0))), mul(ZX, mul(hesspart(X), ct(ZX))), an));
    }
}
template <class T, char a> void n_hqr_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi");
    string alg = c.str("alg");
    bool wt = c.i("wantt"), wz = c.i("wantz");
    long wk = c.i("wk", 0);
    PM<T, L> A(n, n), Zm(n, n);
    hess_into(A, g, c.i("kind"), ilo, ihi);
    XM A0 = A.get();
    XM Z0 = rounded<T>(c.i("zid", 0) ? eye(n, n) : runitary<T>(g, n));
    Zm.set(Z0);
    PM<T, L> Zs = Zm;
    PV<CT> w(n, c.i("inc", 1));
    for (idx i = 0; i < n; ++i) w[i] = CT(R(-77), R(i));
    PV<CT> ws = w;
    auto Av = A.v(); auto wv = w.v(); auto Zv = Zm.v();
    QRIterationOpts o;
    if (c.has("nmin")) {
        o.nmin = c.i("nmin"); o.nibble = c.i("nibble");
        size_t ns = c.i("ns"), nw = c.i("nw");
        o.nshift_recommender = [ns](size_t, size_t) { return ns; };
        o.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
    }
    o.variant = alg == "qid" ? QRIterationVariant::DoubleShift : QRIterationVariant::MultiShift;
    Rec r;
    r.put("ret", coded([&]() -> long {
        if (alg == "lahqr") return lahqr(wt, wz, ilo, ihi, Av, wv, Zv);
        if (alg == "ms") {
            if (wk) { auto W = c.work<T, L>(multishift_qr_worksize<T>(wt, wz, ilo, ihi, Av, wv, Zv, o), wk); return multishift_qr_work(wt, wz, ilo, ihi, Av, wv, Zv, W, o); }
            return multishift_qr(wt, wz, ilo, ihi, Av, wv, Zv, o);
        }
        if (wk) { auto W = c.work<T, L>(qr_iteration_worksize<T>(wt, wz, ilo, ihi, Av, wv, Zv, o), wk); return qr_iteration_work(wt, wz, ilo, ihi, Av, wv, Zv, W, o); }
        return qr_iteration(wt, wz, ilo, ihi, Av, wv, Zv, o);
    }));
    bool scratch = (alg == "ms" || alg == "qim") && n >= o.nmin;
    XM X = A.get();
    r.put("low", scratch || hessOK(X));
    r.put("pad", A.pad_ok() && w.pad_ok() && Zm.pad_ok());
    r.put("keep", wz || Zm.same(Zs));
    bool wo = true;
    for (idx i = 0; i < n; ++i) if (i < ilo || i >= ihi) if (w[i] != ws[i]) wo = false;
    r.put("wout", wo);
    check_schur<T>(r, g, A0, X, Z0, Zm.get(), w.get(), ilo, ihi, wt, wz);
    if (wt || wz) {
        // the same iteration without Schur vectors
        PM<T, L> A2(n, n);
        A2.set(A0);
        PV<CT> w2(n);
        PM<T, L> Zx(0, 0);
        auto A2v = A2.v(); auto w2v = w2.v(); auto Zxv = Zx.v();
        long ret2 = coded([&]() -> long {
            if (alg == "lahqr") return lahqr(wt, false, ilo, ihi, A2v, w2v, Zxv);
            return qr_iteration(wt, false, ilo, ihi, A2v, w2v, Zxv, o);
        });
        if (ret2 == 0) {
            bool same = true;
            for (idx i = ilo; i < ihi; ++i) if (w2[i] != w[i]) same = false;
            if (wt) same = same && nrm(sub(hesspart(A2.get()), hesspart(X))) == 0;
            r.put("same", same);
        }
        else r.put("same", -1L);
    }
    c.ret = r.done();
}
/// one deflation window or one sweep: a unitary similarity of the active block
template <class T, Layout L>
void check_step(Rec& r, PM<T, L>& A, const XM& A0, const XM& Z0, PM<T, L>& Zm, PM<T, L>& Zs, idx ilo, idx ihi, bool wt, bool wz)
{
    idx n = A0.n, nh = ihi - ilo;
    XM X = hesspart(A.get()), ZX = Zm.get();
    r.put("pad", A.pad_ok() && Zm.pad_ok());
    r.put("keep", wz || Zm.same(Zs));
    bool out = true;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i <= std::min(j + 1, n - 1); ++i) {
            bool ra = i >= ilo && i < ihi, ca = j >= ilo && j < ihi;
            if (!wt ? !(ra && ca) : (!ra && !ca)) if (X(i, j) != A0(i, j)) out = false;
        }
    r.put("out", out);
    if (wz) {
        r.put("orth", orthoU<T>(ZX));
        XM Q = block(mul(ct(Z0), ZX), ilo, ilo, nh, nh), Ab = block(A0, ilo, ilo, nh, nh), Xb = block(X, ilo, ilo, nh, nh);
        r.put("res", diffU<T>(Ab, mul(Q, mul(Xb, ct(Q)))));
        if (wt) r.put("full", diffU<T>(mul(Z0, mul(A0, ct(Z0))), mul(ZX, mul(X, ct(ZX))), nrm(A0)));
    }
    else {
        LC t0 = 0, t1 = 0;
        for (idx i = ilo; i < ihi; ++i) t0 += A0(i, i), t1 += X(i, i);
        LR bn = nrm(block(A0, ilo, ilo, nh, nh));
        r.put("tr1", U(absl(t0 - t1), bn * (nh ? nh : 1), epsof<T>()));
        r.put("fro", U(fabsl(nrm(block(X, ilo, ilo, nh, nh)) - bn), bn * (nh ? nh : 1), epsof<T>()));
    }
}
template <class T, char a> void n_aed_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi"), nw = c.i("nw");
    bool wt = c.i("wantt"), wz = c.i("wantz");
    long wk = c.i("wk", 0);
    PM<T, L> A(n, n), Zm(n, n);
    hess_into(A, g, c.i("kind"), ilo, ihi);
    if (c.i("tiny", 0)) {   // something to deflate
        for (idx i = ihi - std::min<idx>(3, ihi - ilo - 1); i < ihi; ++i) A.at(i, i - 1) = A.at(i, i - 1) * T(R(ldexp(1.0, -g.in(0, 30))));
    }
    XM A0 = A.get(), Z0 = rounded<T>(runitary<T>(g, n));
    Zm.set(Z0);
    PM<T, L> Zs = Zm;
    PV<CT> w(n);
    for (idx i = 0; i < n; ++i) w[i] = CT(R(-77), R(i));
    PV<CT> ws = w;
    FrancisOpts o;
    o.nmin = c.i("nmin", 75);
    size_t rs = 2, rw = 3;
    o.nshift_recommender = [rs](size_t, size_t) { return rs; };
    o.deflation_window_recommender = [rw](size_t, size_t) { return rw; };
    tlapack::size_type<vf::MatT<T, L>> ns = 77, nd = 77;
    auto Av = A.v(); auto Zv = Zm.v(); auto wv = w.v();
    Rec r;
    r.put("ret", coded([&]() -> long {
        if (wk) {
            auto W = c.work<T, L>(aggressive_early_deflation_worksize<T>(wt, wz, ilo, ihi, nw, Av, wv, Zv, ns, nd, o), wk);
            aggressive_early_deflation_work(wt, wz, ilo, ihi, nw, Av, wv, Zv, ns, nd, W, o);
        }
        else aggressive_early_deflation(wt, wz, ilo, ihi, nw, Av, wv, Zv, ns, nd, o);
        return 0;
    }));
    check_step<T, L>(r, A, A0, Z0, Zm, Zs, ilo, ihi, wt, wz);
    idx jw = std::min(std::min(nw, ihi - ilo), (n - 3) / 3);
    r.put("count", ns + nd == jw);
    r.put("nd", nd);
    XM X = hesspart(A.get());
    idx s = ihi - (nd <= jw ? nd : 0);
    r.put("defl", nd == 0 || s == ilo || X(s, s - 1) == LC(0));
    // the deflated part is in Schur form with its eigenvalues in order
    bool ok = true;
    LR we = 0;
    for (idx j = s; j < ihi;) {
        if (j + 1 < ihi && X(j + 1, j) != LC(0)) {
            if (!is_real<T> || (j + 2 < ihi && X(j + 2, j + 1) != LC(0))) { ok = false; break; }
            Pt p, q;
            eig2(X(j, j), X(j, j + 1), X(j + 1, j), X(j + 1, j + 1), p, q);
            LC u = cdivL(p.a, p.b), v = cdivL(q.a, q.b);
            LR pr = X(j, j + 1).real() * X(j + 1, j).real();
            if (X(j, j) == X(j + 1, j + 1) && pr < 0) u = LC(X(j, j).real(), sqrtl(-pr)), v = std::conj(u);  // standard form: no cancellation
            LC w0 = lc(w[j]), w1 = lc(w[j + 1]);
            we = std::max(we, std::min(std::max(absl(u - w0), absl(v - w1)), std::max(absl(u - w1), absl(v - w0))));
            j += 2;
        }
        else { we = std::max(we, absl(lc(w[j]) - X(j, j))); ++j; }
    }
    r.put("schur", ok);
    r.put("weq", U(we, nrm(A0), epsof<T>()));
    bool wo = w.pad_ok();
    for (idx i = 0; i < n; ++i) if (i < ihi - jw || i >= ihi) if (w[i] != ws[i]) wo = false;
    r.put("wout", wo);
    c.ret = r.done();
}
template <class T, char a> void n_sweep_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    idx n = c.i("n"), ilo = c.i("ilo"), ihi = c.i("ihi"), ns = c.i("ns");
    bool wt = c.i("wantt"), wz = c.i("wantz");
    long wk = c.i("wk", 0);
    PM<T, L> A(n, n), Zm(n, n);
    hess_into(A, g, c.i("kind"), ilo, ihi);
    XM A0 = A.get(), Z0 = rounded<T>(runitary<T>(g, n));
    Zm.set(Z0);
    PM<T, L> Zs = Zm;
    PV<CT> s(ns);
    LR sc = nmax(A0);
    for (idx i = 0; i + 1 < ns; i += 2) {
        LC z = lc(g.val<Z>()) * sc;
        bool cplx = g.in(0, 1);
        if (is_complex<T>) { s[i] = CT(R(z.real()), R(z.imag())); z = lc(g.val<Z>()) * sc; s[i + 1] = CT(R(z.real()), R(z.imag())); }
        else if (cplx) { s[i] = CT(R(z.real()), R(fabsl(z.imag()))); s[i + 1] = std::conj(s[i]); }
        else { s[i] = CT(R(z.real())); s[i + 1] = CT(R(z.imag())); }
    }
    auto Av = A.v(); auto Zv = Zm.v(); auto sv = s.v();
    Rec r;
    if (wk) {
        auto W = c.work<T, L>(multishift_QR_sweep_worksize<T>(wt, wz, ilo, ihi, Av, sv, Zv), wk);
        multishift_QR_sweep_work(wt, wz, ilo, ihi, Av, sv, Zv, W);
    }
    else multishift_QR_sweep(wt, wz, ilo, ihi, Av, sv, Zv);
    check_step<T, L>(r, A, A0, Z0, Zm, Zs, ilo, ihi, wt, wz);
    r.put("ret", 0L);
    c.ret = r.done();
}
/// eigenvalues of a 2-by-2 matrix and the start vector of a bulge
template <class T> void n_eig22_(Ctx& c)
{
    using R = real_type<T>;
    using CT = complex_type<R>;
    Rng g(c.i("seed"));
    long kind = c.i("kind");
    XM H(3, 3);
    for (auto& z : H.a) {
        T v = kind == 1 ? g.ival<T>(2) : g.val<T>();
        if (kind == 2) v = v * T(R(ldexp(1.0, g.in(-20, 20))));
        if (kind == 3 && g.in(0, 2) == 0) v = T(0);
        if (kind == 4) v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? 100 : 900)));
        if (kind == 5) v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? -100 : -900)));
        z = lc(v);
    }
    auto e = [&](idx i, idx j) { return narrow<T>(H(i, j)); };
    CT s1, s2;
    lahqr_eig22(e(0, 0), e(0, 1), e(1, 0), e(1, 1), s1, s2);
    LC u = lc(s1), v = lc(s2);
    LR mx = 0;
    for (idx i = 0; i < 2; ++i) for (idx j = 0; j < 2; ++j) mx = std::max(mx, absl(H(i, j)));
    LR q = mx > 0 ? mx : 1;
    Rec r;
    LC det = cmul(H(0, 0) / q, H(1, 1) / q) - cmul(H(0, 1) / q, H(1, 0) / q);
    r.put("tr", U(absl((H(0, 0) + H(1, 1) - u - v) / q), 1, epsof<T>()));
    r.put("det", U(absl(det - cmul(u / q, v / q)), 1, epsof<T>()));
    r.put("conj", !is_real<T> || (u.imag() == 0 && v.imag() == 0) || (u == std::conj(v)));
    // start vector
    LR worst = 0;
    for (idx n = 2; n <= 3; ++n) {
        if (kind == 4 || kind == 5) break;
        PM<T> Hm(n, n);
        Hm.set(block(H, 0, 0, n, n));
        PV<T> x(n);
        auto Hv = Hm.v(); auto xv = x.v();
        lahqr_shiftcolumn(Hv, xv, s1, s2);
        if (c.i("rnd", 0)) {
            LC z = lc(g.val<Z>());
            if (is_real<T>) { s1 = CT(R(z.real()), R(z.imag())); s2 = std::conj(s1); if (g.in(0, 1)) s1 = CT(R(z.real())), s2 = CT(R(z.imag())); }
            else { s1 = CT(R(z.real()), R(z.imag())); z = lc(g.val<Z>()); s2 = CT(R(z.real()), R(z.imag())); }
            lahqr_shiftcolumn(Hv, xv, s1, s2);
        }
        u = lc(s1), v = lc(s2);
        XM B = block(H, 0, 0, n, n), A = B;
        for (idx i = 0; i < n; ++i) A(i, i) -= u, B(i, i) -= v;
        XM P = mul(A, B);
        LC pv = 0; LR pp = 0, an = 0;
        for (idx i = 0; i < n; ++i) { pv += cmul(std::conj(P(i, 0)), lc(x[i])); pp += absl(P(i, 0)) * absl(P(i, 0)); }
        an = (nrm(block(H, 0, 0, n, n)) + absl(u)) * (nrm(block(H, 0, 0, n, n)) + absl(v));
        if (pp <= an * an * 1e-6L) continue;   // cancellation: nothing to compare
        LC al = pv / pp;
        LR er = 0;
        for (idx i = 0; i < n; ++i) er = std::max(er, absl(lc(x[i]) - cmul(al, P(i, 0))));
        worst = std::max(worst, er / (absl(al) * an));
        if (!(absl(al) > 0)) worst = 9;
    }
    r.put("col", U(worst, 1, epsof<T>()));
    c.ret = r.done();
}
VR0(n_eig22_, s, S) VR0(n_eig22_, d, D) VR0(n_eig22_, c, vf::C) VR0(n_eig22_, z, Z)
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(n_hqr_) ALL1(n_aed_) ALL1(n_sweep_)
