// Eigenvectors of a quasi-triangular matrix, one driver for both families
// (their headers exclude each other): EV3 selects the blocked one.
#include "eig.hpp"
#if EV3
#include <tlapack/blas/iamax.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/trevc3.hpp>
#else
#include <tlapack/blas/gemv.hpp>
#include <tlapack/lapack/trevc_backsolve.hpp>
#include <tlapack/lapack/trevc_forwardsolve.hpp>
#include <tlapack/lapack/trevc.hpp>
#endif
using namespace vf;
using namespace tlapack;
using namespace nm;

/// a Schur form in standard shape
template <class T> static XM schur_form(Rng& g, idx n, int kind, int pairs)
{
    XM A(n, n);
    const LR eps = epsof<T>();
    vector<int> two(n, 0);
    if (!is_complex<T> && pairs)
        for (idx j = 0; j + 1 < n; ++j)
            if (g.in(0, 9) < 3 * pairs) two[j] = 1, ++j;
    LR c0 = g.sym(), b0 = .5 + g.u01(), b1 = .5 + g.u01();
    for (idx j = 0; j < n; ++j) {
        for (idx i = 0; i < j; ++i) A(i, j) = lc(g.val<T>());
        LC d;
        switch (kind) {
            case 0: d = LC(long(j) * 2 - long(n)) + lc(g.val<T>()); break;
            case 2: case 8: d = lc(narrow<T>(LC(c0))) + sqrtl(eps) * lc(g.val<T>()); break;
            case 3: case 4: d = lc(g.ival<T>(1)); break;
            case 5: d = c0; break;
            case 9: d = c0; break;
            case 12: d = 1 + j * sqrtl(eps); break;
            default: d = lc(g.val<T>());
        }
        A(j, j) = d;
        if (kind == 4 || kind == 5) for (idx i = 0; i < j; ++i) A(i, j) = 0;
        if (kind == 12) for (idx i = 0; i < j; ++i) A(i, j) = 1;
        if (kind == 10) { for (idx i = 0; i < j; ++i) A(i, j) = ldexpl(1, 10) * A(i, j); }
        if (kind == 5 && c0 < 0) A(j, j) = 0;
    }
    for (idx j = 0; j < n; ++j)
        if (two[j]) {
            LR b = .1 + g.u01(), c = .1 + g.u01();
            if (kind == 8) b = b0 * (1 + sqrtl(eps) * g.sym()), c = b1 * (1 + sqrtl(eps) * g.sym());
            if (kind == 9 || kind == 4) b = b0, c = b1;
            if (kind == 6) b = ldexpl(b, -g.in(0, 12));
            if (kind == 11) b = ldexpl(b, -int(-log2l(eps)) / 2);
            if (g.in(0, 1)) std::swap(b, c);
            if (g.in(0, 1)) b = -b; else c = -c;
            A(j, j + 1) = b; A(j + 1, j) = c; A(j + 1, j + 1) = A(j, j);
        }
    int k = std::numeric_limits<real_type<T>>::max_exponent / 8;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            if (kind == 6) A(i, j) *= ldexpl(1, -int(i + j));
            if (kind == 7) A(i, j) *= ldexpl(1, c0 < 0 ? k : -k);
        }
    XM B = rounded<T>(A);
    for (idx j = 0; j + 1 < n; ++j) if (two[j]) B(j + 1, j + 1) = B(j, j);
    return B;
}
template <class T, char l> static void evec(Ctx& c)
{
    constexpr Layout L = lay<l>::v;
    Rec r;
    Rng g(c.i("seed"));
    const LR eps = epsof<T>();
    const idx n = c.i("n"), extra = c.i("extra");
    const char sd = c.str("side")[0], how = c.str("how")[0];
    XM T0 = schur_form<T>(g, n, c.i("kind"), c.i("pairs"));
    vector<bool> sel(how == 'S' ? n : 0), sel0;
    for (idx j = 0; j < sel.size(); ++j) {
        long p = c.i("pat");
        sel[j] = p == 0 ? false : p == 1 ? true : p == 2 ? j == 0 : p == 3 ? j + 1 == n : p == 4 ? j % 2 == 0 : p == 5 ? j % 2 : p == 6 ? g.in(0, 3) == 0 : p == 7 ? g.in(0, 3) > 0 : g.in(0, 1);
    }
    sel0 = sel;
    // eigenvalues in the order of the diagonal; the vectors wanted
    struct W { idx j; bool pair; LC w; };
    vector<W> want;
    idx m = 0;
    bool selok = true;
    for (idx j = 0; j < n;) {
        bool p = j + 1 < n && T0(j + 1, j) != LC(0);
        LC w = p ? LC(T0(j, j).real(), sqrtl(-T0(j, j + 1).real() * T0(j + 1, j).real())) : T0(j, j);
        if (how != 'S' || sel0[j] || (p && sel0[j + 1])) { want.push_back({j, p, w}); m += p ? 2 : 1; }
        j += p ? 2 : 1;
    }
    PM<T, L> A(n, n);
    A.set(T0);
    // below the quasi-triangle nothing is stored
    Poison<T, L> pz(c);
    for (idx j = 0; j < n; ++j)
        for (idx i = j + (is_complex<T> ? 1 : 2); i < n; ++i) pz.at(A, i, j);
    XM Q = runitary<T>(g, n);
    Q = rounded<T>(Q);
    const T sent = T(real_type<T>(12345));
    auto fillV = [&](PM<T, L>& V, idx k) {
        XM X(n, k);
        for (idx j = 0; j < k; ++j) for (idx i = 0; i < n; ++i) X(i, j) = (how == 'B' && j < n) ? Q(i, j) : lc(sent);
        V.set(X);
    };
    idx kl = sd != 'R' ? m + extra : 0, kr = sd != 'L' ? m + extra : 0;
    PM<T, L> VL(sd != 'R' ? n : 0, kl), VR(sd != 'L' ? n : 0, kr);
    if (sd != 'R') fillV(VL, kl);
    if (sd != 'L') fillV(VR, kr);
    HowMny hm = how == 'A' ? HowMny::All : how == 'B' ? HowMny::Back : HowMny::Select;
    Side side = sd == 'L' ? Side::Left : sd == 'R' ? Side::Right : Side::Both;
    long ret;
    using R = real_type<T>;
    auto Av = A.v(); auto VLv = VL.v(); auto VRv = VR.v();
#if EV3
    Trevc3Opts o;
    o.block_size = c.i("nb");
    o.block_size_solve = c.i("nbs");
    if (c.i("wk")) {
        WorkInfo wi = trevc3_worksize(side, hm, sel, Av, VLv, VRv, o);
        auto w = c.work<T, L>(wi, c.i("wk"));
        auto rw = c.work<R, Layout::ColMajor>(WorkInfo(n), 1);
        ret = trevc3_work(side, hm, sel, Av, VLv, VRv, rw, w, o);
    }
    else ret = trevc3(side, hm, sel, Av, VLv, VRv, o);
#else
    auto w = c.work<T, Layout::ColMajor>(WorkInfo(3 * n), 1);
    auto rw = c.work<R, Layout::ColMajor>(WorkInfo(n), 1);
    ret = trevc(side, hm, sel, Av, VLv, VRv, rw, w);
#endif
    for (auto& x : want) if (how == 'S') {
        if (!(sel[x.j] || (x.pair && sel[x.j + 1]))) selok = false;
    }
    if (how == 'S')
        for (idx j = 0, k = 0; j < n; ++j) {
            while (k < want.size() && want[k].j + (want[k].pair ? 1 : 0) < j) ++k;
            bool in = k < want.size() && want[k].j <= j;
            if (!in && sel[j]) selok = false;
        }
    // only simple eigenvalues have their vector determined by the equation (the
    // documentation assumes so too)
    vector<LC> all;
    for (idx j = 0; j < n; ++j) {
        if (j + 1 < n && T0(j + 1, j) != LC(0)) {
            LR wi = sqrtl(-T0(j, j + 1).real() * T0(j + 1, j).real());
            all.push_back(LC(T0(j, j).real(), wi)); all.push_back(LC(T0(j, j).real(), -wi)); ++j;
        }
        else all.push_back(T0(j, j));
    }
    auto simple = [&](LC w) {
        long k = 0;
        for (auto z : all) if (absl(z - w) <= 16 * eps * absl(w)) ++k;
        return k <= 1;
    };
    long skipped = 0;
    XM M = how == 'B' ? mul(Q, mul(T0, ct(Q))) : T0;
    LR tn = nrm(T0);
    long res = 0, fin_ = 1, tail = 1;
    idx at = 0;
    auto side_check = [&](PM<T, L>& V, idx k, bool left) {
        XM X = V.get(), Mt = left ? ct(M) : M;
        idx p = 0;
        for (auto& e : want) {
            XM x(n, 1);
            for (idx i = 0; i < n; ++i) x(i, 0) = e.pair ? LC(X(i, p).real(), X(i, p + 1).real()) : X(i, p);
            p += e.pair ? 2 : 1;
            if (!simple(e.w)) { ++skipped; continue; }
            LR nx = nrm(x);
            if (!std::isfinite(nx) || !(nx > 0)) { if (fin_) at = e.j; fin_ = 0; continue; }
            for (auto& z : x.a) z /= nx;
            LC w = left ? std::conj(e.w) : e.w;
            XM y = mul(Mt, x);
            for (idx i = 0; i < n; ++i) y(i, 0) -= cmul(w, x(i, 0));
            long u = U(nrm(y), tn * std::max<LR>(n, 1), eps);
            if (u > res) { res = u; at = e.j; }
        }
        for (idx j = m; j < k; ++j) for (idx i = 0; i < n; ++i) if (X(i, j) != lc(sent)) tail = 0;
    };
    if (n) {
        if (sd != 'R') side_check(VL, kl, true);
        if (sd != 'L') side_check(VR, kr, false);
    }
    bool unt = pz.untouched(A);
    pz.clear(A);
    XM T1 = A.get();
    bool same = true;
    for (idx i = 0; i < n * n; ++i) if (T1.a[i] != T0.a[i]) same = false;
    r.put("ret", ret); r.put("fin", fin_); r.put("res", res); r.put("tail", tail); r.put("sel", selok); r.put("same", same);
    r.put("pad", A.pad_ok() && unt && VL.pad_ok() && VR.pad_ok()); r.put("m", m); r.put("at", at); r.put("rep", skipped);
    c.ret = r.done();
}
#if EV3
template <class T, char l> void n_trevc3_(Ctx& c) { evec<T, l>(c); }
#define OP n_trevc3_
#else
template <class T, char l> void n_trevc_(Ctx& c) { evec<T, l>(c); }
#define OP n_trevc_
#endif
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(OP)
