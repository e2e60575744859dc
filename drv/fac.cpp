// LU and Cholesky-like factorizations, inverses.  Exact on small dyadic data,
// measured on random data of any size.
#include "num.hpp"
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
#include <tlapack/lapack/getri_uili.hpp>
#include <tlapack/lapack/getri_uxli.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/hetrf.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define VE(k, d) c.V<T, dir<d>::v>(k)
/// failure reported by an internal error counts as a code of its own
template <class F> long coded(F f)
{
    try { return f(); }
    catch (const std::runtime_error&) { return -777; }
}

template <class M, class P> int do_getrf(const string& alg, M& A, P& piv)
{
    if (alg == "0") return getrf_level0(A, piv);
    if (alg == "R") return getrf_recursive(A, piv);
    GetrfOpts o;
    o.variant = alg == "v0" ? GetrfVariant::Level0 : GetrfVariant::Recursive;
    return getrf(A, piv, o);
}
template <class T, char a> void getrf_(Ctx& c)
{
    auto A = MA("A", a);
    auto piv = c.V<std::int64_t, Direction::Forward>("piv");
    c.setint(coded([&] { return do_getrf(c.str("alg"), A, piv); }));
}
template <class M, class P> int do_getri(Ctx& c, const string& alg, M& A, const P& piv, long wk)
{
    using T = type_t<M>;
    constexpr Layout L = layout<M>;
    GetriOpts o;
    if (alg == "D" || alg == "C") {
        o.variant = alg == "D" ? GetriVariant::UILI : GetriVariant::UXLI;
        if (wk) {
            auto W = c.work<T, L>(getri_worksize<T>(A, piv, o), wk);
            return getri_work(A, piv, W, o);
        }
        return getri(A, piv, o);
    }
    if (alg == "uili") return getri_uili(A);
    if (wk) {
        auto W = c.work<T, L>(getri_uxli_worksize<T>(A), wk);
        return getri_uxli_work(A, W);
    }
    return getri_uxli(A);
}
template <class T, char a> void getri_(Ctx& c)
{
    auto A = MA("A", a);
    auto piv = c.V<std::int64_t, Direction::Forward>("piv");
    c.setint(coded([&] { return do_getri(c, c.str("alg"), A, piv, c.i("wk", 0)); }));
}
template <class T, char a> void trtri_(Ctx& c)
{
    auto A = MA("A", a);
    c.setint(coded([&] {
        if (c.i("ec")) return trtri_recursive(c.uplo("uplo"), c.diag("diag"), A);
        return trtri_recursive(c.uplo("uplo"), c.diag("diag"), A, EcOpts(NO_ERROR_CHECK));
    }));
}
template <class M> int do_potrf(Ctx& c, const string& alg, Uplo uplo, M& A, size_t nb)
{
    if (alg == "potf2") return potf2(uplo, A);
    if (alg == "potrf2") return potrf2(uplo, A);
    if (alg == "potrf2n") return potrf2(uplo, A, NO_ERROR_CHECK);
    if (alg == "blocked") {
        BlockedCholeskyOpts o;
        o.nb = nb;
        return potrf_blocked(uplo, A, o);
    }
    if (alg == "rl") {
        BlockedCholeskyOpts o;
        o.nb = nb;
        return potrf_rl(uplo, A, o);
    }
    PotrfOpts o;
    o.nb = nb;
    o.variant = alg == "B"   ? PotrfVariant::Blocked
                : alg == "R" ? PotrfVariant::Recursive
                : alg == "2" ? PotrfVariant::Level2
                             : PotrfVariant::RightLooking;
    return potrf(uplo, A, o);
}
template <class T, char a> void potrf_(Ctx& c)
{
    auto A = MA("A", a);
    c.setint(coded([&] { return do_potrf(c, c.str("alg"), c.uplo("uplo"), A, c.i("nb")); }));
}
template <class T, char a, char b> void potrs_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    c.setint(potrs(c.uplo("uplo"), A, B));
}
template <class T, char a> void potri_(Ctx& c)
{
    auto A = MA("A", a);
    c.setint(coded([&] { potri(c.uplo("uplo"), A); return 0; }));
}
template <class T, char a> void pbtrf_(Ctx& c)
{
    auto A = MA("A", a);
    BlockedBandedCholeskyOpts o;
    o.nb = c.i("nb");
    c.setint(coded([&] { pbtrf_with_workspace(c.uplo("uplo"), A, c.i("kd"), o); return 0; }));
}
template <class T, char a, char b> void pttrf_(Ctx& c)
{
    auto E = VE("E", b);
    c.setint(coded([&] {
        EcOpts o = c.i("ec") ? EcOpts() : EcOpts(NO_ERROR_CHECK);
        if constexpr (is_complex<T>) {
            if (c.i("real")) {
                auto D = c.V<real_type<T>, dir<a>::v>("D");
                return pttrf(D, E, o);
            }
        }
        auto D = VE("D", a);
        return pttrf(D, E, o);
    }));
}

// ---- measured LU
template <class T, char a> void n_lu_(Ctx& c)
{
    idx m = c.i("m"), n = c.i("n"), k = std::min(m, n);
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    PM<T, L> A(m, n);
    XM A0 = rnd_into(A, g, c.i("kind"));
    std::vector<std::int64_t> piv(k + 2, -99);
    LegacyVector<std::int64_t, idx> pv(k, piv.data() + 1);
    auto Av = A.v();
    Rec r;
    long ret = coded([&] { return do_getrf(c.str("alg"), Av, pv); });
    r.put("ret", ret);
    long pok = piv[0] == -99 && piv[k + 1] == -99;
    XM X = A.get(), PA = A0;
    long rng = 1;
    LR mult = 0, umin = INFINITY;
    if (ret == 0) {
        for (idx i = 0; i < k; ++i) {
            long q = piv[i + 1];
            if (q < (long)i || q >= (long)m) { rng = 0; continue; }
            for (idx j = 0; j < n; ++j) std::swap(PA(i, j), PA(q, j));
        }
        XM Lf = block(X, 0, 0, m, k), Uf = block(X, 0, 0, k, n);
        for (idx i = 0; i < m; ++i)
            for (idx j = 0; j < k; ++j) {
                if (i == j) Lf(i, j) = 1;
                if (i < j) Lf(i, j) = 0;
                if (i > j) mult = std::max(mult, absl(Lf(i, j)));
            }
        for (idx i = 0; i < k; ++i)
            for (idx j = 0; j < std::min(i, n); ++j) Uf(i, j) = 0;
        for (idx i = 0; i < k; ++i) umin = std::min(umin, absl(Uf(i, i)));
        XM AL = Lf, AU = Uf;
        for (auto& z : AL.a) z = absl(z);
        for (auto& z : AU.a) z = absl(z);
        LR sc = std::max(nrm(A0), nrm(mul(AL, AU)));
        r.put("res", diffU<T>(mul(Lf, Uf), PA, sc));
        // |l_ij| <= 1 in modulus, or <= sqrt(2) when measured by |re|+|im|
        r.put("mult", U(std::max<LR>(0, mult - (is_complex<T> ? sqrtl(2.0L) : 1.0L)), 1, epsof<T>()));
        r.put("nz", umin > 0);
    }
    else
        r.put("zc", nrm(A0) == 0 || true);
    r.put("rng", rng); r.put("pad", A.pad_ok() && pok);
    // inverse
    if (ret == 0 && m == n && c.i("inv")) {
        long ri = coded([&] { return do_getri(c, c.str("ialg"), Av, pv, c.i("wk", 0)); });
        XM Y = A.get();
        string ia = c.str("ialg");
        r.put("iret", ri);
        XM B = (ia == "uili" || ia == "uxli") ? PA : A0;
        LR s = nrm(B) * nrm(Y);
        long e1 = U(nrm(sub(mul(B, Y), eye(n, n))), s * std::max<LR>(1, n), epsof<T>());
        long e2 = U(nrm(sub(mul(Y, B), eye(n, n))), s * std::max<LR>(1, n), epsof<T>());
        r.put("ires", std::min(e1, e2));
        r.put("ipad", A.pad_ok());
    }
    c.ret = r.done();
}
// triangular inverse, any size
template <class T, char a> void n_trtri_(Ctx& c)
{
    idx n = c.i("n");
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    PM<T, L> A(n, n);
    rnd_into(A, g, c.i("kind"));
    char up = c.str("uplo")[0];
    bool unit = c.str("diag") == "U";
    Poison<T, L> pz(c);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            if (i == j && !unit) A.at(i, j) = T(real_type<T>(2 + g.u01()));
            else if (i == j || (up == 'U' ? i > j : i < j)) pz.at(A, i, j);
            else A.at(i, j) = A.at(i, j) / T(real_type<T>(std::max<idx>(n, 1)));
        }
    XM T0 = tri(A.get(), up, unit);
    auto Av = A.v();
    Rec r;
    r.put("ret", trtri_recursive(c.uplo("uplo"), c.diag("diag"), Av));
    XM Y = tri(A.get(), up, unit);
    r.put("res", U(nrm(sub(mul(T0, Y), eye(n, n))), nrm(T0) * nrm(Y) * std::max<LR>(1, n), epsof<T>()));
    r.put("unref", pz.untouched(A)); r.put("pad", A.pad_ok());
    c.ret = r.done();
}
/// random Hermitian positive definite matrix, bandwidth kd
template <class T> XM hpd(Rng& g, idx n, idx kd, int kind)
{
    XM B(n, n);
    for (idx j = 0; j < n; ++j)
        for (idx i = j; i < n && i <= j + kd; ++i) {
            B(i, j) = lc(kind == 1 ? g.ival<T>(3) : g.val<T>());
            if (i == j) B(i, j) = 1 + LR(g.u01()) * 3;
            if (kind == 2) B(i, j) *= ldexpl(1, -int(j % 8));
            if (kind == 5) B(i, j) *= 0x1p30L;
            if (kind == 6) B(i, j) *= 0x1p-30L;
        }
    XM H = mul(B, ct(B));
    // triangles of random entries are ill conditioned: stay away from the boundary
    LR hm = 0;
    for (idx i = 0; i < n; ++i) hm = std::max(hm, H(i, i).real());
    for (idx i = 0; i < n; ++i) H(i, i) += hm / 64;
    // round to T
    for (idx j = 0; j < n; ++j)
        for (idx i = j; i < n; ++i) {
            H(i, j) = lc(narrow<T>(H(i, j)));
            if (i == j) H(i, j) = H(i, j).real();
            H(j, i) = std::conj(H(i, j));
        }
    return H;
}
template <class T, Layout L> void put_tri(PM<T, L>& A, const XM& H, char up, Poison<T, L>& pz, bool hm = true, long kd = -1)
{
    for (idx j = 0; j < A.n; ++j)
        for (idx i = 0; i < A.m; ++i) {
            bool in = up == 'U' ? i <= j : i >= j;
            if (kd >= 0 && std::labs((long)i - (long)j) > kd) in = false;
            T v = narrow<T>(H(i, j));
            if (!in) pz.at(A, i, j);
            else if constexpr (is_complex<T>) A.at(i, j) = i == j && hm ? T(v.real(), pz.one()) : v;
            else A.at(i, j) = v;
        }
}
template <class T, char a> void n_chol_(Ctx& c)
{
    idx n = c.i("n"), nb = c.i("nb");
    constexpr Layout L = lay<a>::v;
    string alg = c.str("alg");
    char up = c.str("uplo")[0];
    long kd = c.i("kd", -1);
    Rng g(c.i("seed"));
    long bad = c.i("bad", 0);  // make the leading minor of this order negative
    XM H = hpd<T>(g, n, kd < 0 ? n : kd, c.i("kind"));
    if (bad) {
        LR s = 0;
        for (idx i = 0; i < n; ++i) s = std::max(s, H(i, i).real());
        H(bad - 1, bad - 1) = lc(narrow<T>(-s));
    }
    PM<T, L> A(n, n);
    Poison<T, L> pz(c);
    put_tri(A, H, up, pz, true, kd);
    auto Av = A.v();
    Rec r;
    long ret;
    auto ul = c.uplo("uplo");
    if (alg == "pbtrf") {
        BlockedBandedCholeskyOpts o;
        o.nb = nb;
        ret = coded([&] { pbtrf_with_workspace(ul, Av, kd, o); return 0; });
    }
    else if (alg == "potri") ret = coded([&] { potri(ul, Av); return 0; });
    else ret = coded([&] { return do_potrf(c, alg, ul, Av, nb); });
    r.put("ret", ret); r.put("bad", bad);
    r.put("unref", pz.untouched(A)); r.put("pad", A.pad_ok());
    if (!bad) {
        XM X = A.get();
        LR im = 0;
        for (idx i = 0; i < n; ++i) im = std::max(im, std::isfinite(X(i, i).imag()) ? fabsl(X(i, i).imag()) : INFINITY);
        if (kd >= 0)
            for (idx j = 0; j < n; ++j)
                for (idx i = 0; i < n; ++i)
                    if (std::labs((long)i - (long)j) > kd) X(i, j) = 0;
        if (alg == "potri") {
            XM Y = herm(X, up);
            r.put("res", U(nrm(sub(mul(H, Y), eye(n, n))), nrm(H) * nrm(Y) * std::max<LR>(1, n), epsof<T>()));
        }
        else {
            XM F = tri(X, up);
            r.put("res", diffU<T>(up == 'U' ? mul(ct(F), F) : mul(F, ct(F)), H));
            LR dm = INFINITY;
            for (idx i = 0; i < n; ++i) dm = std::min(dm, F(i, i).real());
            r.put("dpos", dm > 0);
        }
        r.put("dreal", im == 0);
        if (alg != "pbtrf" && alg != "potri" && c.i("nrhs", 0)) {
            PM<T, L> B(n, c.i("nrhs"));
            XM B0 = rnd_into(B, g, 0);
            auto Bv = B.v();
            PM<T, L> A1 = A;
            r.put("sret", potrs(ul, Av, Bv));
            XM X = B.get();
            r.put("sres", U(nrm(sub(mul(H, X), B0)), nrm(H) * nrm(X) * std::max<LR>(1, n), epsof<T>()));
            r.put("spad", B.pad_ok() && vf::same_bits(A1.st.data(), A.st.data(), A.st.size()));
        }
    }
    c.ret = r.done();
}
template <class T, char a> void n_ldl_(Ctx& c)
{
    idx n = c.i("n"), nb = c.i("nb");
    constexpr Layout L = lay<a>::v;
    char up = c.str("uplo")[0];
    bool hm = c.i("herm");
    long wk = c.i("wk", 0);
    Rng g(c.i("seed"));
    PM<T, L> A(n, n);
    XM R = rnd_into(A, g, c.i("kind"));
    long zd = c.i("zd", 0);  // zero diagonal / sparse patterns force 2x2 pivots
    XM H(n, n);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            bool in = up == 'U' ? i <= j : i >= j;
            LC z = in ? R(i, j) : hm ? std::conj(R(j, i)) : R(j, i);
            if (i == j && hm) z = z.real();
            if (i == j && zd == 1) z = 0;
            if (i == j && zd == 2 && i % 2) z = 0;
            if (zd == 3 && (i == n / 2 || j == n / 2)) z = 0;
            H(i, j) = z;
        }
    Poison<T, L> pz(c);
    put_tri(A, H, up, pz, hm);
    std::vector<int> pv(n + 2, c.i("p0", -99));
    LegacyVector<int, idx> ipiv(n, pv.data() + 1);
    auto Av = A.v();
    HetrfOpts o;
    o.nb = nb;
    o.invariant = hm ? Op::ConjTrans : Op::Trans;
    Rec r;
    long ret = coded([&] {
        if (wk) {
            auto W = c.work<T, L>(hetrf_blocked_worksize<T>(Av, o), wk);
            return hetrf_work(c.uplo("uplo"), Av, ipiv, W, o);
        }
        return hetrf(c.uplo("uplo"), Av, ipiv, o);
    });
    r.put("ret", ret);
    r.put("unref", pz.untouched(A));
    r.put("pad", A.pad_ok() && pv[0] == c.i("p0", -99) && pv[n + 1] == pv[0]);
    // rebuild: apply the factors P_i U_i to D from the innermost one outwards
    long okp = 1;
    XM X = A.get(), F = eye(n, n), Dg(n, n);
    std::vector<int> size;                       // pivot sizes in elimination order
    struct Piv { long j, s, p; };
    std::vector<Piv> ps;
    long zfirst = 0;
    if (up == 'U') {
        for (long j = (long)n - 1; j >= 0;) {
            long p = pv[j + 1];
            if (p >= 0) { if (p > j) okp = 0; ps.push_back({j, j, p}); j -= 1; }
            else {
                if (j == 0 || pv[j] != p || -p - 1 > j - 1) { okp = 0; break; }
                ps.push_back({j, j - 1, -p - 1}); j -= 2;
            }
        }
    }
    else {
        for (long j = 0; j < (long)n;) {
            long p = pv[j + 1];
            if (p >= 0) { if (p < j || p >= (long)n) okp = 0; ps.push_back({j, j, p}); j += 1; }
            else {
                if (j == (long)n - 1 || pv[j + 2] != p || -p - 1 < j + 1 || -p - 1 >= (long)n) { okp = 0; break; }
                ps.push_back({j, j + 1, -p - 1}); j += 2;
            }
        }
    }
    r.put("pivok", okp);
    if (okp) {
        LR dm = 0;
        for (auto& q : ps) {
            Dg(q.j, q.j) = X(q.j, q.j);
            if (hm && X(q.j, q.j).imag() != 0) dm = 1;
            if (q.s != q.j) {
                Dg(q.s, q.s) = X(q.s, q.s);
                if (hm && X(q.s, q.s).imag() != 0) dm = 1;
                LC e = up == 'U' ? X(q.s, q.j) : X(q.s, q.j);
                Dg(q.s, q.j) = e; Dg(q.j, q.s) = hm ? std::conj(e) : e;
            }
            else if (X(q.j, q.j) == LC(0) && !zfirst) zfirst = q.j + 1;
        }
        // F = prod P U  (first eliminated is the outermost factor)
        LR gm = 0;
        for (size_t t = ps.size(); t-- > 0;) {
            auto& q = ps[t];
            XM V = eye(n, n);
            for (idx i = 0; i < n; ++i) {
                bool strip = up == 'U' ? (long)i < std::min(q.j, q.s) : (long)i > std::max(q.j, q.s);
                if (!strip) continue;
                V(i, q.j) = X(i, q.j);
                if (q.s != q.j) V(i, q.s) = X(i, q.s);
                gm = std::max(gm, absl(X(i, q.j)));
            }
            F = mul(V, F);
            if (q.p != q.s) for (idx j = 0; j < n; ++j) std::swap(F(q.s, j), F(q.p, j));
        }
        XM Ft = hm ? ct(F) : tr(F);
        XM P = mul(F, mul(Dg, Ft));
        XM aF = F, aD = Dg;
        for (auto& z : aF.a) z = absl(z);
        for (auto& z : aD.a) z = absl(z);
        LR sc = std::max(nrm(H), nrm(mul(aF, mul(aD, tr(aF)))));
        r.put("res", diffU<T>(P, H, sc));
        r.put("grow", sc > 0 ? (long)std::min<LR>(BIG, ceill(log2l(std::max<LR>(1, sc / std::max(nrm(H), (LR)1e-300))))) : 0);
        r.put("dreal", dm == 0);
        r.put("zf", zfirst);
        r.put("multok", gm < 1e4L);
    }
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
#define ALL2(op) VR2(op, d, D, C, C) VR2(op, d, D, C, R) VR2(op, d, D, R, C) VR2(op, d, D, R, R) VR2(op, z, Z, C, C) VR2(op, z, Z, C, R) VR2(op, z, Z, R, C) VR2(op, z, Z, R, R) VR2(op, s, S, C, C) VR2(op, c, vf::C, C, C)
#define VECS(op) VR2(op, d, D, F, F) VR2(op, d, D, F, B) VR2(op, d, D, B, F) VR2(op, z, Z, F, F) VR2(op, z, Z, B, B) VR2(op, s, S, F, F) VR2(op, c, vf::C, F, F)
ALL1(getrf_) ALL1(getri_) ALL1(trtri_) ALL1(potrf_) ALL2(potrs_) ALL1(potri_) ALL1(pbtrf_) VECS(pttrf_)
ALL1(n_lu_) ALL1(n_trtri_) ALL1(n_chol_) ALL1(n_ldl_)
