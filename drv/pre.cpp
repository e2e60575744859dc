// Which shapes and flags does each routine accept?  Operands are given by
// their dimensions only; reported is the kind of failure and whether anything
// a caller can see was modified.
#include "core.hpp"
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/ungq.hpp>
#include <tlapack/lapack/ungq_level2.hpp>
#include <tlapack/lapack/unmq.hpp>
#include <tlapack/lapack/unmq_level2.hpp>
#include <tlapack/lapack/gebd2.hpp>
#include <tlapack/lapack/gebrd.hpp>
#include <tlapack/lapack/gehd2.hpp>
#include <tlapack/lapack/gehrd.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/lahqr.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrf_blocked.hpp>
#include <tlapack/lapack/potrf_blocked_right_looking.hpp>
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/getrf_level0.hpp>
#include <tlapack/lapack/getrf_recursive.hpp>
#include <tlapack/lapack/getri_uili.hpp>
#include <tlapack/lapack/getri_uxli.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/hetrf.hpp>
#include <tlapack/lapack/lahqz.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/potf2.hpp>
#include <tlapack/lapack/potrf2.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/potrs.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/tkhnv.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/ul_mult.hpp>
using namespace vf;
using namespace tlapack;

namespace {
template <class T, Layout L> struct Box {
    Ctx& c;
    std::map<string, std::vector<T>> store, was;
    std::map<string, std::vector<real_type<T>>> rstore, rwas;
    std::map<string, std::vector<int>> istore, iwas;
    static constexpr size_t G = 32;
    std::pair<idx, idx> dims(const char* k)
    {
        auto f = Ctx::split(c.str(k), ',');
        return {idx(atol(f[0].c_str())), f.size() > 1 ? idx(atol(f[1].c_str())) : 1};
    }
    // well conditioned, positive definite where square
    LegacyMatrix<T, idx, L> M(const char* k)
    {
        auto [m, n] = dims(k);
        idx ld = (L == Layout::ColMajor ? m : n) + 1;
        auto& s = store[k];
        s.assign(2 * G + ld * (L == Layout::ColMajor ? n : m), T(77));
        LegacyMatrix<T, idx, L> A(m, n, s.data() + G, ld);
        for (idx i = 0; i < m; ++i)
            for (idx j = 0; j < n; ++j) A(i, j) = i == j ? T(2) : T(real_type<T>(0.25) / real_type<T>(1 + i + j));
        was[k] = s;
        return A;
    }
    LegacyVector<T, idx, idx> V(const char* k)
    {
        idx n = dims(k).first;
        auto& s = store[k];
        s.assign(2 * G + n, T(77));
        for (idx i = 0; i < n; ++i) s[G + i] = T(real_type<T>(0.5) + real_type<T>(i));
        was[k] = s;
        return LegacyVector<T, idx, idx>(n, s.data() + G);
    }
    LegacyVector<real_type<T>, idx, idx> W(const char* k)
    {
        using R = real_type<T>;
        idx n = dims(k).first;
        auto& s = rstore[k];
        s.assign(2 * G + n, R(77));
        for (idx i = 0; i < n; ++i) s[G + i] = R(4);
        rwas[k] = s;
        return LegacyVector<R, idx, idx>(n, s.data() + G);
    }
    LegacyVector<int, idx, idx> I(const char* k)
    {
        idx n = dims(k).first;
        auto& s = istore[k];
        s.assign(2 * G + n, 77);
        for (idx i = 0; i < n; ++i) s[G + i] = int(i);
        iwas[k] = s;
        return LegacyVector<int, idx, idx>(n, s.data() + G);
    }
    template <class S> static bool guards(const S& s, const S& w)
    {
        for (auto& p : s)
            for (size_t i = 0; i < G; ++i)
                if (memcmp(&p.second[i], &w.at(p.first)[i], sizeof p.second[i]) || memcmp(&p.second[p.second.size() - 1 - i], &w.at(p.first)[p.second.size() - 1 - i], sizeof p.second[i])) return false;
        return true;
    }
    template <class S> static bool equal(const S& s, const S& w)
    {
        for (auto& p : s)
            if (!p.second.empty() && memcmp(p.second.data(), w.at(p.first).data(), p.second.size() * sizeof p.second[0])) return false;
        return true;
    }
    bool untouched() { return equal(store, was) && equal(rstore, rwas) && equal(istore, iwas); }
    bool guarded() { return guards(store, was) && guards(rstore, rwas) && guards(istore, iwas); }
};

template <class T, char a> void pre_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    using R = real_type<T>;
    constexpr bool cx = is_complex<T>;
    Box<T, L> b{c};
    const string r = c.str("r");
    auto M = [&](const char* k) { return b.M(k); };
    auto V = [&](const char* k) { return b.V(k); };
    auto sv = [&] { return StoreV(c.str("storev")[0]); };
    auto dr = [&] { return Direction(c.str("direc")[0]); };
    auto sd = [&] { return c.side("side"); };
    auto ul = [&] { return c.uplo("uplo"); };
    auto dg = [&] { return c.diag("diag"); };
    auto nrm = [&] { return Norm(c.str("norm")[0]); };
    T al(2), be(3);
    R ral(2), rbe(3);
    T tau(R(0.5));
    string thr;
    auto run = [&] {
        // ---- BLAS
        if (r == "gemm") { auto A = M("A"), B = M("B"), C = M("C"); gemm(c.op("ta"), c.op("tb"), al, A, B, be, C); }
        else if (r == "hemm") { auto A = M("A"), B = M("B"), C = M("C"); hemm(sd(), ul(), al, A, B, be, C); }
        else if (r == "symm") { auto A = M("A"), B = M("B"), C = M("C"); symm(sd(), ul(), al, A, B, be, C); }
        else if (r == "herk") { auto A = M("A"), C = M("C"); herk(ul(), c.op("trans"), ral, A, rbe, C); }
        else if (r == "syrk") { auto A = M("A"), C = M("C"); syrk(ul(), c.op("trans"), al, A, be, C); }
        else if (r == "her2k") { auto A = M("A"), B = M("B"), C = M("C"); her2k(ul(), c.op("trans"), al, A, B, rbe, C); }
        else if (r == "syr2k") { auto A = M("A"), B = M("B"), C = M("C"); syr2k(ul(), c.op("trans"), al, A, B, be, C); }
        else if (r == "trmm") { auto A = M("A"), B = M("B"); trmm(sd(), ul(), c.op("trans"), dg(), al, A, B); }
        else if (r == "trsm") { auto A = M("A"), B = M("B"); trsm(sd(), ul(), c.op("trans"), dg(), al, A, B); }
        else if (r == "gemmtr") { auto A = M("A"), B = M("B"), C = M("C"); gemmtr(ul(), c.op("ta"), c.op("tb"), al, A, B, be, C); }
        else if (r == "gemv") { auto A = M("A"); auto x = V("x"), y = V("y"); gemv(c.op("trans"), al, A, x, be, y); }
        else if (r == "hemv") { auto A = M("A"); auto x = V("x"), y = V("y"); hemv(ul(), al, A, x, be, y); }
        else if (r == "symv") { auto A = M("A"); auto x = V("x"), y = V("y"); symv(ul(), al, A, x, be, y); }
        else if (r == "ger") { auto A = M("A"); auto x = V("x"), y = V("y"); ger(al, x, y, A); }
        else if (r == "geru") { auto A = M("A"); auto x = V("x"), y = V("y"); geru(al, x, y, A); }
        else if (r == "her") { auto A = M("A"); auto x = V("x"); her(ul(), ral, x, A); }
        else if (r == "syr") { auto A = M("A"); auto x = V("x"); syr(ul(), al, x, A); }
        else if (r == "her2") { auto A = M("A"); auto x = V("x"), y = V("y"); her2(ul(), al, x, y, A); }
        else if (r == "syr2") { auto A = M("A"); auto x = V("x"), y = V("y"); syr2(ul(), al, x, y, A); }
        else if (r == "trmv") { auto A = M("A"); auto x = V("x"); trmv(ul(), c.op("trans"), dg(), A, x); }
        else if (r == "trsv") { auto A = M("A"); auto x = V("x"); trsv(ul(), c.op("trans"), dg(), A, x); }
        else if (r == "axpy") { auto x = V("x"), y = V("y"); axpy(al, x, y); }
        else if (r == "copy") { auto x = V("x"), y = V("y"); copy(x, y); }
        else if (r == "swap") { auto x = V("x"), y = V("y"); tlapack::swap(x, y); }
        else if (r == "dot") { auto x = V("x"), y = V("y"); dot(x, y); }
        else if (r == "dotu") { auto x = V("x"), y = V("y"); dotu(x, y); }
        else if (r == "rot") { auto x = V("x"), y = V("y"); rot(x, y, R(.5), T(R(.5))); }
        else if (r == "rotm") {
            if constexpr (!cx) { auto x = V("x"), y = V("y"); R h[4] = {1, 2, 3, 4}; rotm<-1>(x, y, h); }
        }
        // ---- reflectors
        else if (r == "larf") {
            auto x = V("x"); auto C = M("C");
            // C without its first (last) row or column, which comes separately
            auto C0 = V("C0");
            larf(sd(), sv(), x, tau, C0, C);
        }
        else if (r == "larfv") { auto x = V("x"); auto C = M("C"); larf(sd(), dr(), sv(), x, tau, C); }
        else if (r == "larft") { auto A = M("V"), Tm = M("T"); auto t = V("tau"); larft(dr(), sv(), A, t, Tm); }
        else if (r == "larfb") { auto A = M("V"), Tm = M("T"), C = M("C"); larfb(sd(), c.op("trans"), dr(), sv(), A, Tm, C); }
        else if (r == "geqr2") { auto A = M("A"); auto t = V("tau"); geqr2(A, t); }
        else if (r == "gelq2") { auto A = M("A"); auto t = V("tau"); gelq2(A, t); }
        else if (r == "geql2") { auto A = M("A"); auto t = V("tau"); geql2(A, t); }
        else if (r == "gerq2") { auto A = M("A"); auto t = V("tau"); gerq2(A, t); }
        else if (r == "geqrf") { auto A = M("A"); auto t = V("tau"); GeqrfOpts o; o.nb = c.i("nb"); geqrf(A, t, o); }
        else if (r == "gelqf") { auto A = M("A"); auto t = V("tau"); GelqfOpts o; o.nb = c.i("nb"); gelqf(A, t, o); }
        else if (r == "geqlf") { auto A = M("A"); auto t = V("tau"); GeqlfOpts o; o.nb = c.i("nb"); geqlf(A, t, o); }
        else if (r == "gerqf") { auto A = M("A"); auto t = V("tau"); GerqfOpts o; o.nb = c.i("nb"); gerqf(A, t, o); }
        else if (r == "gelqt") { auto A = M("A"), Tm = M("T"); gelqt(A, Tm); }
        else if (r == "ungq") { auto A = M("A"); auto t = V("tau"); UngqOpts o; o.nb = c.i("nb"); ungq(dr(), sv(), A, t, o); }
        else if (r == "ungq_level2") { auto A = M("A"); auto t = V("tau"); ungq_level2(dr(), sv(), A, t); }
        else if (r == "unmq") { auto A = M("V"), C = M("C"); auto t = V("tau"); UnmqOpts o; o.nb = c.i("nb"); unmq(sd(), c.op("trans"), dr(), sv(), A, t, C, o); }
        else if (r == "unmq_level2") { auto A = M("V"), C = M("C"); auto t = V("tau"); unmq_level2(sd(), c.op("trans"), dr(), sv(), A, t, C); }
        else if (r == "gebd2") { auto A = M("A"); auto t = V("tauv"), u = V("tauw"); gebd2(A, t, u); }
        else if (r == "gebrd") { auto A = M("A"); auto t = V("tauv"), u = V("tauw"); GebrdOpts o; o.nb = c.i("nb"); gebrd(A, t, u, o); }
        else if (r == "gehd2") { auto A = M("A"); auto t = V("tau"); gehd2(idx(c.i("ilo")), idx(c.i("ihi")), A, t); }
        else if (r == "gehrd") { auto A = M("A"); auto t = V("tau"); gehrd(idx(c.i("ilo")), idx(c.i("ihi")), A, t); }
        else if (r == "hetd2") { auto A = M("A"); auto t = V("tau"); hetd2(ul(), A, t); }
        // ---- factorizations
        else if (r == "getrf0") { auto A = M("A"); auto p = b.I("piv"); getrf_level0(A, p); }
        else if (r == "getrfr") { auto A = M("A"); auto p = b.I("piv"); getrf_recursive(A, p); }
        else if (r == "getri_uili") { auto A = M("A"); getri_uili(A); }
        else if (r == "getri_uxli") { auto A = M("A"); getri_uxli(A); }
        else if (r == "potf2") { auto A = M("A"); potf2(ul(), A); }
        else if (r == "potrf2") { auto A = M("A"); potrf2(ul(), A); }
        else if (r == "potrf_blocked") { auto A = M("A"); BlockedCholeskyOpts o; o.nb = c.i("nb"); potrf_blocked(ul(), A, o); }
        else if (r == "potrf_rl") { auto A = M("A"); BlockedCholeskyOpts o; o.nb = c.i("nb"); potrf_rl(ul(), A, o); }
        else if (r == "potrf") { auto A = M("A"); potrf(ul(), A); }
        else if (r == "potri") { auto A = M("A"); potri(ul(), A); }
        else if (r == "potrs") { auto A = M("A"), B = M("B"); potrs(ul(), A, B); }
        else if (r == "pttrf") { auto d = b.W("d"), e = b.W("e"); for (idx i = 0; i < size(e); ++i) e[i] = R(1); b.rwas["e"] = b.rstore["e"]; pttrf(d, e); }
        else if (r == "trtri") { auto A = M("A"); trtri_recursive(ul(), dg(), A); }
        else if (r == "lauum") { auto A = M("A"); lauum_recursive(ul(), A); }
        else if (r == "hetrf") { auto A = M("A"); auto p = b.I("piv"); HetrfOpts o; o.nb = c.i("nb"); hetrf(ul(), A, p, o); }
        // ---- products in place
        else if (r == "mult_llh") { auto A = M("A"); mult_llh(A); }
        else if (r == "mult_uhu") { auto A = M("A"); mult_uhu(A); }
        else if (r == "lu_mult") { auto A = M("A"); lu_mult(A); }
        else if (r == "ul_mult") { auto A = M("A"); ul_mult(A); }
        else if (r == "hemm2") { auto A = M("A"), B = M("B"), C = M("C"); hemm2(sd(), ul(), c.op("tb"), al, A, B, be, C); }
        // ---- utilities
        else if (r == "lacpy") { auto A = M("A"), B = M("B"); lacpy(ul(), A, B); }
        else if (r == "laset") { auto A = M("A"); laset(ul(), al, be, A); }
        else if (r == "lascl") { auto A = M("A"); R d[] = {0, 1, R(NAN)}; lascl(ul(), d[c.i("b")], d[c.i("a")], A); }
        else if (r == "lasclb") { auto A = M("A"); R d[] = {0, 1, R(NAN)}; lascl(BandAccess(c.i("kl"), c.i("ku")), d[c.i("b")], d[c.i("a")], A); }
        else if (r == "lange") { auto A = M("A"); lange(nrm(), A); }
        else if (r == "lansy") { auto A = M("A"); lansy(nrm(), ul(), A); }
        else if (r == "lanhe") { auto A = M("A"); lanhe(nrm(), ul(), A); }
        else if (r == "lantr") { auto A = M("A"); lantr(nrm(), ul(), dg(), A); }
        else if (r == "hasnan") { auto A = M("A"); hasnan(ul(), A); }
        else if (r == "hasinf") { auto A = M("A"); hasinf(ul(), A); }
        else if (r == "transpose") { auto A = M("A"), B = M("B"); TransposeOpts o; o.nx = c.i("nx"); transpose(A, B, o); }
        else if (r == "conjtranspose") { auto A = M("A"), B = M("B"); TransposeOpts o; o.nx = c.i("nx"); conjtranspose(A, B, o); }
        else if (r == "rot_sequence") { auto A = M("A"); auto cv = b.W("c"); auto s = V("s"); rot_sequence(sd(), dr(), cv, s, A); }
        // ---- spectral
        else if (r == "lahqr") {
            auto A = M("A"), Z = M("Z");
            if constexpr (cx) { auto w = V("w"); lahqr(true, c.i("wz"), idx(0), nrows(A), A, w, Z); }
            else {
                idx nw = b.dims("w").first;
                std::vector<std::complex<R>> w(nw);
                lahqr(true, c.i("wz"), idx(0), nrows(A), A, w, Z);
            }
        }
        else if (r == "gghrd") { auto A = M("A"), B = M("B"), Q = M("Q"), Z = M("Z"); gghrd(true, true, idx(c.i("ilo")), idx(c.i("ihi")), A, B, Q, Z); }
        else if (r == "schur_swap") {
            auto A = M("A"), Q = M("Q");
            // a block must be there to be swapped
            for (idx i = 0; i < nrows(A); ++i) for (idx j = 0; j < ncols(A); ++j) { if (i > j) A(i, j) = T(0); if (i == j) A(i, j) = T(R(i + 1)); }
            auto blk = [&](idx j) { if (!cx && j + 1 < nrows(A) && j + 1 < ncols(A)) { A(j + 1, j + 1) = A(j, j); A(j, j + 1) = T(1); A(j + 1, j) = T(-1); } };
            idx j0 = c.i("j0"), n1 = c.i("n1"), n2 = c.i("n2");
            if (n1 == 2) blk(j0);
            if (n2 == 2) blk(j0 + n1);
            b.was["A"] = b.store["A"];
            schur_swap(true, A, Q, j0, n1, n2);
        }
        else if (r == "tkhnv") { auto A = M("A"), B = M("b"); string v = c.str("var"); tkhnv(A, B, R(.5), TikOpts(v == "Q" ? TikVariant::QR : v == "E" ? TikVariant::Elden : TikVariant::SVD)); }
        else throw BadProgram(r);
    };
    try { run(); }
    catch (const BadProgram&) { throw; }
    catch (const std::domain_error&) { thr = "domain"; }
    catch (const std::runtime_error&) { thr = "runtime"; }
    c.ret = "[\"" + thr + "\"," + (b.untouched() ? "1" : "0") + "," + (b.guarded() ? "1" : "0") + "]";
}
VR1(pre_, d, D, C)
VR1(pre_, d, D, R)
VR1(pre_, z, Z, C)
VR1(pre_, z, Z, R)
}  // namespace
