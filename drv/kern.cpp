// Structured product kernels.
#include "core.hpp"
#include <iostream>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/ul_mult.hpp>
using namespace vf;
using namespace tlapack;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define REAL real_type<T>
#define WITHBETA(call)                                          \
    if (c.has("beta")) { auto beta = c.scal<T>("beta"); call; } \
    else { StrongZero beta; call; }

template <class T, char a, char b, char e> void gemmtr_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    WITHBETA(gemmtr(c.uplo("uplo"), c.op("ta"), c.op("tb"), c.scal<T>("alpha"), A, B, beta, C))
}
template <class T, char a, char b, char e> void hemm2_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    if (c.has("beta")) hemm2(c.side("side"), c.uplo("uplo"), c.op("tb"), c.scal<T>("alpha"), A, B, c.scal<T>("beta"), C);
    else hemm2(c.side("side"), c.uplo("uplo"), c.op("tb"), c.scal<T>("alpha"), A, B, StrongZero(), C);
}
template <class T, char a, char b, char e> void mult_hehe_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    // a library routine must not write to the standard output
    std::streambuf* old = std::cout.rdbuf();
    std::ostringstream os;
    std::cout.rdbuf(os.rdbuf());
    try {
        if (c.has("beta")) mult_hehe(c.uplo("uplo"), c.scal<T>("alpha"), A, B, c.scal<T>("beta"), C);
        else mult_hehe(c.uplo("uplo"), c.scal<T>("alpha"), A, B, C);
    }
    catch (...) {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);
    c.setint(os.str().size());
}
template <class T, char a, char b, char e> void trmm_out_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    WITHBETA(trmm_out(c.side("side"), c.uplo("uplo"), Op::NoTrans, c.diag("diag"), c.op("tb"), c.scal<T>("alpha"), A, B, beta, C))
}
template <class T, char a, char b> void trsm_tri_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    trsm_tri(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), c.scal<T>("alpha"), A, B);
}
template <class T, char a> void lauum_(Ctx& c)
{
    auto A = MA("A", a);
    c.setint(lauum_recursive(c.uplo("uplo"), A));
}
template <class T, char a> void mult_uhu_(Ctx& c)
{
    auto A = MA("A", a);
    mult_uhu_Opts o; o.nx = c.i("nx");
    mult_uhu(A, o);
}
template <class T, char a> void mult_llh_(Ctx& c)
{
    auto A = MA("A", a);
    mult_llh_Opts o; o.nx = c.i("nx");
    mult_llh(A, o);
}
template <class T, char a> void ul_mult_(Ctx& c)
{
    auto A = MA("A", a);
    c.setint(ul_mult(A));
}
template <class T, char a> void lu_mult_(Ctx& c)
{
    auto A = MA("A", a);
    LuMultOpts o; o.nx = c.i("nx");
    lu_mult(A, o);
}
template <class T, char a, char b> void trmm_blocked_mixed_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    TrmmBlockedOpts o; o.nb = c.i("nb");
    if constexpr (is_real<T>) if (c.i("mixed")) {
        auto W = c.M<float, lay<b>::v>("W");
        trmm_blocked_mixed(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), c.scal<T>("alpha"), A, B, W, o);
        return;
    }
    {
        auto W = MA("W", b);
        trmm_blocked_mixed(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), c.scal<T>("alpha"), A, B, W, o);
    }
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
#define ALL2(op) VR2(op, d, D, C, C) VR2(op, d, D, R, R) VR2(op, d, D, C, R) VR2(op, d, D, R, C) \
    VR2(op, z, Z, C, C) VR2(op, z, Z, R, R) VR2(op, z, Z, C, R) VR2(op, z, Z, R, C) VR2(op, s, S, C, C) VR2(op, c, vf::C, C, C)
#define ALL3(op) VR3(op, d, D, C, C, C) VR3(op, d, D, R, R, R) VR3(op, d, D, C, R, C) VR3(op, d, D, R, C, C) VR3(op, d, D, C, C, R) \
    VR3(op, z, Z, C, C, C) VR3(op, z, Z, R, R, R) VR3(op, z, Z, C, R, C) VR3(op, z, Z, R, C, C) VR3(op, z, Z, C, C, R) VR3(op, s, S, C, C, C) VR3(op, c, vf::C, C, C, C)
ALL3(gemmtr_) ALL3(hemm2_) ALL3(mult_hehe_) ALL3(trmm_out_) ALL2(trsm_tri_) ALL1(lauum_) ALL1(mult_uhu_) ALL1(mult_llh_)
ALL1(ul_mult_) ALL1(lu_mult_) ALL2(trmm_blocked_mixed_)
