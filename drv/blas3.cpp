#include "core.hpp"
using namespace vf;
using namespace tlapack;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define REAL real_type<T>

template <class T, char a, char b, char e> void gemm_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    if (c.has("beta"))
        gemm(c.op("ta"), c.op("tb"), c.scal<T>("alpha"), A, B, c.scal<T>("beta"), C);
    else
        gemm(c.op("ta"), c.op("tb"), c.scal<T>("alpha"), A, B, C);
}
template <class T, char a, char b, char e> void hemm_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    if (c.has("beta"))
        hemm(c.side("side"), c.uplo("uplo"), c.scal<T>("alpha"), A, B, c.scal<T>("beta"), C);
    else
        hemm(c.side("side"), c.uplo("uplo"), c.scal<T>("alpha"), A, B, C);
}
template <class T, char a, char b, char e> void symm_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    if (c.has("beta"))
        symm(c.side("side"), c.uplo("uplo"), c.scal<T>("alpha"), A, B, c.scal<T>("beta"), C);
    else
        symm(c.side("side"), c.uplo("uplo"), c.scal<T>("alpha"), A, B, C);
}
template <class T, char a, char b, char e> void her2k_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    if (c.has("beta"))
        her2k(c.uplo("uplo"), c.op("trans"), c.scal<T>("alpha"), A, B, c.scal<REAL>("beta"), C);
    else
        her2k(c.uplo("uplo"), c.op("trans"), c.scal<T>("alpha"), A, B, C);
}
template <class T, char a, char b, char e> void syr2k_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b); auto C = MA("C", e);
    if (c.has("beta"))
        syr2k(c.uplo("uplo"), c.op("trans"), c.scal<T>("alpha"), A, B, c.scal<T>("beta"), C);
    else
        syr2k(c.uplo("uplo"), c.op("trans"), c.scal<T>("alpha"), A, B, C);
}
template <class T, char a, char e> void herk_(Ctx& c)
{
    auto A = MA("A", a); auto C = MA("C", e);
    if (c.has("beta"))
        herk(c.uplo("uplo"), c.op("trans"), c.scal<REAL>("alpha"), A, c.scal<REAL>("beta"), C);
    else
        herk(c.uplo("uplo"), c.op("trans"), c.scal<REAL>("alpha"), A, C);
}
template <class T, char a, char e> void syrk_(Ctx& c)
{
    auto A = MA("A", a); auto C = MA("C", e);
    if (c.has("beta"))
        syrk(c.uplo("uplo"), c.op("trans"), c.scal<T>("alpha"), A, c.scal<T>("beta"), C);
    else
        syrk(c.uplo("uplo"), c.op("trans"), c.scal<T>("alpha"), A, C);
}
template <class T, char a, char b> void trmm_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    trmm(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), c.scal<T>("alpha"), A, B);
}
template <class T, char a, char b> void trsm_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    trsm(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), c.scal<T>("alpha"), A, B);
}
#define ALL3(op)                                                              \
    VR3(op, d, D, C, C, C) VR3(op, d, D, R, R, R) VR3(op, d, D, R, C, C)      \
    VR3(op, d, D, C, R, C) VR3(op, d, D, C, C, R) VR3(op, z, Z, C, C, C)      \
    VR3(op, z, Z, R, R, R) VR3(op, z, Z, R, C, C) VR3(op, z, Z, C, R, C)      \
    VR3(op, z, Z, C, C, R) VR3(op, s, S, C, C, C) VR3(op, c, C, C, C, C)
#define ALL2(op)                                                             \
    VR2(op, d, D, C, C) VR2(op, d, D, R, R) VR2(op, d, D, R, C)              \
    VR2(op, d, D, C, R) VR2(op, z, Z, C, C) VR2(op, z, Z, R, R)              \
    VR2(op, z, Z, R, C) VR2(op, z, Z, C, R) VR2(op, s, S, C, C)              \
    VR2(op, c, vf::C, C, C)
#undef VR3
#define VR3(op, t, T, a, b, c)                                                \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #t " " #a #b #c,            \
                                          &op<vf::T, (#a)[0], (#b)[0], (#c)[0]>);
ALL3(gemm_) ALL3(hemm_) ALL3(symm_) ALL3(her2k_) ALL3(syr2k_)
ALL2(herk_) ALL2(syrk_) ALL2(trmm_) ALL2(trsm_)
