#include "core.hpp"
using namespace vf;
using namespace tlapack;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define VE(k, l) c.V<T, dir<l>::v>(k)
#define REAL real_type<T>

template <class T, char a, char dx, char dy> void gemv_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    if (c.has("beta"))
        gemv(c.op("trans"), c.scal<T>("alpha"), A, x, c.scal<T>("beta"), y);
    else
        gemv(c.op("trans"), c.scal<T>("alpha"), A, x, y);
}
template <class T, char a, char dx, char dy> void hemv_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    if (c.has("beta"))
        hemv(c.uplo("uplo"), c.scal<T>("alpha"), A, x, c.scal<T>("beta"), y);
    else
        hemv(c.uplo("uplo"), c.scal<T>("alpha"), A, x, y);
}
template <class T, char a, char dx, char dy> void symv_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    if (c.has("beta"))
        symv(c.uplo("uplo"), c.scal<T>("alpha"), A, x, c.scal<T>("beta"), y);
    else
        symv(c.uplo("uplo"), c.scal<T>("alpha"), A, x, y);
}
template <class T, char a, char dx, char dy> void ger_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    ger(c.scal<T>("alpha"), x, y, A);
}
template <class T, char a, char dx, char dy> void geru_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    geru(c.scal<T>("alpha"), x, y, A);
}
template <class T, char a, char dx, char dy> void her2_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    her2(c.uplo("uplo"), c.scal<T>("alpha"), x, y, A);
}
template <class T, char a, char dx, char dy> void syr2_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx); auto y = VE("y", dy);
    syr2(c.uplo("uplo"), c.scal<T>("alpha"), x, y, A);
}
template <class T, char a, char dx> void her_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx);
    her(c.uplo("uplo"), c.scal<REAL>("alpha"), x, A);
}
template <class T, char a, char dx> void syr_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx);
    syr(c.uplo("uplo"), c.scal<T>("alpha"), x, A);
}
template <class T, char a, char dx> void trmv_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx);
    trmv(c.uplo("uplo"), c.op("trans"), c.diag("diag"), A, x);
}
template <class T, char a, char dx> void trsv_(Ctx& c)
{
    auto A = MA("A", a); auto x = VE("x", dx);
    trsv(c.uplo("uplo"), c.op("trans"), c.diag("diag"), A, x);
}
#define ALL3(op)                                                     \
    VR3(op, d, D, C, F, F) VR3(op, d, D, R, F, F) VR3(op, d, D, C, B, F) \
    VR3(op, d, D, R, F, B) VR3(op, z, Z, C, F, F) VR3(op, z, Z, R, F, F) \
    VR3(op, z, Z, C, B, F) VR3(op, z, Z, R, F, B) VR3(op, s, S, C, F, F) \
    VR3(op, c, vf::C, C, F, F)
#define ALL2(op)                                                         \
    VR2(op, d, D, C, F) VR2(op, d, D, R, F) VR2(op, d, D, C, B)          \
    VR2(op, d, D, R, B) VR2(op, z, Z, C, F) VR2(op, z, Z, R, F)          \
    VR2(op, z, Z, C, B) VR2(op, z, Z, R, B) VR2(op, s, S, C, F)          \
    VR2(op, c, vf::C, C, F)
ALL3(gemv_) ALL3(hemv_) ALL3(symv_) ALL3(ger_) ALL3(geru_) ALL3(her2_)
ALL3(syr2_) ALL2(her_) ALL2(syr_) ALL2(trmv_) ALL2(trsv_)
