// operands of different scalar types: the type key has one letter per operand
#ifndef PART
#define PART 1
#endif
#include "core.hpp"
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmrq.hpp>
using namespace vf;
using namespace tlapack;
#define M1(k) c.M<TA, lay<a>::v>(k)
#define M2(k) c.M<TB, lay<b>::v>(k)
#define M3(k) c.M<TC, lay<e>::v>(k)
#define V1(k) c.V<TA, dir<a>::v>(k)
#define V2(k) c.V<TB, dir<b>::v>(k)
#define V3(k) c.V<TC, dir<e>::v>(k)
#define HEAD template <class TA, class TB, class TC, class Tal, class Tbe, char a, char b, char e>
#define HEAD2 template <class TA, class TB, class Tal, class Tbe, char a, char b>
#define AL c.scal<Tal>("alpha")
#define BE c.scal<Tbe>("beta")
#define RAL c.scal<real_type<Tal>>("alpha")
#define RBE c.scal<real_type<Tbe>>("beta")
#define CALL(nb, wb) if (c.has("beta")) { wb; } else { nb; }

HEAD void gemm_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B"); auto C = M3("C");
    CALL(gemm(c.op("ta"), c.op("tb"), AL, A, B, C), gemm(c.op("ta"), c.op("tb"), AL, A, B, BE, C))
}
HEAD void hemm_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B"); auto C = M3("C");
    CALL(hemm(c.side("side"), c.uplo("uplo"), AL, A, B, C), hemm(c.side("side"), c.uplo("uplo"), AL, A, B, BE, C))
}
HEAD void symm_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B"); auto C = M3("C");
    CALL(symm(c.side("side"), c.uplo("uplo"), AL, A, B, C), symm(c.side("side"), c.uplo("uplo"), AL, A, B, BE, C))
}
HEAD void her2k_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B"); auto C = M3("C");
    CALL(her2k(c.uplo("uplo"), c.op("trans"), AL, A, B, C), her2k(c.uplo("uplo"), c.op("trans"), AL, A, B, RBE, C))
}
HEAD void syr2k_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B"); auto C = M3("C");
    CALL(syr2k(c.uplo("uplo"), c.op("trans"), AL, A, B, C), syr2k(c.uplo("uplo"), c.op("trans"), AL, A, B, BE, C))
}
HEAD2 void herk_(Ctx& c)
{
    auto A = M1("A"); auto C = M2("C");
    CALL(herk(c.uplo("uplo"), c.op("trans"), RAL, A, C), herk(c.uplo("uplo"), c.op("trans"), RAL, A, RBE, C))
}
HEAD2 void syrk_(Ctx& c)
{
    auto A = M1("A"); auto C = M2("C");
    CALL(syrk(c.uplo("uplo"), c.op("trans"), AL, A, C), syrk(c.uplo("uplo"), c.op("trans"), AL, A, BE, C))
}
HEAD2 void trmm_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B");
    trmm(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), AL, A, B);
}
HEAD2 void trsm_(Ctx& c)
{
    auto A = M1("A"); auto B = M2("B");
    trsm(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), AL, A, B);
}
HEAD void gemv_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    CALL(gemv(c.op("trans"), AL, A, x, y), gemv(c.op("trans"), AL, A, x, BE, y))
}
HEAD void hemv_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    CALL(hemv(c.uplo("uplo"), AL, A, x, y), hemv(c.uplo("uplo"), AL, A, x, BE, y))
}
HEAD void symv_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    CALL(symv(c.uplo("uplo"), AL, A, x, y), symv(c.uplo("uplo"), AL, A, x, BE, y))
}
HEAD void ger_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    ger(AL, x, y, A);
}
HEAD void geru_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    geru(AL, x, y, A);
}
HEAD void her2_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    her2(c.uplo("uplo"), AL, x, y, A);
}
HEAD void syr2_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x"); auto y = V3("y");
    syr2(c.uplo("uplo"), AL, x, y, A);
}
HEAD2 void her_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x");
    her(c.uplo("uplo"), RAL, x, A);
}
HEAD2 void syr_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x");
    syr(c.uplo("uplo"), AL, x, A);
}
HEAD2 void trmv_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x");
    trmv(c.uplo("uplo"), c.op("trans"), c.diag("diag"), A, x);
}
HEAD2 void trsv_(Ctx& c)
{
    auto A = M1("A"); auto x = V2("x");
    trsv(c.uplo("uplo"), c.op("trans"), c.diag("diag"), A, x);
}
HEAD2 void axpy_(Ctx& c) { auto x = V1("x"); auto y = V2("y"); axpy(c.scal<Tal>("alpha"), x, y); }
HEAD2 void dot_(Ctx& c) { auto x = V1("x"); auto y = V2("y"); c.setret(Tal(dot(x, y))); }
HEAD2 void dotu_(Ctx& c) { auto x = V1("x"); auto y = V2("y"); c.setret(Tal(dotu(x, y))); }
HEAD2 void copy_(Ctx& c) { auto x = V1("x"); auto y = V2("y"); tlapack::copy(x, y); }
HEAD2 void swap_(Ctx& c) { auto x = V1("x"); auto y = V2("y"); tlapack::swap(x, y); }
HEAD2 void rot_(Ctx& c) { auto x = V1("x"); auto y = V2("y"); rot(x, y, c.scal<real_type<Tal>>("c"), c.scal<Tal>("s")); }
HEAD2 void scal_(Ctx& c) { auto x = V1("x"); scal(c.scal<Tal>("alpha"), x); }
HEAD2 void lacpy_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); lacpy(c.uplo("uplo"), A, B); }
HEAD2 void transpose_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); TransposeOpts o; o.nx = c.i("nx", 16); if (c.i("conj")) conjtranspose(A, B, o); else transpose(A, B, o); }
HEAD2 void laset_(Ctx& c) { auto A = M1("A"); laset(c.uplo("uplo"), c.scal<Tal>("alpha"), c.scal<Tbe>("beta"), A); }
HEAD2 void lascl_(Ctx& c) { auto A = M1("A"); lascl(c.uplo("uplo"), c.scal<Tal>("b"), c.scal<Tbe>("a"), A); }
HEAD void rot_sequence_(Ctx& c) { auto cc = c.V<TA,dir<a>::v>("c"); auto s = c.V<TB,dir<b>::v>("s"); auto A = M3("A"); c.setint(rot_sequence(c.side("side"), c.direc("direc"), cc, s, A)); }
HEAD void rot_sequence3_(Ctx& c) { auto cc = M1("C"); auto s = M2("S"); auto A = M3("A"); rot_sequence3(c.side("side"), c.direc("direc"), cc, s, A); }
HEAD void gemmtr_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); auto C = M3("C"); gemmtr(c.uplo("uplo"), c.op("ta"), c.op("tb"), AL, A, B, BE, C); }
HEAD void hemm2_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); auto C = M3("C"); hemm2(c.side("side"), c.uplo("uplo"), c.op("tb"), AL, A, B, BE, C); }
HEAD void mult_hehe_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); auto C = M3("C"); mult_hehe(c.uplo("uplo"), AL, A, B, BE, C); c.setint(0); }
HEAD void trmm_out_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); auto C = M3("C"); trmm_out(c.side("side"), c.uplo("uplo"), Op::NoTrans, c.diag("diag"), c.op("tb"), AL, A, B, BE, C); }
HEAD2 void larf_(Ctx& c) { auto x = c.V<TA,dir<a>::v>("x"); auto C0 = c.V<TB,dir<a>::v>("C0"); auto C1 = M2("C1"); larf(c.side("side"), c.storev("storev"), x, c.scal<Tal>("tau"), C0, C1); }
HEAD2 void larfv_(Ctx& c) { auto x = c.V<TA,dir<a>::v>("v"); auto C1 = M2("C"); larf(c.side("side"), c.direc("direc"), c.storev("storev"), x, c.scal<Tal>("tau"), C1); }
HEAD2 void larft_(Ctx& c) { auto V = M1("V"); auto T = M2("T"); auto tau = c.V<Tal,dir<'F'>::v>("tau"); c.setint(larft(c.direc("direc"), c.storev("storev"), V, tau, T)); }
HEAD2 void larfb_(Ctx& c) { auto V = M1("V"); auto T = c.M<Tal,lay<a>::v>("T"); auto C = M2("C"); c.setint(larfb(c.side("side"), c.op("trans"), c.direc("direc"), c.storev("storev"), V, T, C)); }
#define UNMX(f, ...) HEAD2 void f##_(Ctx& c) { auto V = M1("V"); auto C = M2("C"); auto tau = c.V<Tal,dir<'F'>::v>("tau"); c.setint(f(c.side("side"), c.op("trans"), V, tau, C)); }
UNMX(unm2r) UNMX(unm2l) UNMX(unml2) UNMX(unmr2)
#define UNMZ(f, O) HEAD2 void f##_(Ctx& c) { auto V = M1("V"); auto C = M2("C"); auto tau = c.V<Tal,dir<'F'>::v>("tau"); O o; o.nb = c.i("nb"); c.setint(f(c.side("side"), c.op("trans"), V, tau, C, o)); }
UNMZ(unmqr, UnmqrOpts) UNMZ(unmlq, UnmlqOpts) UNMZ(unmql, UnmqlOpts) UNMZ(unmrq, UnmrqOpts)
#define UNMY(f, O) HEAD2 void f##_(Ctx& c) { auto V = M1("V"); auto C = M2("C"); auto tau = c.V<Tal,dir<'F'>::v>("tau"); O o; o.nb = c.i("nb"); c.setint(f(c.side("side"), c.op("trans"), c.direc("direc"), c.storev("storev"), V, tau, C, o)); }
UNMY(unmq, UnmqOpts) 
HEAD2 void unmq_level2_(Ctx& c) { auto V = M1("V"); auto C = M2("C"); auto tau = c.V<Tal,dir<'F'>::v>("tau"); c.setint(unmq_level2(c.side("side"), c.op("trans"), c.direc("direc"), c.storev("storev"), V, tau, C)); }
HEAD2 void trsm_tri_(Ctx& c) { auto A = M1("A"); auto B = M2("B"); trsm_tri(c.side("side"), c.uplo("uplo"), c.op("trans"), c.diag("diag"), AL, A, B); }
#define X3(op, k, ta, tb, tc, tal, tbe, A_, B_, C_) \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #k " " #A_ #B_ #C_, &op<ta, tb, tc, tal, tbe, (#A_)[0], (#B_)[0], (#C_)[0]>);
#define X2(op, k, ta, tb, tal, tbe, A_, B_) \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #k " " #A_ #B_, &op<ta, tb, tal, tbe, (#A_)[0], (#B_)[0]>);
// ---- generated by gen/mixed.py
#if PART == 1
X3(gemm_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(gemm_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(gemm_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(gemm_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(gemm_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(gemm_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(gemm_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(gemm_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(gemm_, sdddd, S, D, D, D, D, C, C, C)
X3(gemm_, sdddd, S, D, D, D, D, R, C, R)
X3(gemm_, dsddd, D, S, D, D, D, C, C, C)
X3(gemm_, dsddd, D, S, D, D, D, R, C, R)
X3(gemm_, sddss, S, D, D, S, S, C, C, C)
X3(gemm_, sddss, S, D, D, S, S, R, C, R)
X3(gemm_, ssdss, S, S, D, S, S, C, C, C)
X3(gemm_, ssdss, S, S, D, S, S, R, C, R)
X3(gemm_, ssddd, S, S, D, D, D, C, C, C)
X3(gemm_, ssddd, S, S, D, D, D, R, C, R)
X3(gemm_, dddss, D, D, D, S, S, C, C, C)
X3(gemm_, dddss, D, D, D, S, S, R, C, R)
X3(gemm_, ddsdd, D, D, S, D, D, C, C, C)
X3(gemm_, ddsdd, D, D, S, D, D, R, C, R)
X3(hemm_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(hemm_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(hemm_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(hemm_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(hemm_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(hemm_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(hemm_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(hemm_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(hemm_, sdddd, S, D, D, D, D, C, C, C)
X3(hemm_, sdddd, S, D, D, D, D, R, C, R)
X3(hemm_, dsddd, D, S, D, D, D, C, C, C)
X3(hemm_, dsddd, D, S, D, D, D, R, C, R)
X3(hemm_, sddss, S, D, D, S, S, C, C, C)
X3(hemm_, sddss, S, D, D, S, S, R, C, R)
X3(hemm_, ssdss, S, S, D, S, S, C, C, C)
X3(hemm_, ssdss, S, S, D, S, S, R, C, R)
X3(hemm_, ssddd, S, S, D, D, D, C, C, C)
X3(hemm_, ssddd, S, S, D, D, D, R, C, R)
X3(hemm_, dddss, D, D, D, S, S, C, C, C)
X3(hemm_, dddss, D, D, D, S, S, R, C, R)
X3(hemm_, ddsdd, D, D, S, D, D, C, C, C)
X3(hemm_, ddsdd, D, D, S, D, D, R, C, R)
X3(symm_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(symm_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(symm_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(symm_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(symm_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(symm_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(symm_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(symm_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(symm_, sdddd, S, D, D, D, D, C, C, C)
X3(symm_, sdddd, S, D, D, D, D, R, C, R)
X3(symm_, dsddd, D, S, D, D, D, C, C, C)
X3(symm_, dsddd, D, S, D, D, D, R, C, R)
X3(symm_, sddss, S, D, D, S, S, C, C, C)
X3(symm_, sddss, S, D, D, S, S, R, C, R)
X3(symm_, ssdss, S, S, D, S, S, C, C, C)
X3(symm_, ssdss, S, S, D, S, S, R, C, R)
X3(symm_, ssddd, S, S, D, D, D, C, C, C)
X3(symm_, ssddd, S, S, D, D, D, R, C, R)
X3(symm_, dddss, D, D, D, S, S, C, C, C)
X3(symm_, dddss, D, D, D, S, S, R, C, R)
X3(symm_, ddsdd, D, D, S, D, D, C, C, C)
X3(symm_, ddsdd, D, D, S, D, D, R, C, R)
X2(herk_, dzzz, D, Z, Z, Z, C, C)
X2(herk_, dzzz, D, Z, Z, Z, R, C)
X2(herk_, dzdd, D, Z, D, D, C, C)
X2(herk_, dzdd, D, Z, D, D, R, C)
X2(herk_, zzdd, Z, Z, D, D, C, C)
X2(herk_, zzdd, Z, Z, D, D, R, C)
X2(herk_, sddd, S, D, D, D, C, C)
X2(herk_, sddd, S, D, D, D, R, C)
X2(herk_, sdss, S, D, S, S, C, C)
X2(herk_, sdss, S, D, S, S, R, C)
X2(herk_, dsdd, D, S, D, D, C, C)
X2(herk_, dsdd, D, S, D, D, R, C)
X2(syrk_, dzzz, D, Z, Z, Z, C, C)
X2(syrk_, dzzz, D, Z, Z, Z, R, C)
X2(syrk_, dzdd, D, Z, D, D, C, C)
X2(syrk_, dzdd, D, Z, D, D, R, C)
X2(syrk_, zzdd, Z, Z, D, D, C, C)
X2(syrk_, zzdd, Z, Z, D, D, R, C)
X2(syrk_, sddd, S, D, D, D, C, C)
X2(syrk_, sddd, S, D, D, D, R, C)
X2(syrk_, sdss, S, D, S, S, C, C)
X2(syrk_, sdss, S, D, S, S, R, C)
X2(syrk_, dsdd, D, S, D, D, C, C)
X2(syrk_, dsdd, D, S, D, D, R, C)
X3(her2k_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(her2k_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(her2k_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(her2k_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(her2k_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(her2k_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(her2k_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(her2k_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(her2k_, sdddd, S, D, D, D, D, C, C, C)
X3(her2k_, sdddd, S, D, D, D, D, R, C, R)
X3(her2k_, dsddd, D, S, D, D, D, C, C, C)
X3(her2k_, dsddd, D, S, D, D, D, R, C, R)
X3(her2k_, sddss, S, D, D, S, S, C, C, C)
X3(her2k_, sddss, S, D, D, S, S, R, C, R)
X3(her2k_, ssdss, S, S, D, S, S, C, C, C)
X3(her2k_, ssdss, S, S, D, S, S, R, C, R)
X3(her2k_, ssddd, S, S, D, D, D, C, C, C)
X3(her2k_, ssddd, S, S, D, D, D, R, C, R)
X3(her2k_, dddss, D, D, D, S, S, C, C, C)
X3(her2k_, dddss, D, D, D, S, S, R, C, R)
X3(her2k_, ddsdd, D, D, S, D, D, C, C, C)
X3(her2k_, ddsdd, D, D, S, D, D, R, C, R)
X3(syr2k_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(syr2k_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(syr2k_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(syr2k_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(syr2k_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(syr2k_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(syr2k_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(syr2k_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(syr2k_, sdddd, S, D, D, D, D, C, C, C)
X3(syr2k_, sdddd, S, D, D, D, D, R, C, R)
X3(syr2k_, dsddd, D, S, D, D, D, C, C, C)
X3(syr2k_, dsddd, D, S, D, D, D, R, C, R)
X3(syr2k_, sddss, S, D, D, S, S, C, C, C)
X3(syr2k_, sddss, S, D, D, S, S, R, C, R)
X3(syr2k_, ssdss, S, S, D, S, S, C, C, C)
X3(syr2k_, ssdss, S, S, D, S, S, R, C, R)
X3(syr2k_, ssddd, S, S, D, D, D, C, C, C)
X3(syr2k_, ssddd, S, S, D, D, D, R, C, R)
X3(syr2k_, dddss, D, D, D, S, S, C, C, C)
X3(syr2k_, dddss, D, D, D, S, S, R, C, R)
X3(syr2k_, ddsdd, D, D, S, D, D, C, C, C)
X3(syr2k_, ddsdd, D, D, S, D, D, R, C, R)
X2(trmm_, dzzz, D, Z, Z, Z, C, C)
X2(trmm_, dzzz, D, Z, Z, Z, R, C)
X2(trmm_, dzdd, D, Z, D, D, C, C)
X2(trmm_, dzdd, D, Z, D, D, R, C)
X2(trmm_, zzdd, Z, Z, D, D, C, C)
X2(trmm_, zzdd, Z, Z, D, D, R, C)
X2(trmm_, sddd, S, D, D, D, C, C)
X2(trmm_, sddd, S, D, D, D, R, C)
X2(trmm_, sdss, S, D, S, S, C, C)
X2(trmm_, sdss, S, D, S, S, R, C)
X2(trmm_, dsdd, D, S, D, D, C, C)
X2(trmm_, dsdd, D, S, D, D, R, C)
X2(trsm_, dzzz, D, Z, Z, Z, C, C)
X2(trsm_, dzzz, D, Z, Z, Z, R, C)
X2(trsm_, dzdd, D, Z, D, D, C, C)
X2(trsm_, dzdd, D, Z, D, D, R, C)
X2(trsm_, zzdd, Z, Z, D, D, C, C)
X2(trsm_, zzdd, Z, Z, D, D, R, C)
X2(trsm_, sddd, S, D, D, D, C, C)
X2(trsm_, sddd, S, D, D, D, R, C)
X2(trsm_, sdss, S, D, S, S, C, C)
X2(trsm_, sdss, S, D, S, S, R, C)
X2(trsm_, dsdd, D, S, D, D, C, C)
X2(trsm_, dsdd, D, S, D, D, R, C)
X3(gemv_, dzzzz, D, Z, Z, Z, Z, C, F, F)
X3(gemv_, dzzzz, D, Z, Z, Z, Z, R, B, F)
X3(gemv_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(gemv_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(gemv_, ddzzd, D, D, Z, Z, D, C, F, F)
X3(gemv_, ddzzd, D, D, Z, Z, D, R, B, F)
X3(gemv_, zzzdd, Z, Z, Z, D, D, C, F, F)
X3(gemv_, zzzdd, Z, Z, Z, D, D, R, B, F)
X3(gemv_, sdddd, S, D, D, D, D, C, F, F)
X3(gemv_, sdddd, S, D, D, D, D, R, B, F)
X3(gemv_, dsddd, D, S, D, D, D, C, F, F)
X3(gemv_, dsddd, D, S, D, D, D, R, B, F)
X3(gemv_, sddss, S, D, D, S, S, C, F, F)
X3(gemv_, sddss, S, D, D, S, S, R, B, F)
X3(gemv_, ssdss, S, S, D, S, S, C, F, F)
X3(gemv_, ssdss, S, S, D, S, S, R, B, F)
X3(gemv_, ssddd, S, S, D, D, D, C, F, F)
X3(gemv_, ssddd, S, S, D, D, D, R, B, F)
X3(gemv_, dddss, D, D, D, S, S, C, F, F)
X3(gemv_, dddss, D, D, D, S, S, R, B, F)
X3(gemv_, ddsdd, D, D, S, D, D, C, F, F)
X3(gemv_, ddsdd, D, D, S, D, D, R, B, F)
X3(hemv_, dzzzz, D, Z, Z, Z, Z, C, F, F)
X3(hemv_, dzzzz, D, Z, Z, Z, Z, R, B, F)
X3(hemv_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(hemv_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(hemv_, ddzzd, D, D, Z, Z, D, C, F, F)
X3(hemv_, ddzzd, D, D, Z, Z, D, R, B, F)
X3(hemv_, zzzdd, Z, Z, Z, D, D, C, F, F)
X3(hemv_, zzzdd, Z, Z, Z, D, D, R, B, F)
X3(hemv_, sdddd, S, D, D, D, D, C, F, F)
X3(hemv_, sdddd, S, D, D, D, D, R, B, F)
X3(hemv_, dsddd, D, S, D, D, D, C, F, F)
X3(hemv_, dsddd, D, S, D, D, D, R, B, F)
X3(hemv_, sddss, S, D, D, S, S, C, F, F)
X3(hemv_, sddss, S, D, D, S, S, R, B, F)
X3(hemv_, ssdss, S, S, D, S, S, C, F, F)
X3(hemv_, ssdss, S, S, D, S, S, R, B, F)
X3(hemv_, ssddd, S, S, D, D, D, C, F, F)
X3(hemv_, ssddd, S, S, D, D, D, R, B, F)
X3(hemv_, dddss, D, D, D, S, S, C, F, F)
X3(hemv_, dddss, D, D, D, S, S, R, B, F)
X3(hemv_, ddsdd, D, D, S, D, D, C, F, F)
X3(hemv_, ddsdd, D, D, S, D, D, R, B, F)
X3(symv_, dzzzz, D, Z, Z, Z, Z, C, F, F)
X3(symv_, dzzzz, D, Z, Z, Z, Z, R, B, F)
X3(symv_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(symv_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(symv_, ddzzd, D, D, Z, Z, D, C, F, F)
X3(symv_, ddzzd, D, D, Z, Z, D, R, B, F)
X3(symv_, zzzdd, Z, Z, Z, D, D, C, F, F)
X3(symv_, zzzdd, Z, Z, Z, D, D, R, B, F)
X3(symv_, sdddd, S, D, D, D, D, C, F, F)
X3(symv_, sdddd, S, D, D, D, D, R, B, F)
X3(symv_, dsddd, D, S, D, D, D, C, F, F)
X3(symv_, dsddd, D, S, D, D, D, R, B, F)
X3(symv_, sddss, S, D, D, S, S, C, F, F)
X3(symv_, sddss, S, D, D, S, S, R, B, F)
X3(symv_, ssdss, S, S, D, S, S, C, F, F)
X3(symv_, ssdss, S, S, D, S, S, R, B, F)
X3(symv_, ssddd, S, S, D, D, D, C, F, F)
X3(symv_, ssddd, S, S, D, D, D, R, B, F)
X3(symv_, dddss, D, D, D, S, S, C, F, F)
X3(symv_, dddss, D, D, D, S, S, R, B, F)
X3(symv_, ddsdd, D, D, S, D, D, C, F, F)
X3(symv_, ddsdd, D, D, S, D, D, R, B, F)
X3(ger_, zdddd, Z, D, D, D, D, C, F, F)
X3(ger_, zdddd, Z, D, D, D, D, R, B, F)
X3(ger_, zzddd, Z, Z, D, D, D, C, F, F)
X3(ger_, zzddd, Z, Z, D, D, D, R, B, F)
X3(ger_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(ger_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(ger_, zzdzz, Z, Z, D, Z, Z, C, F, F)
X3(ger_, zzdzz, Z, Z, D, Z, Z, R, B, F)
X3(ger_, dsddd, D, S, D, D, D, C, F, F)
X3(ger_, dsddd, D, S, D, D, D, R, B, F)
X3(ger_, ddsdd, D, D, S, D, D, C, F, F)
X3(ger_, ddsdd, D, D, S, D, D, R, B, F)
X3(ger_, dssdd, D, S, S, D, D, C, F, F)
X3(ger_, dssdd, D, S, S, D, D, R, B, F)
X3(ger_, dssss, D, S, S, S, S, C, F, F)
X3(ger_, dssss, D, S, S, S, S, R, B, F)
X3(ger_, dddss, D, D, D, S, S, C, F, F)
X3(ger_, dddss, D, D, D, S, S, R, B, F)
X3(ger_, sdddd, S, D, D, D, D, C, F, F)
X3(ger_, sdddd, S, D, D, D, D, R, B, F)
X3(geru_, zdddd, Z, D, D, D, D, C, F, F)
X3(geru_, zdddd, Z, D, D, D, D, R, B, F)
X3(geru_, zzddd, Z, Z, D, D, D, C, F, F)
X3(geru_, zzddd, Z, Z, D, D, D, R, B, F)
X3(geru_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(geru_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(geru_, zzdzz, Z, Z, D, Z, Z, C, F, F)
X3(geru_, zzdzz, Z, Z, D, Z, Z, R, B, F)
X3(geru_, dsddd, D, S, D, D, D, C, F, F)
X3(geru_, dsddd, D, S, D, D, D, R, B, F)
X3(geru_, ddsdd, D, D, S, D, D, C, F, F)
X3(geru_, ddsdd, D, D, S, D, D, R, B, F)
X3(geru_, dssdd, D, S, S, D, D, C, F, F)
X3(geru_, dssdd, D, S, S, D, D, R, B, F)
X3(geru_, dssss, D, S, S, S, S, C, F, F)
X3(geru_, dssss, D, S, S, S, S, R, B, F)
X3(geru_, dddss, D, D, D, S, S, C, F, F)
X3(geru_, dddss, D, D, D, S, S, R, B, F)
X3(geru_, sdddd, S, D, D, D, D, C, F, F)
X3(geru_, sdddd, S, D, D, D, D, R, B, F)
X2(her_, zdzz, Z, D, Z, Z, C, F)
X2(her_, zdzz, Z, D, Z, Z, R, B)
X2(her_, zddd, Z, D, D, D, C, F)
X2(her_, zddd, Z, D, D, D, R, B)
X2(her_, zzdd, Z, Z, D, D, C, F)
X2(her_, zzdd, Z, Z, D, D, R, B)
X2(her_, dsdd, D, S, D, D, C, F)
X2(her_, dsdd, D, S, D, D, R, B)
X2(her_, dsss, D, S, S, S, C, F)
X2(her_, dsss, D, S, S, S, R, B)
X2(her_, sddd, S, D, D, D, C, F)
X2(her_, sddd, S, D, D, D, R, B)
X2(syr_, zdzz, Z, D, Z, Z, C, F)
X2(syr_, zdzz, Z, D, Z, Z, R, B)
X2(syr_, zddd, Z, D, D, D, C, F)
X2(syr_, zddd, Z, D, D, D, R, B)
X2(syr_, zzdd, Z, Z, D, D, C, F)
X2(syr_, zzdd, Z, Z, D, D, R, B)
X2(syr_, dsdd, D, S, D, D, C, F)
X2(syr_, dsdd, D, S, D, D, R, B)
X2(syr_, dsss, D, S, S, S, C, F)
X2(syr_, dsss, D, S, S, S, R, B)
X2(syr_, sddd, S, D, D, D, C, F)
X2(syr_, sddd, S, D, D, D, R, B)
X3(her2_, zdddd, Z, D, D, D, D, C, F, F)
X3(her2_, zdddd, Z, D, D, D, D, R, B, F)
X3(her2_, zzddd, Z, Z, D, D, D, C, F, F)
X3(her2_, zzddd, Z, Z, D, D, D, R, B, F)
X3(her2_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(her2_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(her2_, zzdzz, Z, Z, D, Z, Z, C, F, F)
X3(her2_, zzdzz, Z, Z, D, Z, Z, R, B, F)
X3(her2_, dsddd, D, S, D, D, D, C, F, F)
X3(her2_, dsddd, D, S, D, D, D, R, B, F)
X3(her2_, ddsdd, D, D, S, D, D, C, F, F)
X3(her2_, ddsdd, D, D, S, D, D, R, B, F)
X3(her2_, dssdd, D, S, S, D, D, C, F, F)
X3(her2_, dssdd, D, S, S, D, D, R, B, F)
X3(her2_, dssss, D, S, S, S, S, C, F, F)
X3(her2_, dssss, D, S, S, S, S, R, B, F)
X3(her2_, dddss, D, D, D, S, S, C, F, F)
X3(her2_, dddss, D, D, D, S, S, R, B, F)
X3(her2_, sdddd, S, D, D, D, D, C, F, F)
X3(her2_, sdddd, S, D, D, D, D, R, B, F)
X3(syr2_, zdddd, Z, D, D, D, D, C, F, F)
X3(syr2_, zdddd, Z, D, D, D, D, R, B, F)
X3(syr2_, zzddd, Z, Z, D, D, D, C, F, F)
X3(syr2_, zzddd, Z, Z, D, D, D, R, B, F)
X3(syr2_, zdzzz, Z, D, Z, Z, Z, C, F, F)
X3(syr2_, zdzzz, Z, D, Z, Z, Z, R, B, F)
X3(syr2_, zzdzz, Z, Z, D, Z, Z, C, F, F)
X3(syr2_, zzdzz, Z, Z, D, Z, Z, R, B, F)
X3(syr2_, dsddd, D, S, D, D, D, C, F, F)
X3(syr2_, dsddd, D, S, D, D, D, R, B, F)
X3(syr2_, ddsdd, D, D, S, D, D, C, F, F)
X3(syr2_, ddsdd, D, D, S, D, D, R, B, F)
X3(syr2_, dssdd, D, S, S, D, D, C, F, F)
X3(syr2_, dssdd, D, S, S, D, D, R, B, F)
X3(syr2_, dssss, D, S, S, S, S, C, F, F)
X3(syr2_, dssss, D, S, S, S, S, R, B, F)
X3(syr2_, dddss, D, D, D, S, S, C, F, F)
X3(syr2_, dddss, D, D, D, S, S, R, B, F)
X3(syr2_, sdddd, S, D, D, D, D, C, F, F)
X3(syr2_, sdddd, S, D, D, D, D, R, B, F)
X2(trmv_, dzzz, D, Z, Z, Z, C, F)
X2(trmv_, dzzz, D, Z, Z, Z, R, B)
X2(trmv_, dzdd, D, Z, D, D, C, F)
X2(trmv_, dzdd, D, Z, D, D, R, B)
X2(trmv_, zzdd, Z, Z, D, D, C, F)
X2(trmv_, zzdd, Z, Z, D, D, R, B)
X2(trmv_, sddd, S, D, D, D, C, F)
X2(trmv_, sddd, S, D, D, D, R, B)
X2(trmv_, sdss, S, D, S, S, C, F)
X2(trmv_, sdss, S, D, S, S, R, B)
X2(trmv_, dsdd, D, S, D, D, C, F)
X2(trmv_, dsdd, D, S, D, D, R, B)
X2(trsv_, dzzz, D, Z, Z, Z, C, F)
X2(trsv_, dzzz, D, Z, Z, Z, R, B)
X2(trsv_, dzdd, D, Z, D, D, C, F)
X2(trsv_, dzdd, D, Z, D, D, R, B)
X2(trsv_, zzdd, Z, Z, D, D, C, F)
X2(trsv_, zzdd, Z, Z, D, D, R, B)
X2(trsv_, sddd, S, D, D, D, C, F)
X2(trsv_, sddd, S, D, D, D, R, B)
X2(trsv_, sdss, S, D, S, S, C, F)
X2(trsv_, sdss, S, D, S, S, R, B)
X2(trsv_, dsdd, D, S, D, D, C, F)
X2(trsv_, dsdd, D, S, D, D, R, B)
#else
X2(axpy_, dzzz, D, Z, Z, Z, F, F)
X2(axpy_, dzzz, D, Z, Z, Z, B, F)
X2(axpy_, dzdd, D, Z, D, D, F, F)
X2(axpy_, dzdd, D, Z, D, D, B, F)
X2(axpy_, sddd, S, D, D, D, F, F)
X2(axpy_, sddd, S, D, D, D, B, F)
X2(axpy_, dsdd, D, S, D, D, F, F)
X2(axpy_, dsdd, D, S, D, D, B, F)
X2(axpy_, ddss, D, D, S, S, F, F)
X2(axpy_, ddss, D, D, S, S, B, F)
X2(dot_, dzzz, D, Z, Z, Z, F, F)
X2(dot_, dzzz, D, Z, Z, Z, B, F)
X2(dot_, zdzz, Z, D, Z, Z, F, F)
X2(dot_, zdzz, Z, D, Z, Z, B, F)
X2(dot_, sddd, S, D, D, D, F, F)
X2(dot_, sddd, S, D, D, D, B, F)
X2(dot_, dsdd, D, S, D, D, F, F)
X2(dot_, dsdd, D, S, D, D, B, F)
X2(dotu_, dzzz, D, Z, Z, Z, F, F)
X2(dotu_, dzzz, D, Z, Z, Z, B, F)
X2(dotu_, zdzz, Z, D, Z, Z, F, F)
X2(dotu_, zdzz, Z, D, Z, Z, B, F)
X2(dotu_, sddd, S, D, D, D, F, F)
X2(dotu_, sddd, S, D, D, D, B, F)
X2(dotu_, dsdd, D, S, D, D, F, F)
X2(dotu_, dsdd, D, S, D, D, B, F)
X2(copy_, dzzz, D, Z, Z, Z, F, F)
X2(copy_, dzzz, D, Z, Z, Z, B, F)
X2(copy_, sddd, S, D, D, D, F, F)
X2(copy_, sddd, S, D, D, D, B, F)
X2(copy_, dsdd, D, S, D, D, F, F)
X2(copy_, dsdd, D, S, D, D, B, F)
X2(copy_, sczz, S, vf::C, Z, Z, F, F)
X2(copy_, sczz, S, vf::C, Z, Z, B, F)
X2(swap_, sddd, S, D, D, D, F, F)
X2(swap_, sddd, S, D, D, D, B, F)
X2(swap_, dsdd, D, S, D, D, F, F)
X2(swap_, dsdd, D, S, D, D, B, F)
X2(rot_, zzdd, Z, Z, D, D, F, F)
X2(rot_, zzdd, Z, Z, D, D, B, F)
X2(rot_, ddss, D, D, S, S, F, F)
X2(rot_, ddss, D, D, S, S, B, F)
X2(rot_, ccss, vf::C, vf::C, S, S, F, F)
X2(rot_, ccss, vf::C, vf::C, S, S, B, F)
X2(rot_, sddd, S, D, D, D, F, F)
X2(rot_, sddd, S, D, D, D, B, F)
X2(scal_, zzdd, Z, Z, D, D, F, F)
X2(scal_, zzdd, Z, Z, D, D, B, F)
X2(scal_, ddss, D, D, S, S, F, F)
X2(scal_, ddss, D, D, S, S, B, F)
X2(scal_, ssdd, S, S, D, D, F, F)
X2(scal_, ssdd, S, S, D, D, B, F)
X2(lacpy_, dzzz, D, Z, Z, Z, C, C)
X2(lacpy_, dzzz, D, Z, Z, Z, R, C)
X2(lacpy_, sddd, S, D, D, D, C, C)
X2(lacpy_, sddd, S, D, D, D, R, C)
X2(lacpy_, dsdd, D, S, D, D, C, C)
X2(lacpy_, dsdd, D, S, D, D, R, C)
X2(transpose_, dzzz, D, Z, Z, Z, C, C)
X2(transpose_, dzzz, D, Z, Z, Z, R, C)
X2(transpose_, sddd, S, D, D, D, C, C)
X2(transpose_, sddd, S, D, D, D, R, C)
X2(transpose_, dsdd, D, S, D, D, C, C)
X2(transpose_, dsdd, D, S, D, D, R, C)
X2(laset_, zzdd, Z, Z, D, D, C, C)
X2(laset_, zzdd, Z, Z, D, D, R, C)
X2(laset_, ddss, D, D, S, S, C, C)
X2(laset_, ddss, D, D, S, S, R, C)
X2(laset_, ddsd, D, D, S, D, C, C)
X2(laset_, ddsd, D, D, S, D, R, C)
X2(laset_, ssdd, S, S, D, D, C, C)
X2(laset_, ssdd, S, S, D, D, R, C)
X2(lascl_, zzdd, Z, Z, D, D, C, C)
X2(lascl_, zzdd, Z, Z, D, D, R, C)
X2(lascl_, ddss, D, D, S, S, C, C)
X2(lascl_, ddss, D, D, S, S, R, C)
X2(lascl_, ssdd, S, S, D, D, C, C)
X2(lascl_, ssdd, S, S, D, D, R, C)
X2(lascl_, ddsd, D, D, S, D, C, C)
X2(lascl_, ddsd, D, D, S, D, R, C)
X3(rot_sequence_, ddzzz, D, D, Z, Z, Z, F, F, C)
X3(rot_sequence_, ddzzz, D, D, Z, Z, Z, B, B, R)
X3(rot_sequence_, ssddd, S, S, D, D, D, F, F, C)
X3(rot_sequence_, ssddd, S, S, D, D, D, B, B, R)
X3(rot_sequence_, ddsdd, D, D, S, D, D, F, F, C)
X3(rot_sequence_, ddsdd, D, D, S, D, D, B, B, R)
X3(rot_sequence3_, ddzzz, D, D, Z, Z, Z, C, C, C)
X3(rot_sequence3_, ddzzz, D, D, Z, Z, Z, R, C, R)
X3(rot_sequence3_, ssddd, S, S, D, D, D, C, C, C)
X3(rot_sequence3_, ssddd, S, S, D, D, D, R, C, R)
X3(rot_sequence3_, ddsdd, D, D, S, D, D, C, C, C)
X3(rot_sequence3_, ddsdd, D, D, S, D, D, R, C, R)
X2(larf_, dzdd, D, Z, D, D, F, C)
X2(larf_, dzdd, D, Z, D, D, B, R)
X2(larf_, zzdd, Z, Z, D, D, F, C)
X2(larf_, zzdd, Z, Z, D, D, B, R)
X2(larf_, sddd, S, D, D, D, F, C)
X2(larf_, sddd, S, D, D, D, B, R)
X2(larf_, dsdd, D, S, D, D, F, C)
X2(larf_, dsdd, D, S, D, D, B, R)
X2(larf_, sdsd, S, D, S, D, F, C)
X2(larf_, sdsd, S, D, S, D, B, R)
X2(larfv_, dzdd, D, Z, D, D, F, C)
X2(larfv_, dzdd, D, Z, D, D, B, R)
X2(larfv_, zzdd, Z, Z, D, D, F, C)
X2(larfv_, zzdd, Z, Z, D, D, B, R)
X2(larfv_, sddd, S, D, D, D, F, C)
X2(larfv_, sddd, S, D, D, D, B, R)
X2(larfv_, dsdd, D, S, D, D, F, C)
X2(larfv_, dsdd, D, S, D, D, B, R)
X2(larfv_, sdsd, S, D, S, D, F, C)
X2(larfv_, sdsd, S, D, S, D, B, R)
X2(larft_, dzdd, D, Z, D, D, C, C)
X2(larft_, dzdd, D, Z, D, D, R, C)
X2(larft_, sddd, S, D, D, D, C, C)
X2(larft_, sddd, S, D, D, D, R, C)
X2(larfb_, dzdd, D, Z, D, D, C, C)
X2(larfb_, dzdd, D, Z, D, D, R, C)
X2(larfb_, sddd, S, D, D, D, C, C)
X2(larfb_, sddd, S, D, D, D, R, C)
X2(larfb_, dsdd, D, S, D, D, C, C)
X2(larfb_, dsdd, D, S, D, D, R, C)
X2(larfb_, sdsd, S, D, S, D, C, C)
X2(larfb_, sdsd, S, D, S, D, R, C)
X2(unm2r_, sddd, S, D, D, D, C, C)
X2(unm2r_, sddd, S, D, D, D, R, C)
X2(unm2r_, dsdd, D, S, D, D, C, C)
X2(unm2r_, dsdd, D, S, D, D, R, C)
X2(unm2l_, dsdd, D, S, D, D, C, C)
X2(unm2l_, dsdd, D, S, D, D, R, C)
X2(unml2_, sddd, S, D, D, D, C, C)
X2(unml2_, sddd, S, D, D, D, R, C)
X2(unml2_, dsdd, D, S, D, D, C, C)
X2(unml2_, dsdd, D, S, D, D, R, C)
X2(unmr2_, dsdd, D, S, D, D, C, C)
X2(unmr2_, dsdd, D, S, D, D, R, C)
X2(unmqr_, sddd, S, D, D, D, C, C)
X2(unmqr_, sddd, S, D, D, D, R, C)
X2(unmqr_, dsdd, D, S, D, D, C, C)
X2(unmqr_, dsdd, D, S, D, D, R, C)
X2(unmql_, sddd, S, D, D, D, C, C)
X2(unmql_, sddd, S, D, D, D, R, C)
X2(unmql_, dsdd, D, S, D, D, C, C)
X2(unmql_, dsdd, D, S, D, D, R, C)
X2(unmlq_, sddd, S, D, D, D, C, C)
X2(unmlq_, sddd, S, D, D, D, R, C)
X2(unmlq_, dsdd, D, S, D, D, C, C)
X2(unmlq_, dsdd, D, S, D, D, R, C)
X2(unmrq_, sddd, S, D, D, D, C, C)
X2(unmrq_, sddd, S, D, D, D, R, C)
X2(unmrq_, dsdd, D, S, D, D, C, C)
X2(unmrq_, dsdd, D, S, D, D, R, C)
X2(unmq_, sddd, S, D, D, D, C, C)
X2(unmq_, sddd, S, D, D, D, R, C)
X2(unmq_, dsdd, D, S, D, D, C, C)
X2(unmq_, dsdd, D, S, D, D, R, C)
X2(unmq_level2_, sddd, S, D, D, D, C, C)
X2(unmq_level2_, sddd, S, D, D, D, R, C)
X2(unmq_level2_, dsdd, D, S, D, D, C, C)
X2(unmq_level2_, dsdd, D, S, D, D, R, C)
X3(gemmtr_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(gemmtr_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(gemmtr_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(gemmtr_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(gemmtr_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(gemmtr_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(gemmtr_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(gemmtr_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(gemmtr_, sdddd, S, D, D, D, D, C, C, C)
X3(gemmtr_, sdddd, S, D, D, D, D, R, C, R)
X3(gemmtr_, dsddd, D, S, D, D, D, C, C, C)
X3(gemmtr_, dsddd, D, S, D, D, D, R, C, R)
X3(gemmtr_, sddss, S, D, D, S, S, C, C, C)
X3(gemmtr_, sddss, S, D, D, S, S, R, C, R)
X3(gemmtr_, ssddd, S, S, D, D, D, C, C, C)
X3(gemmtr_, ssddd, S, S, D, D, D, R, C, R)
X3(gemmtr_, dddss, D, D, D, S, S, C, C, C)
X3(gemmtr_, dddss, D, D, D, S, S, R, C, R)
X3(gemmtr_, ddsdd, D, D, S, D, D, C, C, C)
X3(gemmtr_, ddsdd, D, D, S, D, D, R, C, R)
X3(hemm2_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(hemm2_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(hemm2_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(hemm2_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(hemm2_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(hemm2_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(hemm2_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(hemm2_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(hemm2_, sdddd, S, D, D, D, D, C, C, C)
X3(hemm2_, sdddd, S, D, D, D, D, R, C, R)
X3(hemm2_, dsddd, D, S, D, D, D, C, C, C)
X3(hemm2_, dsddd, D, S, D, D, D, R, C, R)
X3(hemm2_, sddss, S, D, D, S, S, C, C, C)
X3(hemm2_, sddss, S, D, D, S, S, R, C, R)
X3(hemm2_, ssddd, S, S, D, D, D, C, C, C)
X3(hemm2_, ssddd, S, S, D, D, D, R, C, R)
X3(hemm2_, dddss, D, D, D, S, S, C, C, C)
X3(hemm2_, dddss, D, D, D, S, S, R, C, R)
X3(hemm2_, ddsdd, D, D, S, D, D, C, C, C)
X3(hemm2_, ddsdd, D, D, S, D, D, R, C, R)
X3(trmm_out_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(trmm_out_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(trmm_out_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(trmm_out_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(trmm_out_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(trmm_out_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(trmm_out_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(trmm_out_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(trmm_out_, sdddd, S, D, D, D, D, C, C, C)
X3(trmm_out_, sdddd, S, D, D, D, D, R, C, R)
X3(trmm_out_, dsddd, D, S, D, D, D, C, C, C)
X3(trmm_out_, dsddd, D, S, D, D, D, R, C, R)
X3(trmm_out_, sddss, S, D, D, S, S, C, C, C)
X3(trmm_out_, sddss, S, D, D, S, S, R, C, R)
X3(trmm_out_, ssddd, S, S, D, D, D, C, C, C)
X3(trmm_out_, ssddd, S, S, D, D, D, R, C, R)
X3(trmm_out_, dddss, D, D, D, S, S, C, C, C)
X3(trmm_out_, dddss, D, D, D, S, S, R, C, R)
X3(trmm_out_, ddsdd, D, D, S, D, D, C, C, C)
X3(trmm_out_, ddsdd, D, D, S, D, D, R, C, R)
X3(mult_hehe_, dzzzz, D, Z, Z, Z, Z, C, C, C)
X3(mult_hehe_, dzzzz, D, Z, Z, Z, Z, R, C, R)
X3(mult_hehe_, zdzzz, Z, D, Z, Z, Z, C, C, C)
X3(mult_hehe_, zdzzz, Z, D, Z, Z, Z, R, C, R)
X3(mult_hehe_, ddzzd, D, D, Z, Z, D, C, C, C)
X3(mult_hehe_, ddzzd, D, D, Z, Z, D, R, C, R)
X3(mult_hehe_, zzzdd, Z, Z, Z, D, D, C, C, C)
X3(mult_hehe_, zzzdd, Z, Z, Z, D, D, R, C, R)
X3(mult_hehe_, sdddd, S, D, D, D, D, C, C, C)
X3(mult_hehe_, sdddd, S, D, D, D, D, R, C, R)
X3(mult_hehe_, dsddd, D, S, D, D, D, C, C, C)
X3(mult_hehe_, dsddd, D, S, D, D, D, R, C, R)
X3(mult_hehe_, sddss, S, D, D, S, S, C, C, C)
X3(mult_hehe_, sddss, S, D, D, S, S, R, C, R)
X3(mult_hehe_, ssddd, S, S, D, D, D, C, C, C)
X3(mult_hehe_, ssddd, S, S, D, D, D, R, C, R)
X3(mult_hehe_, dddss, D, D, D, S, S, C, C, C)
X3(mult_hehe_, dddss, D, D, D, S, S, R, C, R)
X3(mult_hehe_, ddsdd, D, D, S, D, D, C, C, C)
X3(mult_hehe_, ddsdd, D, D, S, D, D, R, C, R)
X2(trsm_tri_, dzzz, D, Z, Z, Z, C, C)
X2(trsm_tri_, dzzz, D, Z, Z, Z, R, C)
X2(trsm_tri_, dzdd, D, Z, D, D, C, C)
X2(trsm_tri_, dzdd, D, Z, D, D, R, C)
X2(trsm_tri_, sddd, S, D, D, D, C, C)
X2(trsm_tri_, sddd, S, D, D, D, R, C)
#endif
