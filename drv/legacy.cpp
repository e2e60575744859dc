// The pointer-based interfaces.  The same operation names and arguments as the
// native drivers, so the specification judges them by the same formulas:
//   API=0  C++ overloads tlapack::legacy::*
//   API=1  C entry points of tlapack.h
//   API=2  CBLAS entry points
#include "num.hpp"
#if API == 0
    #include <tlapack/legacy_api/blas.hpp>
    #include <tlapack/legacy_api/lapack.hpp>
#elif API == 1
    #include "tlapack.h"
#else
    #include "tlapack_cblas.h"
#endif
#ifndef API
    #error
#endif
namespace lg {
using vf::Ctx;
using vf::idx;
using std::string;
template <class T> using real = tlapack::real_type<T>;

// the transposition as passed (T and C are the same for real operands)
inline const char* TK(Ctx& c, const char* k) { return c.has("ltrans") && string(k) == "trans" ? "ltrans" : k; }
#if API == 0
    #define CALL(f, ...) tlapack::legacy::f(__VA_ARGS__)
    #define CALLC(f, ...) CALL(f, __VA_ARGS__)
using tlapack::Layout;
inline auto LAY(char c) { return c == 'C' ? Layout::ColMajor : Layout::RowMajor; }
inline auto TR(Ctx& c, const char* k) { return c.op(TK(c, k)); }
inline auto UP(Ctx& c, const char* k = "uplo") { return c.uplo(k); }
inline auto DG(Ctx& c, const char* k = "diag") { return c.diag(k); }
inline auto SD(Ctx& c, const char* k = "side") { return c.side(k); }
#else
using fc = float _Complex;
using dc = double _Complex;
inline fc cv(std::complex<float> z) { fc r; memcpy(&r, &z, sizeof r); return r; }
inline dc cv(std::complex<double> z) { dc r; memcpy(&r, &z, sizeof r); return r; }
inline fc* cv(std::complex<float>* z) { return reinterpret_cast<fc*>(z); }
inline dc* cv(std::complex<double>* z) { return reinterpret_cast<dc*>(z); }
inline const fc* cv(const std::complex<float>* z) { return reinterpret_cast<const fc*>(z); }
inline const dc* cv(const std::complex<double>* z) { return reinterpret_cast<const dc*>(z); }
template <class X> X cv(X x) { return x; }
inline std::complex<float> uc(fc z) { std::complex<float> r; memcpy(&r, &z, sizeof r); return r; }
inline std::complex<double> uc(dc z) { std::complex<double> r; memcpy(&r, &z, sizeof r); return r; }
template <class X> X uc(X x) { return x; }
template <class F, class... A> auto inv(F f, A... a)
{
    if constexpr (std::is_void_v<decltype(f(cv(a)...))>)
        f(cv(a)...);
    else
        return uc(f(cv(a)...));
}
template <class T, class A, class B, class C, class D> auto sel(A a, B b, C c, D d)
{
    if constexpr (std::is_same_v<T, float>) return a;
    else if constexpr (std::is_same_v<T, double>) return b;
    else if constexpr (std::is_same_v<T, std::complex<float>>) return c;
    else return d;
}
    #if API == 1
        #define NAME(x) ::x
inline auto LAY(char c) { return ::Layout(c == 'C' ? 'C' : 'R'); }
inline auto TR(Ctx& c, const char* k) { return ::Op(c.str(TK(c, k))[0]); }
inline auto UP(Ctx& c, const char* k = "uplo") { return ::Uplo(c.str(k)[0]); }
inline auto DG(Ctx& c, const char* k = "diag") { return ::Diag(c.str(k)[0]); }
inline auto SD(Ctx& c, const char* k = "side") { return ::Side(c.str(k)[0]); }
    #else
        #define NAME(x) ::cblas_##x
inline auto LAY(char c) { return c == 'C' ? CblasColMajor : CblasRowMajor; }
inline auto TR(Ctx& c, const char* k)
{
    char o = c.str(TK(c, k))[0];
    return o == 'N' ? CblasNoTrans : o == 'T' ? CblasTrans : o == 'C' ? CblasConjTrans : CBLAS_TRANSPOSE(0);
}
inline auto UP(Ctx& c, const char* k = "uplo")
{
    char o = c.str(k)[0];
    return o == 'U' ? CblasUpper : o == 'L' ? CblasLower : CBLAS_UPLO(0);
}
inline auto DG(Ctx& c, const char* k = "diag")
{
    char o = c.str(k)[0];
    return o == 'U' ? CblasUnit : o == 'N' ? CblasNonUnit : CBLAS_DIAG(0);
}
inline auto SD(Ctx& c, const char* k = "side")
{
    char o = c.str(k)[0];
    return o == 'L' ? CblasLeft : o == 'R' ? CblasRight : CBLAS_SIDE(0);
}
    #endif
    #define CALL(f, ...) inv(sel<T>(NAME(s##f), NAME(d##f), NAME(c##f), NAME(z##f)), __VA_ARGS__)
    // names with the type letter inside (isamax) or mixed
    #define CALLN(fs, fd, fc_, fz, ...) inv(sel<T>(NAME(fs), NAME(fd), NAME(fc_), NAME(fz)), __VA_ARGS__)
#endif

template <class T> struct Mx {
    T* p; long m, n, ld;
};
template <class T> struct Vx {
    T* p; long n, inc;
};
template <class T> Mx<T> mx(Ctx& c, const char* k)
{
    auto f = Ctx::split(c.str(k), ':');
    return {c.at<T>(f[0], atol(f[1].c_str())), atol(f[2].c_str()), atol(f[3].c_str()), atol(f[4].c_str())};
}
template <class T> Vx<T> vx(Ctx& c, const char* k, char d)
{
    auto f = Ctx::split(c.str(k), ':');
    long inc = atol(f[3].c_str());
    return {c.at<T>(f[0], atol(f[1].c_str())), atol(f[2].c_str()), d == 'F' ? inc : -inc};
}
template <class T> T beta(Ctx& c) { return c.has("beta") ? c.scal<T>("beta") : T(0); }

// ---------------------------------------------------------------- level 1
template <class T, char a, char b> void copy_(Ctx& c)
{
    auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
    CALL(copy, x.n, (const T*)x.p, x.inc, y.p, y.inc);
}
template <class T, char a, char b> void swap_(Ctx& c)
{
    auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
    CALL(swap, x.n, x.p, x.inc, y.p, y.inc);
}
template <class T, char a, char b> void axpy_(Ctx& c)
{
    auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
    CALL(axpy, x.n, c.scal<T>("alpha"), (const T*)x.p, x.inc, y.p, y.inc);
}
template <class T, char a, char b> void dot_(Ctx& c)
{
    auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
    c.setret(T(CALL(dot, x.n, (const T*)x.p, x.inc, (const T*)y.p, y.inc)));
}
template <class T, char a, char b> void dotu_(Ctx& c)
{
    auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
    c.setret(T(CALL(dotu, x.n, (const T*)x.p, x.inc, (const T*)y.p, y.inc)));
}
template <class T, char a, char b> void rot_(Ctx& c)
{
    auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
    real<T> co = c.scal<real<T>>("c");
    T s = c.scal<T>("s");
#if API > 0
    // a real sine goes through the mixed entry points
    if constexpr (tlapack::is_complex<T>)
        if (s.imag() == 0) {
            CALLN(srot, drot, csrot, zdrot, x.n, x.p, x.inc, y.p, y.inc, co, real<T>(s.real()));
            return;
        }
#endif
    CALL(rot, x.n, x.p, x.inc, y.p, y.inc, co, s);
}
template <class T, char a, char b> void rotm_(Ctx& c)
{
    if constexpr (tlapack::is_real<T>) {
        auto x = vx<T>(c, "x", a), y = vx<T>(c, "y", b);
        T h[5] = {T(c.i("flag")), c.scal<T>("h11"), c.scal<T>("h21"), c.scal<T>("h12"), c.scal<T>("h22")};
#if API == 0
        CALL(rotm, x.n, x.p, x.inc, y.p, y.inc, h);
#else
        CALLN(srotm, drotm, srotm, drotm, x.n, x.p, x.inc, y.p, y.inc, (const T*)h);
#endif
    }
}
template <class T, char a> void scal_(Ctx& c)
{
    auto x = vx<T>(c, "x", a);
#if API == 0
    if (c.has("ralpha")) CALL(scal, x.n, c.scal<real<T>>("ralpha"), x.p, x.inc);
    else CALL(scal, x.n, c.scal<T>("alpha"), x.p, x.inc);
#else
    CALL(scal, x.n, c.scal<T>(c.has("ralpha") ? "ralpha" : "alpha"), x.p, x.inc);
#endif
}
template <class T, char a> void asum_(Ctx& c)
{
    auto x = vx<T>(c, "x", a);
    c.setret(real<T>(CALL(asum, x.n, (const T*)x.p, x.inc)));
}
template <class T, char a> void nrm2_(Ctx& c)
{
    auto x = vx<T>(c, "x", a);
    c.setret(real<T>(CALL(nrm2, x.n, (const T*)x.p, x.inc)));
}
template <class T, char a> void iamax_(Ctx& c)
{
    auto x = vx<T>(c, "x", a);
#if API == 0
    c.setint(CALL(iamax, x.n, (const T*)x.p, x.inc));
#else
    c.setint(CALLN(isamax, idamax, icamax, izamax, x.n, (const T*)x.p, x.inc));
#endif
}
#define L2V(o)                                                            \
    VR2(o, d, vf::D, F, F) VR2(o, d, vf::D, F, B) VR2(o, d, vf::D, B, F)  \
    VR2(o, d, vf::D, B, B) VR2(o, z, vf::Z, F, F) VR2(o, z, vf::Z, F, B)  \
    VR2(o, z, vf::Z, B, F) VR2(o, z, vf::Z, B, B) VR2(o, s, vf::S, F, F)  \
    VR2(o, c, vf::C, F, F)
#define L1V(o) VR1(o, d, vf::D, F) VR1(o, z, vf::Z, F) VR1(o, s, vf::S, F) VR1(o, c, vf::C, F)
L2V(copy_) L2V(swap_) L2V(axpy_) L2V(dot_) L2V(dotu_) L2V(rot_) L2V(rotm_)
L1V(scal_) L1V(asum_) L1V(nrm2_) L1V(iamax_)

// ---------------------------------------------------------------- level 2
template <class T, char a, char dx, char dy> void gemv_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(gemv, LAY(a), TR(c, "trans"), A.m, A.n, c.scal<T>("alpha"), (const T*)A.p, A.ld, (const T*)x.p, x.inc, beta<T>(c), y.p, y.inc);
}
template <class T, char a, char dx, char dy> void hemv_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(hemv, LAY(a), UP(c), A.m, c.scal<T>("alpha"), (const T*)A.p, A.ld, (const T*)x.p, x.inc, beta<T>(c), y.p, y.inc);
}
template <class T, char a, char dx, char dy> void symv_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(symv, LAY(a), UP(c), A.m, c.scal<T>("alpha"), (const T*)A.p, A.ld, (const T*)x.p, x.inc, beta<T>(c), y.p, y.inc);
}
template <class T, char a, char dx, char dy> void ger_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(ger, LAY(a), A.m, A.n, c.scal<T>("alpha"), (const T*)x.p, x.inc, (const T*)y.p, y.inc, A.p, A.ld);
}
template <class T, char a, char dx, char dy> void geru_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(geru, LAY(a), A.m, A.n, c.scal<T>("alpha"), (const T*)x.p, x.inc, (const T*)y.p, y.inc, A.p, A.ld);
}
template <class T, char a, char dx, char dy> void her2_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(her2, LAY(a), UP(c), A.m, c.scal<T>("alpha"), (const T*)x.p, x.inc, (const T*)y.p, y.inc, A.p, A.ld);
}
template <class T, char a, char dx, char dy> void syr2_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx), y = vx<T>(c, "y", dy);
    CALL(syr2, LAY(a), UP(c), A.m, c.scal<T>("alpha"), (const T*)x.p, x.inc, (const T*)y.p, y.inc, A.p, A.ld);
}
template <class T, char a, char dx> void her_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx);
    CALL(her, LAY(a), UP(c), A.m, c.scal<real<T>>("alpha"), (const T*)x.p, x.inc, A.p, A.ld);
}
template <class T, char a, char dx> void syr_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx);
#if API == 0
    CALL(syr, LAY(a), UP(c), A.m, c.scal<T>("alpha"), (const T*)x.p, x.inc, A.p, A.ld);
#else
    if constexpr (tlapack::is_real<T>)
        CALLN(ssyr, dsyr, ssyr, dsyr, LAY(a), UP(c), A.m, c.scal<T>("alpha"), (const T*)x.p, x.inc, A.p, A.ld);
#endif
}
template <class T, char a, char dx> void trmv_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx);
    CALL(trmv, LAY(a), UP(c), TR(c, "trans"), DG(c), A.m, (const T*)A.p, A.ld, x.p, x.inc);
}
template <class T, char a, char dx> void trsv_(Ctx& c)
{
    auto A = mx<T>(c, "A"); auto x = vx<T>(c, "x", dx);
    CALL(trsv, LAY(a), UP(c), TR(c, "trans"), DG(c), A.m, (const T*)A.p, A.ld, x.p, x.inc);
}
#define M2V(o)                                                                   \
    VR3(o, d, vf::D, C, F, F) VR3(o, d, vf::D, R, F, F) VR3(o, d, vf::D, C, B, F) \
    VR3(o, d, vf::D, R, F, B) VR3(o, z, vf::Z, C, F, F) VR3(o, z, vf::Z, R, F, F) \
    VR3(o, z, vf::Z, C, B, F) VR3(o, z, vf::Z, R, F, B) VR3(o, s, vf::S, C, F, F) \
    VR3(o, c, vf::C, C, F, F)                                                    \
    VR3(o, s, vf::S, R, B, B) VR3(o, c, vf::C, R, B, B)                          \
    VR3(o, d, vf::D, R, B, B) VR3(o, z, vf::Z, R, B, B)
#define M1V(o)                                                        \
    VR2(o, d, vf::D, C, F) VR2(o, d, vf::D, R, F) VR2(o, d, vf::D, C, B) \
    VR2(o, d, vf::D, R, B) VR2(o, z, vf::Z, C, F) VR2(o, z, vf::Z, R, F) \
    VR2(o, z, vf::Z, C, B) VR2(o, z, vf::Z, R, B) VR2(o, s, vf::S, C, F) \
    VR2(o, c, vf::C, C, F) VR2(o, s, vf::S, R, B) VR2(o, c, vf::C, R, B)
M2V(gemv_) M2V(hemv_) M2V(symv_) M2V(ger_) M2V(geru_) M2V(her2_) M2V(syr2_)
M1V(her_) M1V(syr_) M1V(trmv_) M1V(trsv_)

// ---------------------------------------------------------------- level 3
template <class T, char a, char b, char l> void gemm_(Ctx& c)
{
    auto A = mx<T>(c, "A"), B = mx<T>(c, "B"), C = mx<T>(c, "C");
    long k = c.str("ta")[0] == 'N' ? A.n : A.m;
    CALL(gemm, LAY(l), TR(c, "ta"), TR(c, "tb"), C.m, C.n, k, c.scal<T>("alpha"), (const T*)A.p, A.ld, (const T*)B.p, B.ld, beta<T>(c), C.p, C.ld);
}
#define MM(f)                                                                \
    template <class T, char a, char b, char l> void f##_(Ctx& c)             \
    {                                                                        \
        auto A = mx<T>(c, "A"), B = mx<T>(c, "B"), C = mx<T>(c, "C");        \
        CALL(f, LAY(l), SD(c), UP(c), C.m, C.n, c.scal<T>("alpha"), (const T*)A.p, A.ld, (const T*)B.p, B.ld, beta<T>(c), C.p, C.ld); \
    }
MM(hemm) MM(symm)
#define RK(f, SA)                                                            \
    template <class T, char a, char l> void f##_(Ctx& c)                     \
    {                                                                        \
        auto A = mx<T>(c, "A"), C = mx<T>(c, "C");                           \
        long k = c.str("trans")[0] == 'N' ? A.n : A.m;                       \
        CALL(f, LAY(l), UP(c), TR(c, "trans"), C.m, k, c.scal<SA>("alpha"), (const T*)A.p, A.ld, beta<SA>(c), C.p, C.ld); \
    }
RK(herk, real<T>) RK(syrk, T)
#define R2K(f, SB)                                                           \
    template <class T, char a, char b, char l> void f##_(Ctx& c)             \
    {                                                                        \
        auto A = mx<T>(c, "A"), B = mx<T>(c, "B"), C = mx<T>(c, "C");        \
        long k = c.str("trans")[0] == 'N' ? A.n : A.m;                       \
        CALL(f, LAY(l), UP(c), TR(c, "trans"), C.m, k, c.scal<T>("alpha"), (const T*)A.p, A.ld, (const T*)B.p, B.ld, beta<SB>(c), C.p, C.ld); \
    }
R2K(her2k, real<T>) R2K(syr2k, T)
#define TRX(f)                                                               \
    template <class T, char a, char l> void f##_(Ctx& c)                     \
    {                                                                        \
        auto A = mx<T>(c, "A"), B = mx<T>(c, "B");                           \
        CALL(f, LAY(l), SD(c), UP(c), TR(c, "trans"), DG(c), B.m, B.n, c.scal<T>("alpha"), (const T*)A.p, A.ld, B.p, B.ld); \
    }
TRX(trmm) TRX(trsm)
#define M3V(o)                                                        \
    VR3(o, d, vf::D, C, C, C) VR3(o, d, vf::D, R, R, R) VR3(o, z, vf::Z, C, C, C) \
    VR3(o, z, vf::Z, R, R, R) VR3(o, s, vf::S, C, C, C) VR3(o, c, vf::C, C, C, C) \
    VR3(o, s, vf::S, R, R, R) VR3(o, c, vf::C, R, R, R)
#define M22(o)                                                        \
    VR2(o, d, vf::D, C, C) VR2(o, d, vf::D, R, R) VR2(o, z, vf::Z, C, C) \
    VR2(o, z, vf::Z, R, R) VR2(o, s, vf::S, C, C) VR2(o, c, vf::C, C, C) \
    VR2(o, s, vf::S, R, R) VR2(o, c, vf::C, R, R)
M3V(gemm_) M3V(hemm_) M3V(symm_) M3V(her2k_) M3V(syr2k_)
M22(herk_) M22(syrk_) M22(trmm_) M22(trsm_)

// ------------------------------------------------- rotations from 2 numbers
template <class T> void l_rotg_(Ctx& c)
{
    // twin calls: native and legacy must agree to the last bit
    T a = c.scal<T>("ga"), b = c.scal<T>("gb"), s(7), a2 = a, b2 = b, s2(7);
    real<T> co(5), co2(5);
    tlapack::rotg(a2, b2, co2, s2);
#if API == 0
    tlapack::legacy::rotg<T>(&a, &b, &co, &s);
#else
    CALL(rotg, &a, &b, &co, &s);
#endif
    nm::Rec r;
    auto eq = [](auto x, auto y) { return !memcmp(&x, &y, sizeof x); };
    r.put("same", eq(a, a2) && eq(b, b2) && eq(co, co2) && eq(s, s2));
    c.ret = r.done();
}
template <class T> void l_rotmg_(Ctx& c)
{
    if constexpr (tlapack::is_real<T>) {
        T d1 = c.scal<T>("d1"), d2 = c.scal<T>("d2"), a = c.scal<T>("ga"), b = c.scal<T>("gb");
        T e1 = d1, e2 = d2, f = a, h[5] = {9, 9, 9, 9, 9}, g[5] = {9, 9, 9, 9, 9};
        g[0] = tlapack::rotmg(e1, e2, f, b, g + 1);
#if API == 0
        tlapack::legacy::rotmg(&d1, &d2, &a, b, h);
#else
        CALLN(srotmg, drotmg, srotmg, drotmg, &d1, &d2, &a, b, (T*)h);
#endif
        nm::Rec r;
        r.put("same", !memcmp(h, g, sizeof h) && d1 == e1 && d2 == e2 && a == f);
        c.ret = r.done();
    }
}
VR0(l_rotg_, s, vf::S) VR0(l_rotg_, d, vf::D) VR0(l_rotg_, c, vf::C) VR0(l_rotg_, z, vf::Z)
VR0(l_rotmg_, s, vf::S) VR0(l_rotmg_, d, vf::D)

#if API == 0
// ---------------------------------------------------------------- LAPACK
static tlapack::Norm norm_of(Ctx& c)
{
    using tlapack::Norm;
    char k = c.str("norm")[0];
    return k == 'M' ? Norm::Max : k == '1' ? Norm::One : k == 'I' ? Norm::Inf : k == 'F' ? Norm::Fro : Norm(k);
}
template <class R> static void put_norm(Ctx& c, R x_)
{
    long double x = x_, e = 16 * (long double)std::numeric_limits<R>::epsilon();
    nm::Rec r;
    int k = std::isnan(x) ? 1 : std::isinf(x) ? 2 : 0;
    r.put("k", k);
    long v = -1, q = -1;
    if (!k && fabsl(x) < 1e4) {
        long double n = roundl(x), m = roundl(x * x);
        if (fabsl(x - n) <= e * fabsl(x)) v = n;
        if (fabsl(x - sqrtl(m)) <= e * fabsl(x)) q = m;
    }
    r.put("v", v);
    r.put("q", q);
    c.ret = r.done();
}
namespace L = tlapack::legacy;
#define M1(A) auto A = mx<T>(c, #A)
template <class T, char l> void lange_(Ctx& c) { M1(A); put_norm<real<T>>(c, L::lange(norm_of(c), A.m, A.n, (const T*)A.p, A.ld)); }
template <class T, char l> void lansy_(Ctx& c) { M1(A); put_norm<real<T>>(c, L::lansy(norm_of(c), c.uplo("uplo"), A.n, (const T*)A.p, A.ld)); }
template <class T, char l> void lanhe_(Ctx& c) { M1(A); put_norm<real<T>>(c, L::lanhe(norm_of(c), c.uplo("uplo"), A.n, (const T*)A.p, A.ld)); }
template <class T, char l> void lantr_(Ctx& c) { M1(A); put_norm<real<T>>(c, L::lantr(norm_of(c), c.uplo("uplo"), c.diag("diag"), A.m, A.n, (const T*)A.p, A.ld)); }
static L::MatrixType mt(char u)
{
    using M = L::MatrixType;
    return u == 'U' ? M::Upper : u == 'L' ? M::Lower : u == 'H' ? M::Hessenberg : M::General;
}
template <class T, char l> void laset_(Ctx& c)
{
    M1(A);
    T al = c.scal<T>("alpha"), be = c.scal<T>("beta");
    if (c.i("mt", 0)) L::laset(mt(c.str("uplo")[0]), A.m, A.n, al, be, A.p, A.ld);
    else L::laset(c.uplo("uplo"), A.m, A.n, al, be, A.p, A.ld);
}
template <class T, char a, char b> void lacpy_(Ctx& c)
{
    M1(A); M1(B);
    if (c.i("mt", 0)) L::lacpy(mt(c.str("uplo")[0]), A.m, A.n, (const T*)A.p, A.ld, B.p, B.ld);
    else L::lacpy(c.uplo("uplo"), A.m, A.n, (const T*)A.p, A.ld, B.p, B.ld);
}
template <class T, char l> void lascl_(Ctx& c)
{
    M1(A);
    c.setint(L::lascl<L::MatrixType, T>(mt(c.str("uplo")[0]), 0, 0, c.scal<real<T>>("b"), c.scal<real<T>>("a"), A.m, A.n, A.p, A.ld));
}
template <class T, char a, char b> void larfv_(Ctx& c)
{
    auto v = vx<T>(c, "v", a); M1(C);
    L::larf(c.side("side"), C.m, C.n, (const T*)v.p, v.inc, c.scal<T>("tau"), C.p, C.ld);
}
template <class T, char a, char b> void larft_(Ctx& c)
{
    M1(V); auto Tm = mx<T>(c, "T"); auto tau = vx<T>(c, "tau", 'F');
    auto sv = c.storev("storev");
    long q = sv == tlapack::StoreV::Columnwise ? V.m : V.n, k = tau.n;
    c.setint(L::larft(c.direc("direc"), sv, q, k, (const T*)V.p, V.ld, (const T*)tau.p, Tm.p, Tm.ld));
}
template <class T, char a, char b> void larfb_(Ctx& c)
{
    M1(V); M1(C); auto Tm = mx<T>(c, "T");
    c.setint(L::larfb(c.side("side"), c.op("trans"), c.direc("direc"), c.storev("storev"), C.m, C.n, Tm.m, (const T*)V.p, V.ld, (const T*)Tm.p, Tm.ld, C.p, C.ld));
}
template <class T, char a, char b> void unm2r_(Ctx& c)
{
    M1(V); M1(C); auto tau = vx<T>(c, "tau", 'F');
    c.setint(L::unm2r(c.side("side"), c.op("trans"), C.m, C.n, tau.n, V.p, V.ld, (const T*)tau.p, C.p, C.ld));
}
template <class T, char a, char b> void unmqr_(Ctx& c)
{
    M1(V); M1(C); auto tau = vx<T>(c, "tau", 'F');
    c.setint(L::unmqr(c.side("side"), c.op("trans"), C.m, C.n, tau.n, (const T*)V.p, V.ld, (const T*)tau.p, C.p, C.ld));
}
template <class T, char a> void ung2r_(Ctx& c)
{
    M1(A); auto tau = vx<T>(c, "tau", 'F');
    c.setint(L::ung2r(A.m, A.n, tau.n, A.p, A.ld, (const T*)tau.p));
}
template <class T, char a> void potrf_(Ctx& c)
{
    M1(A);
    long r;
    try { r = L::potrf(c.uplo("uplo"), A.n, A.p, A.ld); }
    catch (const std::runtime_error&) { r = -777; }
    c.setint(r);
}
template <class T, char a, char b> void potrs_(Ctx& c)
{
    M1(A); M1(B);
    c.setint(L::potrs(c.uplo("uplo"), A.n, B.n, (const T*)A.p, A.ld, B.p, B.ld));
}
// twins of routines whose results are not exact
template <class T, char d> void l_larfg_(Ctx& c)
{
    auto x = vx<T>(c, "x", d);
    T al = c.scal<T>("alpha"), al2 = al, tau(3), tau2(3);
    std::vector<T> y;
    for (long i = 0; i < x.n; ++i) y.push_back(x.p[d == 'F' ? i * x.inc : (x.n - 1 - i) * -x.inc]);
    tlapack::LegacyVector<T, idx> Y(x.n, y.data());
    if (x.n) tlapack::larfg(tlapack::COLUMNWISE_STORAGE, al2, Y, tau2);
    else {
        // H = I, up to the phase that makes beta real
        tlapack::LegacyVector<T, idx> E(0, (T*)nullptr);
        tlapack::larfg(tlapack::COLUMNWISE_STORAGE, al2, E, tau2);
    }
    T be = al, tau0(3);
    L::larfg(0, be, x.p, x.inc, tau0);  // nothing to reflect
    if (be != al || tau0 != T(0)) tau2 = T(99);
    if (c.i("ptr", 0)) L::larfg(x.n + 1, &al, x.p, x.inc, &tau);
    else L::larfg(x.n + 1, al, x.p, x.inc, tau);
    bool same = al == al2 && tau == tau2;
    for (long i = 0; i < x.n; ++i) same = same && x.p[d == 'F' ? i * x.inc : (x.n - 1 - i) * -x.inc] == y[i];
    nm::Rec r; r.put("same", same); c.ret = r.done();
}
template <class T, char d> void l_lassq_(Ctx& c)
{
    auto x = vx<T>(c, "x", d);
    std::vector<T> y;
    for (long i = 0; i < x.n; ++i) y.push_back(x.p[d == 'F' ? i * x.inc : (x.n - 1 - i) * -x.inc]);
    tlapack::LegacyVector<T, idx> Y(x.n, y.data());
    real<T> s = c.scal<real<T>>("s0"), q = c.scal<real<T>>("q0"), s2 = s, q2 = q;
    if (x.n) tlapack::lassq(Y, s2, q2);
    L::lassq(x.n, (const T*)x.p, x.inc, s, q);
    nm::Rec r; r.put("same", s == s2 && q == q2); c.ret = r.done();
}
template <class T, char d> void l_larnv_(Ctx& c)
{
    idx n = c.i("n"), dist = c.i("dist");
    std::vector<T> x(n + 2, T(7)), y(n + 2, T(7));
    idx s = c.i("seed"), s2 = s;
    tlapack::LegacyVector<T, idx> Y(n, y.data() + 1);
    if (dist == 1) tlapack::larnv<1>(s2, Y);
    if (dist == 2) tlapack::larnv<2>(s2, Y);
    if (dist == 3) tlapack::larnv<3>(s2, Y);
    if constexpr (tlapack::is_complex<T>) {
        if (dist == 4) tlapack::larnv<4>(s2, Y);
        if (dist == 5) tlapack::larnv<5>(s2, Y);
    }
    L::larnv(dist, &s, n, x.data() + 1);
    nm::Rec r; r.put("same", x == y && s == s2); c.ret = r.done();
}
template <class T, char l> void l_geqr2_(Ctx& c)
{
    idx m = c.i("m"), n = c.i("n"), ld = m + c.i("pad");
    nm::Rng g(c.i("seed"));
    std::vector<T> A(ld * n + 1, T(77));
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i) A[i + j * ld] = T(int(g.u01() * 9) - 4);
    std::vector<T> B = A, ta(std::min(m, n) + 1, T(5)), tb = ta;
    tlapack::LegacyMatrix<T, idx> Bm(m, n, B.data(), ld ? ld : 1);
    tlapack::LegacyVector<T, idx> tv(std::min(m, n), tb.data());
    int i1 = n ? tlapack::geqr2(Bm, tv) : 0, i2 = L::geqr2(m, n, A.data(), ld ? ld : 1, ta.data());
    nm::Rec r; r.put("same", A == B && ta == tb && i1 == i2); c.ret = r.done();
}
/// band storage: entry (i,j) at off + i-j + j*ld
template <class T, char l> void l_lasclb_(Ctx& c)
{
    using MT = L::MatrixType;
    char k = c.str("mt")[0];
    auto A = mx<T>(c, "A");  // the band array
    long m = c.i("m"), n = c.i("n"), kl = c.i("kl"), ku = c.i("ku");
    c.setint(L::lascl<MT, T>(k == 'B' ? MT::LowerBand : k == 'Q' ? MT::UpperBand : MT::Band, kl, ku, c.scal<real<T>>("b"), c.scal<real<T>>("a"), m, n, A.p, A.ld));
}
#define V1C(o) VR1(o, d, vf::D, C) VR1(o, z, vf::Z, C) VR1(o, s, vf::S, C) VR1(o, c, vf::C, C)
#define V2C(o) VR2(o, d, vf::D, C, C) VR2(o, z, vf::Z, C, C) VR2(o, s, vf::S, C, C) VR2(o, c, vf::C, C, C)
#define V1F(o) VR1(o, d, vf::D, F) VR1(o, z, vf::Z, F) VR1(o, s, vf::S, F) VR1(o, c, vf::C, F)
#define V1FB(o) V1F(o) VR1(o, d, vf::D, B) VR1(o, z, vf::Z, B)
V1C(lange_) V1C(lansy_) V1C(lanhe_) V1C(lantr_) V1C(laset_) V1C(lascl_) V1C(potrf_) V1C(ung2r_) V1C(l_geqr2_) V1C(l_lasclb_)
V2C(lacpy_) V2C(larft_) V2C(larfb_) V2C(unm2r_) V2C(unmqr_) V2C(potrs_)
VR2(larfv_, d, vf::D, F, C) VR2(larfv_, d, vf::D, B, C) VR2(larfv_, z, vf::Z, F, C) VR2(larfv_, z, vf::Z, B, C) VR2(larfv_, s, vf::S, F, C) VR2(larfv_, c, vf::C, F, C)
V1FB(l_larfg_) V1FB(l_lassq_) V1F(l_larnv_)
VR1(l_larfg_, s, vf::S, B) VR1(l_larfg_, c, vf::C, B) VR1(l_lassq_, s, vf::S, B) VR1(l_lassq_, c, vf::C, B)
#endif
}  // namespace lg
