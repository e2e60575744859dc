// Norms, copy/set/transpose/scale, NaN and infinity detection, random fill.
#include "num.hpp"
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/transpose.hpp>
#include <tlapack/lapack/larnv.hpp>
using namespace vf;
using namespace tlapack;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define REAL real_type<T>

static Norm norm_of(Ctx& c)
{
    char k = c.str("norm")[0];
    return k == 'M' ? Norm::Max : k == '1' ? Norm::One : k == 'I' ? Norm::Inf : k == 'F' ? Norm::Fro : k == '2' ? Norm::Two : Norm(k);
}
/// v: the value if it is (up to rounding) an integer, q: its square likewise
template <class R> static void put_norm(Ctx& c, R x_)
{
    long double x = x_, e = 16 * (long double)std::numeric_limits<R>::epsilon();
    nm::Rec r;
    int k = std::isnan(x) ? 1 : std::isinf(x) ? 2 : 0;
    r.put("k", k);
    long v = -1, q = -1;
    if (!k && fabsl(x) < 1e4) {
        long double n = roundl(x), m = roundl(x * x);
        if (fabsl(x - n) <= e * fabsl(x)) v = n;
        if (fabsl(x - sqrtl(m)) <= e * fabsl(x)) q = m;
    }
    r.put("v", v);
    r.put("q", q);
    c.ret = r.done();
}
template <class T, char l> void lange_(Ctx& c) { put_norm<REAL>(c, lange(norm_of(c), MA("A", l))); }
template <class T, char l> void lansy_(Ctx& c) { put_norm<REAL>(c, lansy(norm_of(c), c.uplo("uplo"), MA("A", l))); }
template <class T, char l> void lanhe_(Ctx& c) { put_norm<REAL>(c, lanhe(norm_of(c), c.uplo("uplo"), MA("A", l))); }
template <class T, char l> void lantr_(Ctx& c)
{
    put_norm<REAL>(c, lantr(norm_of(c), c.uplo("uplo"), c.diag("diag"), MA("A", l)));
}
/// kind: g general, s symmetric, h Hermitian, t triangular; with workspace W
template <class T, char l> void infnorm_(Ctx& c)
{
    auto A = MA("A", l);
    char k = c.str("kind")[0];
    if (c.i("wk", 0)) {
        using R = REAL;
        auto W = [&](WorkInfo w) { return c.work<R, Layout::ColMajor>(w, c.i("wk")); };
        if (k == 'g') { auto w = W(infnorm_colmajor_worksize<T>(A)); put_norm<R>(c, infnorm_colmajor_work(A, w)); }
        else if (k == 's') { auto w = W(infnorm_symmetric_colmajor_worksize<T>(c.uplo("uplo"), A)); put_norm<R>(c, infnorm_symmetric_colmajor_work(c.uplo("uplo"), A, w)); }
        else if (k == 'h') { auto w = W(infnorm_hermitian_colmajor_worksize<T>(c.uplo("uplo"), A)); put_norm<R>(c, infnorm_hermitian_colmajor_work(c.uplo("uplo"), A, w)); }
        else { auto w = W(infnorm_triangular_colmajor_worksize<T>(c.uplo("uplo"), c.diag("diag"), A)); put_norm<R>(c, infnorm_triangular_colmajor_work(c.uplo("uplo"), c.diag("diag"), A, w)); }
    }
    else {
        using R = REAL;
        if (k == 'g') put_norm<R>(c, infnorm_colmajor(A));
        else if (k == 's') put_norm<R>(c, infnorm_symmetric_colmajor(c.uplo("uplo"), A));
        else if (k == 'h') put_norm<R>(c, infnorm_hermitian_colmajor(c.uplo("uplo"), A));
        else put_norm<R>(c, infnorm_triangular_colmajor(c.uplo("uplo"), c.diag("diag"), A));
    }
}
template <class T, char l> void laset_(Ctx& c)
{
    auto A = MA("A", l);
    laset(c.uplo("uplo"), c.scal<T>("alpha"), c.scal<T>("beta"), A);
}
template <class T, char a, char b> void lacpy_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    lacpy(c.uplo("uplo"), A, B);
}
template <class T, char a, char b> void transpose_(Ctx& c)
{
    auto A = MA("A", a); auto B = MA("B", b);
    TransposeOpts o; o.nx = c.i("nx", 16);
    if (c.i("conj")) conjtranspose(A, B, o); else transpose(A, B, o);
}
template <class T, char l> void conjugate_(Ctx& c)
{
    auto x = c.V<T, dir<l>::v>("x");
    conjugate(x);
}
template <class T, char l> void lascl_(Ctx& c)
{
    auto A = MA("A", l);
    REAL b = c.scal<REAL>("b"), a = c.scal<REAL>("a");
    if (c.has("kl")) {
        BandAccess B{(size_t)c.i("kl"), (size_t)c.i("ku")};
        c.setint(lascl(B, b, a, A));
    }
    else c.setint(lascl(c.uplo("uplo"), b, a, A));
}
template <class T, char l> void hasx_(Ctx& c)
{
    auto A = MA("A", l);
    bool n, i;
    if (c.has("kl")) {
        BandAccess B{(size_t)c.i("kl"), (size_t)c.i("ku")};
        n = hasnan(B, A); i = hasinf(B, A);
    }
    else { n = hasnan(c.uplo("uplo"), A); i = hasinf(c.uplo("uplo"), A); }
    nm::Rec r; r.put("nan", n); r.put("inf", i);
    c.ret = r.done();
}
template <class T, char l> void hasxv_(Ctx& c)
{
    auto x = c.V<T, dir<l>::v>("x");
    nm::Rec r; r.put("nan", hasnan(x)); r.put("inf", hasinf(x));
    c.ret = r.done();
}
template <class T, char d> void larnv_(Ctx& c)
{
    // twice with the same seed, once with another
    idx n = c.i("n"); long dist = c.i("dist"), seed = c.i("seed");
    auto run = [&](long s, nm::PV<T>& v) {
        auto x = v.v();
        unsigned is = s;
        if (dist == 1) larnv<1>(is, x);
        if (dist == 2) larnv<2>(is, x);
        if (dist == 3) larnv<3>(is, x);
        if (dist == 4) larnv<4>(is, x);
        if (dist == 5) larnv<5>(is, x);
        return long(is) - s;
    };
    nm::PV<T> x(n, 1), y(n, 2), z(n, 1);
    for (idx i = 0; i < n; ++i) x[i] = y[i] = z[i] = nm::padv<T>();
    long d1 = run(seed, x), d2 = run(seed, y), d3 = run(seed + 1, z);
    bool same = true, other = n == 0, pad = x.pad_ok() && y.pad_ok(), lo = true, up = true, moved = true;
    long double mean = 0, mx = 0;
    std::map<std::pair<double, double>, int> seen;
    for (idx i = 0; i < n; ++i) {
        same = same && x[i] == y[i];
        other = other || !(x[i] == z[i]);
        nm::LC v = nm::lc(x[i]);
        mean += v.real();
        long double eps = 4 * nm::epsof<T>();
        for (long double w : {v.real(), is_complex<T> ? v.imag() : v.real()}) {
            if (dist == 1 && !(w >= 0 && w <= 1)) lo = false;
            if (dist == 2 && !(w >= -1 && w <= 1)) lo = false;
            if (!std::isfinite(w)) lo = false;
        }
        if (dist == 4 && nm::absl(v) > 1 + eps) lo = false;
        if (dist == 5 && fabsl(nm::absl(v) - 1) > eps) lo = false;
        if (nm::is_pad(x[i])) moved = false;
        seen[{(double)v.real(), (double)v.imag()}]++;
        mx = std::max(mx, nm::absl(v));
    }
    // spread: half of the admissible range on either side is used
    long neg = 0, pos = 0, big = 0, im = 0;
    for (idx i = 0; i < n; ++i) {
        nm::LC v = nm::lc(x[i]);
        (v.real() < (dist == 1 ? 0.5L : 0.0L) ? neg : pos)++;
        if (nm::absl(v) > 0.5L) big++;
        if (v.imag() != 0) im++;
    }
    nm::Rec r;
    r.put("d1", d1); r.put("d2", d2); r.put("d3", d3); r.put("same", same); r.put("other", other); r.put("pad", pad);
    r.put("range", lo); r.put("moved", moved); r.put("distinct", seen.size()); r.put("neg", neg); r.put("pos", pos); r.put("big", big); r.put("im", im);
    r.put("cplx", is_complex<T>);
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
#define ALL2(op) VR2(op, d, D, C, C) VR2(op, d, D, R, R) VR2(op, d, D, C, R) VR2(op, d, D, R, C) \
    VR2(op, z, Z, C, C) VR2(op, z, Z, R, R) VR2(op, z, Z, C, R) VR2(op, z, Z, R, C) VR2(op, s, S, C, C) VR2(op, c, vf::C, C, C)
#define ALLV(op) VR1(op, d, D, F) VR1(op, d, D, B) VR1(op, z, Z, F) VR1(op, z, Z, B) VR1(op, s, S, F) VR1(op, c, vf::C, F)
ALL1(lange_) ALL1(lansy_) ALL1(lanhe_) ALL1(lantr_) ALL1(infnorm_) ALL1(laset_) ALL2(lacpy_) ALL2(transpose_)
ALLV(conjugate_) ALL1(lascl_) ALL1(hasx_) ALLV(hasxv_) ALLV(larnv_)
