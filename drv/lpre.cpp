// Which flags, sizes, strides and leading dimensions do the pointer-based
// interfaces accept?
#include "core.hpp"
#include <tlapack/legacy_api/blas.hpp>
#include <tlapack/legacy_api/lapack.hpp>
using namespace vf;
namespace lg = tlapack::legacy;
using tlapack::Layout;
using tlapack::Norm;
using tlapack::Direction;
using tlapack::StoreV;
using tlapack::real_type;

namespace {
template <class T> void lpre_(Ctx& c)
{
    using R = real_type<T>;
    constexpr bool cx = tlapack::is_complex<T>;
    const string r = c.str("r");
    std::map<string, std::vector<T>> store, was;
    static constexpr size_t N = 512, O = 64;
    auto P = [&](const char* k) {
        auto& s = store[k];
        s.assign(N, T(R(0.25)));
        if (c.has((string("ld") + k).c_str())) {
            size_t ld = c.i((string("ld") + k).c_str());
            for (size_t j = 0; j < 8; ++j) s[O + j * (ld + 1)] = T(4);
        }
        was[k] = s;
        return s.data() + O;
    };
    auto x = [&] { return P("x"); };
    auto y = [&] { return P("y"); };
    auto A = [&] { return P("a"); };
    auto B = [&] { return P("b"); };
    auto C = [&] { return P("c"); };
    auto D = [&](const char* k) { return lg::idx_t(c.i(k)); };
    auto S = [&](const char* k) { return lg::int_t(c.i(k)); };
    auto lay_ = [&] { return Layout(c.str("layout")[0]); };
    auto nrm = [&] { return Norm(c.str("norm")[0]); };
    auto op = [&](const char* k) { return c.op(k); };
    auto ul = [&] { return c.uplo("uplo"); };
    auto sd = [&] { return c.side("side"); };
    auto dg = [&] { return c.diag("diag"); };
    auto dr = [&] { return Direction(c.str("direc")[0]); };
    auto sv = [&] { return StoreV(c.str("storev")[0]); };
    T al(2), be(3);
    R ral(2), rbe(3);
    T tau[16];
    for (auto& t : tau) t = T(R(.5));
    string thr;
    auto run = [&] {
        if (r == "asum") lg::asum(D("n"), x(), S("incx"));
        else if (r == "nrm2") lg::nrm2(D("n"), x(), S("incx"));
        else if (r == "scal") lg::scal(D("n"), al, x(), S("incx"));
        else if (r == "iamax") lg::iamax(D("n"), x(), S("incx"));
        else if (r == "axpy") lg::axpy(D("n"), al, x(), S("incx"), y(), S("incy"));
        else if (r == "copy") lg::copy(D("n"), x(), S("incx"), y(), S("incy"));
        else if (r == "swap") lg::swap(D("n"), x(), S("incx"), y(), S("incy"));
        else if (r == "dot") lg::dot(D("n"), x(), S("incx"), y(), S("incy"));
        else if (r == "dotu") lg::dotu(D("n"), x(), S("incx"), y(), S("incy"));
        else if (r == "rot") lg::rot(D("n"), x(), S("incx"), y(), S("incy"), R(.5), T(R(.5)));
        else if (r == "rotm") {
            if constexpr (!cx) { T p[5] = {T(c.i("flag")), 1, 2, 3, 4}; lg::rotm(D("n"), x(), S("incx"), y(), S("incy"), p); }
        }
        else if (r == "gemv") lg::gemv(lay_(), op("trans"), D("m"), D("n"), al, A(), D("lda"), x(), S("incx"), be, y(), S("incy"));
        else if (r == "ger") lg::ger(lay_(), D("m"), D("n"), al, x(), S("incx"), y(), S("incy"), A(), D("lda"));
        else if (r == "geru") lg::geru(lay_(), D("m"), D("n"), al, x(), S("incx"), y(), S("incy"), A(), D("lda"));
        else if (r == "hemv") lg::hemv(lay_(), ul(), D("n"), al, A(), D("lda"), x(), S("incx"), be, y(), S("incy"));
        else if (r == "symv") lg::symv(lay_(), ul(), D("n"), al, A(), D("lda"), x(), S("incx"), be, y(), S("incy"));
        else if (r == "her") lg::her(lay_(), ul(), D("n"), ral, x(), S("incx"), A(), D("lda"));
        else if (r == "syr") lg::syr(lay_(), ul(), D("n"), al, x(), S("incx"), A(), D("lda"));
        else if (r == "her2") lg::her2(lay_(), ul(), D("n"), al, x(), S("incx"), y(), S("incy"), A(), D("lda"));
        else if (r == "syr2") lg::syr2(lay_(), ul(), D("n"), al, x(), S("incx"), y(), S("incy"), A(), D("lda"));
        else if (r == "trmv") lg::trmv(lay_(), ul(), op("trans"), dg(), D("n"), A(), D("lda"), x(), S("incx"));
        else if (r == "trsv") lg::trsv(lay_(), ul(), op("trans"), dg(), D("n"), A(), D("lda"), x(), S("incx"));
        else if (r == "gemm") lg::gemm(lay_(), op("ta"), op("tb"), D("m"), D("n"), D("k"), al, A(), D("lda"), B(), D("ldb"), be, C(), D("ldc"));
        else if (r == "hemm") lg::hemm(lay_(), sd(), ul(), D("m"), D("n"), al, A(), D("lda"), B(), D("ldb"), be, C(), D("ldc"));
        else if (r == "symm") lg::symm(lay_(), sd(), ul(), D("m"), D("n"), al, A(), D("lda"), B(), D("ldb"), be, C(), D("ldc"));
        else if (r == "herk") lg::herk(lay_(), ul(), op("trans"), D("n"), D("k"), ral, A(), D("lda"), rbe, C(), D("ldc"));
        else if (r == "syrk") lg::syrk(lay_(), ul(), op("trans"), D("n"), D("k"), al, A(), D("lda"), be, C(), D("ldc"));
        else if (r == "her2k") lg::her2k(lay_(), ul(), op("trans"), D("n"), D("k"), al, A(), D("lda"), B(), D("ldb"), rbe, C(), D("ldc"));
        else if (r == "syr2k") lg::syr2k(lay_(), ul(), op("trans"), D("n"), D("k"), al, A(), D("lda"), B(), D("ldb"), be, C(), D("ldc"));
        else if (r == "trmm") lg::trmm(lay_(), sd(), ul(), op("trans"), dg(), D("m"), D("n"), al, A(), D("lda"), B(), D("ldb"));
        else if (r == "trsm") lg::trsm(lay_(), sd(), ul(), op("trans"), dg(), D("m"), D("n"), al, A(), D("lda"), B(), D("ldb"));
        // ---- LAPACK
        else if (r == "geqr2") lg::geqr2(D("m"), D("n"), A(), D("lda"), tau);
        else if (r == "ung2r") lg::ung2r(D("m"), D("n"), D("k"), A(), D("lda"), tau);
        else if (r == "unm2r") lg::unm2r(sd(), op("trans"), D("m"), D("n"), D("k"), A(), D("lda"), tau, C(), D("ldc"));
        else if (r == "unmqr") lg::unmqr(sd(), op("trans"), D("m"), D("n"), D("k"), A(), D("lda"), tau, C(), D("ldc"));
        else if (r == "lacpy") lg::lacpy(ul(), D("m"), D("n"), A(), D("lda"), B(), D("ldb"));
        else if (r == "laset") lg::laset(ul(), D("m"), D("n"), al, be, A(), D("lda"));
        else if (r == "lange") lg::lange(nrm(), D("m"), D("n"), A(), D("lda"));
        else if (r == "lanhe") lg::lanhe(nrm(), ul(), D("n"), A(), D("lda"));
        else if (r == "lansy") lg::lansy(nrm(), ul(), D("n"), A(), D("lda"));
        else if (r == "lantr") lg::lantr(nrm(), ul(), dg(), D("m"), D("n"), A(), D("lda"));
        else if (r == "larf") lg::larf(sd(), D("m"), D("n"), x(), S("incx"), tau[0], C(), D("ldc"));
        else if (r == "larft") lg::larft(dr(), sv(), D("n"), D("k"), A(), D("lda"), tau, C(), D("ldc"));
        else if (r == "larfb") lg::larfb(sd(), op("trans"), dr(), sv(), D("m"), D("n"), D("k"), A(), D("lda"), B(), D("ldb"), C(), D("ldc"));
        else if (r == "lascl") lg::lascl(lg::MatrixType(c.str("mt")[0]), D("kl"), D("ku"), R(2), R(3), D("m"), D("n"), A(), D("lda"));
        else if (r == "potrf") lg::potrf(ul(), D("n"), A(), D("lda"));
        else if (r == "potrs") lg::potrs(ul(), D("n"), D("m"), A(), D("lda"), B(), D("ldb"));
        // ---- the views themselves
        else if (r == "colmat") { auto p = A(); tlapack::LegacyMatrix<T, idx, Layout::ColMajor> V(D("m"), D("n"), p, D("lda")); }
        else if (r == "rowmat") { auto p = A(); tlapack::LegacyMatrix<T, idx, Layout::RowMajor> V(D("m"), D("n"), p, D("lda")); }
        else if (r == "bandmat") { auto p = A(); tlapack::LegacyBandedMatrix<T> V(c.i("m"), c.i("n"), c.i("kl"), c.i("ku"), p); }
        else throw BadProgram(r);
    };
    try { run(); }
    catch (const BadProgram&) { throw; }
    catch (const std::domain_error&) { thr = "domain"; }
    catch (const std::runtime_error&) { thr = "runtime"; }
    bool same = true, guard = true;
    for (auto& p : store) {
        auto& w = was[p.first];
        for (size_t i = 0; i < N; ++i)
            if (memcmp(&p.second[i], &w[i], sizeof w[i])) { same = false; if (i < O) guard = false; }
    }
    c.ret = "[\"" + thr + "\"," + (same ? "1" : "0") + "," + (guard ? "1" : "0") + "]";
}
VR0(lpre_, d, D)
VR0(lpre_, z, Z)
}  // namespace
