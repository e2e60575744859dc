// Regularized least squares: the minimizer of |A x - b|^2 + lambda^2 |x|^2.
#include "eig.hpp"
#include <tlapack/lapack/tkhnv.hpp>
using namespace vf;
using namespace nm;

template <class T, char C> void n_tik_(Ctx& c)
{
    constexpr Layout L = lay<C>::v;
    using R = real_type<T>;
    idx m = c.i("m"), n = c.i("n"), k = c.i("k");
    int kind = c.i("kind");
    Rng g(c.i("seed"));
    string var = c.str("var");
    PM<T, L> A(m, n), b(m, k);
    rnd_into(A, g, kind < 7 ? kind : 0);
    rnd_into(b, g, c.i("bkind"));
    if (kind == 7)  // exactly orthogonal columns of different lengths
        A.gen([&](idx i, idx j) { return i == j ? T(R(j + 1)) : T(0); });
    if (kind == 8)  // graded columns
        for (idx j = 0; j < n; ++j)
            for (idx i = 0; i < m; ++i) A.at(i, j) *= R(ldexp(1.0, -3 * int(j)));
    if (kind == 9)  // zero matrix
        A.gen([&](idx, idx) { return T(0); });
    if (kind == 10 && k > 0)  // consistent system
        b.set(mul(A.get(), [&] { XM X(n, k); for (auto& z : X.a) z = lc(g.val<T>()); return X; }()));
    XM A0 = A.get(), b0 = b.get();
    LR na = nrm(A0);
    // the parameter relative to the norm of the matrix
    static const double rel[] = {0, 1e-6, 1e-3, 1e-1, 1, 2, 1e3, -1e-1};
    R lambda = R(rel[c.i("lam")] * (na > 0 ? double(na) : 1.0));
    auto Av = A.v();
    auto bv = b.v();
    if (var == "q") tik_qr(Av, bv, lambda);
    else if (var == "e") tik_bidiag_elden(Av, bv, lambda);
    else if (var == "s") tik_svd(Av, bv, lambda);
    else if (var == "Q") tkhnv(Av, bv, lambda, TikOpts(TikVariant::QR));
    else if (var == "E") tkhnv(Av, bv, lambda, TikOpts(TikVariant::Elden));
    else if (var == "S") tkhnv(Av, bv, lambda, TikOpts(TikVariant::SVD));
    else tkhnv(Av, bv, lambda);
    XM x = block(b.get(), 0, 0, n, k);
    LR lam = lambda;
    long w = 0, wl = 0, fnt = 1;
    for (idx j = 0; j < k; ++j) {
        XM xj = block(x, 0, j, n, 1), r = sub(block(b0, 0, j, m, 1), mul(A0, xj));
        for (auto& z : xj.a) if (!fin(z)) fnt = 0;
        XM y = sub(mul(ct(A0), r), scale(lam * lam, xj));
        LR nx = nrm(xj), nr = nrm(r), na1 = hypotl(na, lam), nra = hypotl(nr, lam * nx);
        LR d = std::max<LR>(1, m);
        w = std::max(w, U(nrm(y), d * (na * (nr + na * nx) + lam * lam * nx), epsof<T>()));
        wl = std::max(wl, U(nrm(y), d * (na1 * (nra + na1 * nx)), epsof<T>()));
    }
    Rec r;
    r.put("fin", fnt); r.put("res", w); r.put("aug", wl); r.put("pad", A.pad_ok() && b.pad_ok());
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(n_tik_)
