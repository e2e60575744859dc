// QR, LQ, QL, RQ factorizations (measured) and the generators of their
// unitary factors (exact on integer reflectors).
#include "num.hpp"
#include <tlapack/lapack/gelq2.hpp>
#include <tlapack/lapack/gelqf.hpp>
#include <tlapack/lapack/gelqt.hpp>
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/geql2.hpp>
#include <tlapack/lapack/geqlf.hpp>
#include <tlapack/lapack/geqr2.hpp>
#include <tlapack/lapack/geqrf.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/gerq2.hpp>
#include <tlapack/lapack/gerqf.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/trge_qr2.hpp>
#include <tlapack/lapack/trge_ung2r.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungrq.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define VE(k, d) c.V<T, dir<d>::v>(k)

// ---- exact generators
#define UNG2(f)                                                              \
    template <class T, char a> void f##_(Ctx& c)                             \
    {                                                                        \
        auto A = MA("A", a); auto tau = VE("tau", 'F');                      \
        if (long w = c.i("wk")) {                                            \
            auto W = c.work<T, lay<a>::v>(f##_worksize<T>(A, tau), w);       \
            c.setint(f##_work(A, tau, W));                                   \
        }                                                                    \
        else c.setint(f(A, tau));                                            \
    }
UNG2(ung2r) UNG2(ung2l) UNG2(ungl2) UNG2(ungr2)
#define UNGB(f, Opt)                                                         \
    template <class T, char a> void f##_(Ctx& c)                             \
    {                                                                        \
        auto A = MA("A", a); auto tau = VE("tau", 'F');                      \
        Opt o; o.nb = c.i("nb");                                             \
        c.setint(f(A, tau, o));                                              \
    }
UNGB(ungqr, UngqrOpts) UNGB(unglq, UnglqOpts) UNGB(ungql, UngqlOpts) UNGB(ungrq, UngrqOpts)
template <class T, char a> void ungq_(Ctx& c)
{
    auto A = MA("A", a); auto tau = VE("tau", 'F');
    auto dr = c.direc("direc"); auto sv = c.storev("storev");
    UngqOpts o; o.nb = c.i("nb");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<a>::v>(ungq_worksize<T>(dr, sv, A, tau, o), w);
        c.setint(ungq_work(dr, sv, A, tau, W, o));
    }
    else c.setint(ungq(dr, sv, A, tau, o));
}
template <class T, char a> void ungq_level2_(Ctx& c)
{
    auto A = MA("A", a); auto tau = VE("tau", 'F');
    auto dr = c.direc("direc"); auto sv = c.storev("storev");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<a>::v>(ungq_level2_worksize<T>(dr, sv, A, tau), w);
        c.setint(ungq_level2_work(dr, sv, A, tau, W));
    }
    else c.setint(ungq_level2(dr, sv, A, tau));
}
template <class T, char a> void gen_householder_q_(Ctx& c)
{
    auto A = MA("A", a); auto tau = VE("tau", 'F');
    auto dr = c.direc("direc"); auto sv = c.storev("storev");
    GenHouseholderQOpts o; o.nb = c.i("nb");
    o.variant = c.str("variant") == "2" ? GenHouseholderQVariant::Level2 : GenHouseholderQVariant::Blocked;
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<a>::v>(gen_householder_q_worksize<T>(dr, sv, A, tau, o), w);
        c.setint(gen_householder_q_work(dr, sv, A, tau, W, o));
    }
    else c.setint(gen_householder_q(dr, sv, A, tau, o));
}
template <class T, char a> void trge_ung2r_(Ctx& c)
{
    auto A = MA("A", a); std::vector<T> tau;
    auto t = VE("tau", 'F');
    for (idx i = 0; i < (idx)size(t); ++i) tau.push_back(t[i]);
    trge_ung2r(A, tau);
}

// ---- measured factorizations
template <class T, char a> void n_fact_(Ctx& c)
{
    string alg = c.str("alg");
    idx m = c.i("m"), n = c.i("n"), nb = c.i("nb", 32), k = std::min(m, n);
    long wk = c.i("wk", 0);
    constexpr Layout L = lay<a>::v;
    Rng g(c.i("seed"));
    PM<T, L> A(m, n);
    XM A0 = rnd_into(A, g, c.i("kind"));
    PV<T> tau(k, 1);
    char kind = c.str("fk")[0];
    long ret = 0;
    Rec r;
    auto Av = A.v();
    auto tv = tau.vc();
#define CASE2(name)                                                        \
    if (alg == #name) {                                                    \
        if (wk) {                                                          \
            auto W = c.work<T, L>(name##_worksize<T>(Av, tv), wk);         \
            ret = name##_work(Av, tv, W);                                  \
        }                                                                  \
        else ret = name(Av, tv);                                           \
    }
#define CASEB(name, Opt, setup)                                            \
    if (alg == #name) {                                                    \
        Opt o; o.nb = nb; setup;                                           \
        if (wk) {                                                          \
            auto W = c.work<T, L>(name##_worksize<T>(Av, tv, o), wk);      \
            ret = name##_work(Av, tv, W, o);                               \
        }                                                                  \
        else ret = name(Av, tv, o);                                        \
    }
#define SV(E) o.variant = c.str("variant") == "2" ? E::Level2 : E::Blocked
    CASE2(geqr2) CASE2(gelq2) CASE2(geql2) CASE2(gerq2)
    CASEB(geqrf, GeqrfOpts, ) CASEB(gelqf, GelqfOpts, ) CASEB(geqlf, GeqlfOpts, ) CASEB(gerqf, GerqfOpts, )
    CASEB(householder_qr, HouseholderQROpts, SV(HouseholderQRVariant))
    CASEB(householder_lq, HouseholderLQOpts, SV(HouseholderLQVariant))
    CASEB(householder_ql, HouseholderQLOpts, SV(HouseholderQLVariant))
    CASEB(householder_rq, HouseholderRQOpts, SV(HouseholderRQVariant))
    long terr = 0, tpad = 1;
    if (alg == "geqrt3") {
        PM<T, L> TT(n, n);
        auto Tv = TT.v();
        Geqrt3Opts o; o.nx = nb; o.isw = c.i("isw");
        geqrt3(Av, Tv, o);
        for (idx i = 0; i < n; ++i) tau[i] = TT.at(i, i);
        tpad = TT.pad_ok();
        if (!o.isw) {
            Refl R = refl(A.get(), tau.get(), 'q');
            XM V(m, k), Tm = tri(TT.get(), 'U');
            for (idx i = 0; i < k; ++i)
                for (idx p = 0; p < m; ++p) V(p, i) = R.v[i][p];
            terr = diffU<T>(sub(eye(m, m), mul(V, mul(Tm, ct(V)))), qfull(R), 1);
        }
    }
    if (alg == "gelqt") {
        PM<T, L> TT(m, nb);
        auto Tv = TT.v();
        if (wk) {
            auto W = c.work<T, L>(gelqt_worksize<T>(Av, Tv), wk);
            ret = gelqt_work(Av, Tv, W);
        }
        else ret = gelqt(Av, Tv);
        tpad = TT.pad_ok();
        for (idx i = 0; i < k; ++i) tau[i] = TT.at(i, i % nb);
        XM X = A.get();
        auto tg = tau.get();
        Refl R = refl(X, tg, 'l');
        for (idx j = 0; j < k; j += nb) {
            idx ib = std::min(nb, k - j);
            XM V(n, ib), Tm(ib, ib), P = eye(n, n);
            for (idx i = 0; i < ib; ++i) {
                for (idx p = 0; p < n; ++p) V(p, i) = R.v[j + i][p];
                for (idx l = 0; l <= i; ++l) Tm(l, i) = lc(TT.at(j + l, i));
            }
            for (idx i = ib; i-- > 0;) reflL(P, R.v[j + i], tg[j + i]);
            terr = std::max(terr, diffU<T>(sub(eye(n, n), mul(V, mul(Tm, ct(V)))), P, 1));
        }
    }
    if (alg == "trge_qr2") {
        // triangle on top of a general block: m > n rows, top n x n upper triangular
        for (idx j = 0; j < n; ++j)
            for (idx i = j + 1; i < n; ++i) A.at(i, j) = T(0);
        A0 = A.get();
        PM<T, L> B = A;
        Poison<T, L> pz(c);
        for (idx j = 0; j < n; ++j)
            for (idx i = j + 1; i < n; ++i) pz.at(B, i, j);  // not referenced
        auto Bv = B.v();
        trge_qr2(Bv, tv);
        r.put("unref", pz.untouched(B));
        pz.clear(B);
        A = B;
    }
    XM X = A.get();
    Refl R = refl(X, tau.get(), kind);
    if (alg == "trge_qr2") for (idx i = 0; i < k; ++i) for (idx p = i + 1; p < n; ++p) R.v[i][p] = 0;
    XM Q = qfull(R), F(m, n);
    // triangular or trapezoidal factor
    LR dimag = 0;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < m; ++i) {
            long d = kind == 'q' || kind == 'l' ? (long)i - (long)j : ((long)i - (long)j) - ((long)m - (long)n);
            bool up = kind == 'q' || kind == 'R';
            if (alg == "trge_qr2" ? i <= j : up ? d <= 0 : d >= 0) F(i, j) = X(i, j);
            if (d == 0) dimag = std::max(dimag, fabsl(X(i, j).imag()));
        }
    XM P = R.rowwise() ? mul(F, Q) : mul(Q, F);
    LR na = nrm(A0);
    r.put("ret", ret);
    r.put("pad", A.pad_ok() && tau.pad_ok() && tpad);
    r.put("res", U(nrm(sub(P, A0)), na * std::max<LR>(1, std::max(m, n)), epsof<T>()));
    r.put("tau", tauU<T>(R));
    r.put("dreal", dimag == 0);
    r.put("T", terr);
    // explicit unitary factor
    long gerr = 0, orth = 0, gpad = 1, gret = 0;
    if (alg != "trge_qr2") {
        string gen = c.str("gen");
        idx w = c.i("w");  // generated columns (rows), k <= w <= q
        PM<T, L> G(R.rowwise() ? w : m, R.rowwise() ? n : w);
        for (idx j = 0; j < G.n; ++j)
            for (idx i = 0; i < G.m; ++i) {
                idx ii = i, jj = j;
                if (kind == 'L') { if (j + k < w) { G.at(i, j) = T(7); continue; } jj = n - w + j; }
                if (kind == 'R') { if (i + k < w) { G.at(i, j) = T(7); continue; } ii = m - w + i; }
                G.at(i, j) = (ii < m && jj < n) ? A.at(ii, jj) : T(7);
            }
        auto Gv = G.v();
        auto dr = kind == 'q' || kind == 'l' ? Direction::Forward : Direction::Backward;
        auto sv = R.rowwise() ? StoreV::Rowwise : StoreV::Columnwise;
        if (gen == "2") gret = ungq_level2(dr, sv, Gv, tv);
        else { UngqOpts o; o.nb = c.i("gnb"); gret = ungq(dr, sv, Gv, tv, o); }
        XM GX = G.get();
        bool fw = kind == 'q' || kind == 'l';
        XM E = R.rowwise() ? block(Q, fw ? 0 : n - w, 0, w, n) : block(Q, 0, fw ? 0 : m - w, m, w);
        gerr = diffU<T>(GX, E, 1);
        orth = orthoU<T>(R.rowwise() ? ct(GX) : GX);
        gpad = G.pad_ok();
    }
    r.put("gret", gret); r.put("gpad", gpad); r.put("gerr", gerr); r.put("orth", orth);
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(ung2r_) ALL1(ung2l_) ALL1(ungl2_) ALL1(ungr2_) ALL1(ungqr_) ALL1(unglq_) ALL1(ungql_) ALL1(ungrq_)
ALL1(ungq_) ALL1(ungq_level2_) ALL1(gen_householder_q_) ALL1(trge_ung2r_) ALL1(n_fact_)
