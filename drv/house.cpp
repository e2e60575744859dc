// Householder reflectors, block reflectors and implicitly stored unitary matrices.
#include "core.hpp"
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larfb.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unmhr.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmrq.hpp>
using namespace vf;
using namespace tlapack;
#define MA(k, l) c.M<T, lay<l>::v>(k)
#define VE(k, d) c.V<T, dir<d>::v>(k)

// layouts: V/x, C
template <class T, char a, char b> void larf_(Ctx& c)
{
    auto x = VE("x", a); auto C0 = VE("C0", a); auto C1 = MA("C1", b);
    auto sd = c.side("side"); auto sv = c.storev("storev"); T tau = c.scal<T>("tau");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<b>::v>(larf_worksize<T>(sd, sv, x, tau, C0, C1), w);
        larf_work(sd, sv, x, tau, C0, C1, W);
    }
    else larf(sd, sv, x, tau, C0, C1);
}
template <class T, char a, char b> void larfv_(Ctx& c)
{
    auto v = VE("v", a); auto C = MA("C", b);
    auto sd = c.side("side"); auto dr = c.direc("direc"); auto sv = c.storev("storev"); T tau = c.scal<T>("tau");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<b>::v>(larf_worksize<T>(sd, dr, sv, v, tau, C), w);
        larf_work(sd, dr, sv, v, tau, C, W);
    }
    else larf(sd, dr, sv, v, tau, C);
}
template <class T, char a, char b> void larft_(Ctx& c)
{
    auto V = MA("V", a); auto Tm = MA("T", b); auto tau = VE("tau", 'F');
    c.setint(larft(c.direc("direc"), c.storev("storev"), V, tau, Tm));
}
template <class T, char a, char b> void larfb_(Ctx& c)
{
    auto V = MA("V", a); auto Tm = MA("T", a); auto C = MA("C", b);
    auto sd = c.side("side"); auto dr = c.direc("direc"); auto sv = c.storev("storev"); auto tr = c.op("trans");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<b>::v>(larfb_worksize<T>(sd, tr, dr, sv, V, Tm, C), w);
        c.setint(larfb_work(sd, tr, dr, sv, V, Tm, C, W));
    }
    else c.setint(larfb(sd, tr, dr, sv, V, Tm, C));
}
#define UNM2(f)                                                          \
    template <class T, char a, char b> void f##_(Ctx& c)                 \
    {                                                                    \
        auto V = MA("V", a); auto C = MA("C", b); auto tau = VE("tau", 'F'); \
        c.setint(f(c.side("side"), c.op("trans"), V, tau, C));           \
    }
UNM2(unm2r) UNM2(unm2l) UNM2(unml2) UNM2(unmr2)
#define UNMB(f, Opt)                                                     \
    template <class T, char a, char b> void f##_(Ctx& c)                 \
    {                                                                    \
        auto V = MA("V", a); auto C = MA("C", b); auto tau = VE("tau", 'F'); \
        Opt o; o.nb = c.i("nb");                                         \
        c.setint(f(c.side("side"), c.op("trans"), V, tau, C, o));        \
    }
UNMB(unmqr, UnmqrOpts) UNMB(unmlq, UnmlqOpts) UNMB(unmql, UnmqlOpts) UNMB(unmrq, UnmrqOpts)
template <class T, char a, char b> void unmq_(Ctx& c)
{
    auto V = MA("V", a); auto C = MA("C", b); auto tau = VE("tau", 'F');
    auto sd = c.side("side"); auto dr = c.direc("direc"); auto sv = c.storev("storev"); auto tr = c.op("trans");
    UnmqOpts o; o.nb = c.i("nb");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<b>::v>(unmq_worksize<T>(sd, tr, dr, sv, V, tau, C, o), w);
        c.setint(unmq_work(sd, tr, dr, sv, V, tau, C, W, o));
    }
    else c.setint(unmq(sd, tr, dr, sv, V, tau, C, o));
}
template <class T, char a, char b> void unmq_level2_(Ctx& c)
{
    auto V = MA("V", a); auto C = MA("C", b); auto tau = VE("tau", 'F');
    auto sd = c.side("side"); auto dr = c.direc("direc"); auto sv = c.storev("storev"); auto tr = c.op("trans");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<b>::v>(unmq_level2_worksize<T>(sd, tr, dr, sv, V, tau, C), w);
        c.setint(unmq_level2_work(sd, tr, dr, sv, V, tau, C, W));
    }
    else c.setint(unmq_level2(sd, tr, dr, sv, V, tau, C));
}
template <class T, char a, char b> void householder_q_mul_(Ctx& c)
{
    auto V = MA("V", a); auto C = MA("C", b); auto tau = VE("tau", 'F');
    auto sd = c.side("side"); auto dr = c.direc("direc"); auto sv = c.storev("storev"); auto tr = c.op("trans");
    HouseholderQMulOpts o; o.nb = c.i("nb");
    o.variant = c.str("variant") == "2" ? HouseholderQMulVariant::Level2 : HouseholderQMulVariant::Blocked;
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<b>::v>(householder_q_mul_worksize<T>(sd, tr, dr, sv, V, tau, C, o), w);
        c.setint(householder_q_mul_work(sd, tr, dr, sv, V, tau, C, W, o));
    }
    else c.setint(householder_q_mul(sd, tr, dr, sv, V, tau, C, o));
}
template <class T, char a> void unmhr_(Ctx& c)
{
    auto V = MA("V", a); auto C = MA("C", a); auto tau = VE("tau", 'F');
    auto sd = c.side("side"); auto tr = c.op("trans");
    idx lo = c.i("ilo"), hi = c.i("ihi");
    if (long w = c.i("wk")) {
        auto W = c.work<T, lay<a>::v>(unmhr_worksize<T>(sd, tr, lo, hi, V, tau, C), w);
        c.setint(unmhr_work(sd, tr, lo, hi, V, tau, C, W));
    }
    else c.setint(unmhr(sd, tr, lo, hi, V, tau, C));
}
#define ALLV(op) VR2(op, d, D, F, C) VR2(op, d, D, B, R) VR2(op, z, Z, F, C) VR2(op, z, Z, F, R) VR2(op, s, S, F, C) VR2(op, c, vf::C, F, R)
#define ALL2(op) VR2(op, d, D, C, C) VR2(op, d, D, R, R) VR2(op, d, D, C, R) VR2(op, z, Z, C, C) VR2(op, z, Z, R, R) VR2(op, z, Z, R, C) \
    VR2(op, s, S, C, C) VR2(op, c, vf::C, C, C)
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALLV(larf_) ALLV(larfv_) ALL2(larft_) ALL2(larfb_) ALL2(unm2r_) ALL2(unm2l_) ALL2(unml2_) ALL2(unmr2_)
ALL2(unmqr_) ALL2(unmlq_) ALL2(unmql_) ALL2(unmrq_) ALL2(unmq_) ALL2(unmq_level2_) ALL2(householder_q_mul_) ALL1(unmhr_)
