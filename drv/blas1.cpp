#include "core.hpp"
using namespace vf;
using namespace tlapack;
#define VE(k, l) c.V<T, dir<l>::v>(k)
#define REAL real_type<T>

template <class T, char dx, char dy> void copy_(Ctx& c)
{
    auto x = VE("x", dx); auto y = VE("y", dy);
    tlapack::copy(x, y);
}
template <class T, char dx, char dy> void swap_(Ctx& c)
{
    auto x = VE("x", dx); auto y = VE("y", dy);
    tlapack::swap(x, y);
}
template <class T, char dx, char dy> void axpy_(Ctx& c)
{
    auto x = VE("x", dx); auto y = VE("y", dy);
    axpy(c.scal<T>("alpha"), x, y);
}
template <class T, char dx, char dy> void dot_(Ctx& c)
{
    auto x = VE("x", dx); auto y = VE("y", dy);
    c.setret(T(dot(x, y)));
}
template <class T, char dx, char dy> void dotu_(Ctx& c)
{
    auto x = VE("x", dx); auto y = VE("y", dy);
    c.setret(T(dotu(x, y)));
}
template <class T, char dx, char dy> void rot_(Ctx& c)
{
    auto x = VE("x", dx); auto y = VE("y", dy);
    rot(x, y, c.scal<REAL>("c"), c.scal<T>("s"));
}
template <class T, char dx, char dy> void rotm_(Ctx& c)
{
    if constexpr (is_real<T>) {
        auto x = VE("x", dx); auto y = VE("y", dy);
        T h[4] = {c.scal<T>("h11"), c.scal<T>("h21"), c.scal<T>("h12"), c.scal<T>("h22")};
        switch (c.i("flag")) {
            case -2: rotm<-2>(x, y, h); break;
            case -1: rotm<-1>(x, y, h); break;
            case 0: rotm<0>(x, y, h); break;
            case 1: rotm<1>(x, y, h); break;
        }
    }
}
template <class T, char dx> void scal_(Ctx& c)
{
    auto x = VE("x", dx);
    if (c.has("ralpha")) scal(c.scal<REAL>("ralpha"), x);
    else scal(c.scal<T>("alpha"), x);
}
template <class T, char dx> void asum_(Ctx& c)
{
    auto x = VE("x", dx);
    c.setret(REAL(asum(x)));
}
template <class T, char dx> void nrm2_(Ctx& c)
{
    auto x = VE("x", dx);
    c.setret(REAL(nrm2(x)));
}
template <class T, char dx> void iamax_(Ctx& c)
{
    auto x = VE("x", dx);
    string k = c.str("kind");
    auto a1 = [](const T& v) -> REAL { return abs1(v); };
    auto a2 = [](const T& v) -> REAL { return tlapack::abs(v); };
    long r = -1;
    if (k == "def") r = iamax(x);
    else if (k == "ec") r = iamax_ec(x, a1);
    else if (k == "nc") r = iamax_nc(x, a1);
    else if (k == "optec") { IamaxOpts<decltype(a1)> o(a1); o.ec.nan = true; r = iamax(x, o); }
    else if (k == "optnc") { IamaxOpts<decltype(a1)> o(a1); o.ec.nan = false; r = iamax(x, o); }
    else if (k == "abs") r = iamax(x, IamaxOpts<decltype(a2)>(a2));
    c.setint(r);
}
#define ALL2(op)                                                    \
    VR2(op, d, D, F, F) VR2(op, d, D, F, B) VR2(op, d, D, B, F)     \
    VR2(op, d, D, B, B) VR2(op, z, Z, F, F) VR2(op, z, Z, F, B)     \
    VR2(op, z, Z, B, F) VR2(op, z, Z, B, B) VR2(op, s, S, F, F)     \
    VR2(op, c, vf::C, F, F)
#define ALL1(op)                                                    \
    VR1(op, d, D, F) VR1(op, d, D, B) VR1(op, z, Z, F) VR1(op, z, Z, B) \
    VR1(op, s, S, F) VR1(op, c, vf::C, F)
ALL2(copy_) ALL2(swap_) ALL2(axpy_) ALL2(dot_) ALL2(dotu_) ALL2(rot_)
ALL2(rotm_) ALL1(scal_) ALL1(asum_) ALL1(nrm2_) ALL1(iamax_)
