// Helpers for the iterations on Hessenberg matrices and Hessenberg-triangular pairs.
#ifndef VERIF_HESS_HPP
#define VERIF_HESS_HPP
#include "eig.hpp"
namespace nm {
using namespace vf;
using namespace tlapack;
/// smallest singular value of the k-by-k matrix M, from above: min |Mx| over a few inverse iterations
inline LR smin(const XM& M, Rng& g)
{
    idx n = M.n;
    if (n == 0) return 0;
    XM F = M;
    vector<idx> p(n);
    LR big = nmax(M);
    LR tiny = (big > 0 ? big : 1) * 1e-25L;
    for (idx j = 0; j < n; ++j) {
        idx q = j;
        for (idx i = j + 1; i < n; ++i) if (absl(F(i, j)) > absl(F(q, j))) q = i;
        p[j] = q;
        if (q != j) for (idx k = 0; k < n; ++k) std::swap(F(j, k), F(q, k));
        if (absl(F(j, j)) < tiny) F(j, j) = tiny;
        for (idx i = j + 1; i < n; ++i) {
            if (F(i, j) == LC(0)) continue;
            F(i, j) = cdivL(F(i, j), F(j, j));
            for (idx k = j + 1; k < n; ++k) F(i, k) -= cmul(F(i, j), F(j, k));
        }
    }
    vector<LC> x(n);
    for (auto& z : x) z = lc(g.val<Z>());
    LR best = -1;
    for (int rep = 0; rep < 6; ++rep) {
        // x := F^-1 x, then x := F^-H x
        for (idx j = 0; j < n; ++j) if (p[j] != j) std::swap(x[j], x[p[j]]);
        for (idx j = 0; j < n; ++j) for (idx i = j + 1; i < n; ++i) x[i] -= cmul(F(i, j), x[j]);
        for (idx j = n; j-- > 0;) { x[j] = cdivL(x[j], F(j, j)); for (idx i = 0; i < j; ++i) x[i] -= cmul(F(i, j), x[j]); }
        LR s = 0, t = 0;
        for (auto& z : x) s = std::max(s, absl(z));
        if (!(s > 0) || !std::isfinite(s)) return best < 0 ? 0 : best;
        for (auto& z : x) z /= s;
        for (auto& z : x) t += absl(z) * absl(z);
        t = sqrtl(t);
        LR r = 0;
        for (idx i = 0; i < n; ++i) { LC q = 0; for (idx j = 0; j < n; ++j) q += cmul(M(i, j), x[j]); r += absl(q) * absl(q); }
        r = sqrtl(r) / t;
        if (best < 0 || r < best) best = r;
        for (idx j = 0; j < n; ++j) { for (idx i = 0; i < j; ++i) x[j] -= cmul(std::conj(F(i, j)), x[i]); x[j] = cdivL(x[j], std::conj(F(j, j))); }
        for (idx j = n; j-- > 0;) for (idx i = j + 1; i < n; ++i) x[j] -= cmul(std::conj(F(i, j)), x[i]);
        for (idx j = n; j-- > 0;) if (p[j] != j) std::swap(x[j], x[p[j]]);
        s = 0;
        for (auto& z : x) s = std::max(s, absl(z));
        if (!(s > 0) || !std::isfinite(s)) return best;
        for (auto& z : x) z /= s;
    }
    return best;
}
/// Hessenberg test matrices
template <class T, Layout L> void hess_into(PM<T, L>& A, Rng& g, long kind, idx ilo, idx ihi)
{
    using R = real_type<T>;
    idx n = A.n;
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < n; ++i) {
            T v = g.val<T>();
            switch (kind) {
                case 1: v = g.ival<T>(2); break;                                   // small integers
                case 2: v = v * T(R(ldexp(1.0, -int((i + j) % 14)))); break;        // graded
                case 3: if (i == j + 1 && g.u01() < .3) v = T(0); break;            // splits
                case 4: v = (i == j + 1 || (j + 1 == ihi && i == ilo)) ? T(1) : T(0); break;   // cyclic permutation
                case 5: if (j > i + 1) v = T(0); if (i == j) v = T(real(v)); break;  // Hermitian tridiagonal
                case 6: v = j == i ? T(1) : (j == i + 1 ? T(1) : T(0)); if (i == j + 1 && g.u01() < .5) v = T(R(ldexp(1.0, -30))); break;   // nearly a Jordan block
                case 7: if (i == j + 1) v = v * T(R(ldexp(1.0, -g.in(0, 60)))); break;    // tiny subdiagonals
                case 8: v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? 60 : 400))); break;
                case 9: v = v * T(R(ldexp(1.0, sizeof(R) == 4 ? -50 : -400))); break;
                case 10: if (j > i) v = (j + 1 == ihi) ? g.val<T>() : T(0); if (i == j) v = T(0); if (i == j + 1) v = T(1); break;  // companion
                case 11: v = T(0); if (i == j + 1) v = (i % 2) ? T(-1) : T(0); if (j == i + 1) v = (j % 2) ? T(1) : T(R(.5)); break; // rotations
                case 12: if (i == j) v = T(1); break;                              // equal diagonal
                default: break;
            }
            A.at(i, j) = v;
        }
    // Hermitian case needs the lower entry before the upper one: fill again
    if (kind == 5)
        for (idx i = 0; i + 1 < n; ++i) A.at(i, i + 1) = conj(A.at(i + 1, i));
    for (idx j = 0; j < n; ++j)
        for (idx i = j + 1; i < n; ++i)
            if (i > j + 1) A.at(i, j) = T(0);
    // isolate the active block; the parts before and after are (quasi-)triangular
    for (idx j = 0; j + 1 < n; ++j)
        if (j + 1 <= ilo || j + 1 >= ihi) A.at(j + 1, j) = T(0);
    if constexpr (is_real<T>)
        for (idx j = ihi; j + 1 < n; j += 3) {
            A.at(j + 1, j + 1) = A.at(j, j);
            A.at(j, j + 1) = T(1); A.at(j + 1, j) = T(R(-.25));
        }
}
inline XM hesspart(const XM& A)
{
    XM B = A;
    for (idx j = 0; j < B.n; ++j) for (idx i = j + 2; i < B.m; ++i) B(i, j) = 0;
    return B;
}
}  // namespace nm
#endif
