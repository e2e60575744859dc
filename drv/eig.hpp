// Helpers for the eigenvalue drivers: random unitary matrices, (generalized)
// Schur forms with known blocks, eigenvalues of diagonal blocks.
#ifndef VERIF_EIG_HPP
#define VERIF_EIG_HPP
#include "num.hpp"
namespace nm {
/// random unitary matrix (real for real T), modified Gram-Schmidt twice
template <class T> XM runitary(Rng& g, idx n)
{
    XM Q(n, n);
    for (idx j = 0; j < n; ++j) {
        for (;;) {
            for (idx i = 0; i < n; ++i) Q(i, j) = lc(g.val<T>());
            for (int rep = 0; rep < 2; ++rep)
                for (idx k = 0; k < j; ++k) {
                    LC s = 0;
                    for (idx i = 0; i < n; ++i) s += cmul(std::conj(Q(i, k)), Q(i, j));
                    for (idx i = 0; i < n; ++i) Q(i, j) -= cmul(Q(i, k), s);
                }
            LR s = 0;
            for (idx i = 0; i < n; ++i) s += absl(Q(i, j)) * absl(Q(i, j));
            if (s < 1e-4L) continue;
            s = sqrtl(s);
            for (idx i = 0; i < n; ++i) Q(i, j) /= s;
            break;
        }
    }
    return Q;
}
template <class T> XM rounded(const XM& A)
{
    XM B = A;
    for (auto& z : B.a) z = lc(narrow<T>(z));
    return B;
}
inline LC csqrtL(LC z)
{
    LR r = absl(z), a = sqrtl((r + fabsl(z.real())) / 2);
    if (a == 0) return 0;
    LR b = z.imag() / (2 * a);
    return z.real() >= 0 ? LC(a, b) : LC(fabsl(b), z.imag() >= 0 ? a : -a);
}
inline LC cdivL(LC a, LC b)
{
    LR s = std::max(fabsl(b.real()), fabsl(b.imag()));
    b /= s;
    LR d = b.real() * b.real() + b.imag() * b.imag();
    return cmul(a, std::conj(b)) / (d * s);
}
/// the two roots of a x^2 + b x + c as projective pairs
struct Pt { LC a, b; };
inline LR chord(Pt p, Pt q)
{
    LR np = sqrtl(absl(p.a) * absl(p.a) + absl(p.b) * absl(p.b)), nq = sqrtl(absl(q.a) * absl(q.a) + absl(q.b) * absl(q.b));
    if (!(np > 0) || !(nq > 0) || !std::isfinite(np * nq)) return 9;
    return absl(cmul(p.a, q.b) - cmul(q.a, p.b)) / (np * nq);
}
/// generalized eigenvalues of the 2x2 pair (A, B): alpha/beta
inline void geig2(LC a11, LC a12, LC a21, LC a22, LC b11, LC b12, LC b21, LC b22, Pt& p, Pt& q)
{
    // det(A - x B) = qa x^2 + qb x + qc
    LC qa = cmul(b11, b22) - cmul(b12, b21), qc = cmul(a11, a22) - cmul(a12, a21);
    LC qb = cmul(a12, b21) + cmul(a21, b12) - cmul(a11, b22) - cmul(a22, b11);
    LC d = csqrtL(cmul(qb, qb) - LC(4) * cmul(qa, qc));
    LC t = (qb.real() * d.real() + qb.imag() * d.imag()) >= 0 ? -(qb + d) : -(qb - d);
    // roots t/(2 qa) and (2 qc)/t
    p = {t, LC(2) * qa};
    q = {LC(2) * qc, t};
    if (t == LC(0)) { p = {LC(0), LC(1)}; q = p; if (qa == LC(0)) p.b = 0, p.a = 1; }
}
inline void eig2(LC a, LC b, LC c, LC d, Pt& p, Pt& q) { geig2(a, b, c, d, 1, 0, 0, 1, p, q); }
/// the sizes of the diagonal blocks of a quasi-triangular matrix; -1 marks a
/// run of more than one nonzero subdiagonal entry
inline vector<long> blocks(const XM& A)
{
    vector<long> s;
    for (idx j = 0; j < A.n;) {
        idx e = j;
        while (e + 1 < A.n && A(e + 1, e) != LC(0)) ++e;
        s.push_back(e - j <= 1 ? long(e - j + 1) : -1);
        j = e + 1;
    }
    return s;
}
/// everything below the first subdiagonal is exactly zero
inline bool hessOK(const XM& A, idx k = 1)
{
    for (idx j = 0; j < A.n; ++j)
        for (idx i = j + k + 1; i < A.m; ++i)
            if (A(i, j) != LC(0)) return false;
    return true;
}
/// run, mapping the library's own runtime failures to a code
template <class F> long coded(F f)
{
    try { return f(); }
    catch (const std::runtime_error&) { return -777; }
}
}  // namespace nm
#endif
