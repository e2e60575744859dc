// Measuring instruments for the floating-point contracts.  Everything here is
// plain loops in long double, independent of the library under test.  A
// measurement is an integer: an error expressed in units in the last place of
// a stated scale (rounded up), a count, a position, or a 0/1 fact.  The
// specification (spec/Num.tla) decides which measurements are acceptable.
#ifndef VERIF_NUM_HPP
#define VERIF_NUM_HPP
#include "core.hpp"
#include <algorithm>
#include <functional>

namespace nm {
using LR = long double;
using LC = std::complex<long double>;
using std::string;
using std::vector;
using tlapack::Layout;
using tlapack::real_type;
using tlapack::is_complex;
using idx = std::size_t;
constexpr long BIG = 1000000000;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull)
    {
        for (int i = 0; i < 4; ++i) next();
    }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u01() { return (next() >> 11) * 0x1.0p-53; }
    double sym() { return 2 * u01() - 1; }
    long in(long lo, long hi) { return lo + long(next() % uint64_t(hi - lo + 1)); }
    template <class T> T val()
    {
        if constexpr (is_complex<T>) {
            double a = sym(), b = sym();
            return T(a, b);
        }
        else
            return T(sym());
    }
    template <class T> T ival(long k)
    {
        if constexpr (is_complex<T>) {
            double a = in(-k, k), b = in(-k, k);
            return T(a, b);
        }
        else
            return T(in(-k, k));
    }
};

template <class T> constexpr LR epsof()
{
    return std::numeric_limits<real_type<T>>::epsilon();
}
inline LC lc(float x) { return LC(x, 0); }
inline LC lc(double x) { return LC(x, 0); }
inline LC lc(LR x) { return LC(x, 0); }
template <class R> inline LC lc(std::complex<R> z) { return LC(z.real(), z.imag()); }
template <class T> T narrow(LC z)
{
    if constexpr (is_complex<T>)
        return T(real_type<T>(z.real()), real_type<T>(z.imag()));
    else
        return T(z.real());
}
inline LR absl(LC z) { return hypotl(z.real(), z.imag()); }
inline bool fin(LC z) { return std::isfinite(z.real()) && std::isfinite(z.imag()); }

/// dense matrix in long double
struct XM {
    idx m = 0, n = 0;
    vector<LC> a;
    XM() {}
    XM(idx m_, idx n_) : m(m_), n(n_), a(m_ * n_, LC(0)) {}
    LC& operator()(idx i, idx j) { return a[i + j * m]; }
    const LC& operator()(idx i, idx j) const { return a[i + j * m]; }
};
inline XM eye(idx m, idx n)
{
    XM A(m, n);
    for (idx i = 0; i < std::min(m, n); ++i) A(i, i) = 1;
    return A;
}
inline XM ct(const XM& A)
{
    XM B(A.n, A.m);
    for (idx i = 0; i < A.m; ++i)
        for (idx j = 0; j < A.n; ++j) B(j, i) = std::conj(A(i, j));
    return B;
}
inline XM tr(const XM& A)
{
    XM B(A.n, A.m);
    for (idx i = 0; i < A.m; ++i)
        for (idx j = 0; j < A.n; ++j) B(j, i) = A(i, j);
    return B;
}
inline LC cmul(LC a, LC b)
{
    return LC(a.real() * b.real() - a.imag() * b.imag(),
              a.real() * b.imag() + a.imag() * b.real());
}
inline XM mul(const XM& A, const XM& B)
{
    if (A.n != B.m) throw vf::BadProgram("mul");
    XM C(A.m, B.n);
    for (idx j = 0; j < B.n; ++j)
        for (idx l = 0; l < A.n; ++l) {
            LC b = B(l, j);
            for (idx i = 0; i < A.m; ++i) C(i, j) += cmul(A(i, l), b);
        }
    return C;
}
inline XM sub(const XM& A, const XM& B)
{
    XM C(A.m, A.n);
    if (A.m != B.m || A.n != B.n) throw vf::BadProgram("sub");
    for (idx i = 0; i < A.a.size(); ++i) C.a[i] = A.a[i] - B.a[i];
    return C;
}
inline XM add(const XM& A, const XM& B)
{
    XM C(A.m, A.n);
    for (idx i = 0; i < A.a.size(); ++i) C.a[i] = A.a[i] + B.a[i];
    return C;
}
inline XM scale(LC s, const XM& A)
{
    XM C = A;
    for (auto& x : C.a) x = cmul(s, x);
    return C;
}
inline XM block(const XM& A, idx i0, idx j0, idx m, idx n)
{
    XM B(m, n);
    for (idx i = 0; i < m; ++i)
        for (idx j = 0; j < n; ++j) B(i, j) = A(i0 + i, j0 + j);
    return B;
}
/// Frobenius norm; infinite if any entry is not finite
inline LR nrm(const XM& A)
{
    LR s = 0;
    for (auto& z : A.a) {
        if (!fin(z)) return INFINITY;
        s += z.real() * z.real() + z.imag() * z.imag();
    }
    return sqrtl(s);
}
inline LR nmax(const XM& A)
{
    LR s = 0;
    for (auto& z : A.a) {
        if (!fin(z)) return INFINITY;
        s = std::max(s, absl(z));
    }
    return s;
}
inline XM tri(const XM& A, char uplo, bool unit = false)
{
    XM B(A.m, A.n);
    for (idx i = 0; i < A.m; ++i)
        for (idx j = 0; j < A.n; ++j)
            if (uplo == 'U' ? i <= j : i >= j) B(i, j) = (i == j && unit) ? LC(1) : A(i, j);
    return B;
}
inline XM herm(const XM& A, char uplo)
{
    XM B(A.m, A.n);
    for (idx i = 0; i < A.m; ++i)
        for (idx j = 0; j < A.n; ++j)
            B(i, j) = i == j ? LC(A(i, i).real())
                      : (uplo == 'U' ? i < j : i > j) ? A(i, j)
                                                      : std::conj(A(j, i));
    return B;
}

/// error in units of eps*scale, rounded up
inline long U(LR err, LR scale, LR eps)
{
    vf::note(double(err));
    if (!(std::isfinite(err)) || !std::isfinite(scale)) return BIG;
    if (err == 0) return 0;
    if (scale == 0) return BIG;
    LR q = ceill(err / (eps * scale));
    return q > BIG ? BIG : (long)q;
}
template <class T> long orthoU(const XM& Q)  // columns
{
    XM E = sub(mul(ct(Q), Q), eye(Q.n, Q.n));
    return U(nrm(E), std::max<LR>(1, Q.m), epsof<T>());
}
/// || A - B || relative to scale (default ||A||), in ulps times dimension
template <class T> long diffU(const XM& A, const XM& B, LR scale = -1)
{
    if (scale < 0) scale = nrm(A);
    return U(nrm(sub(A, B)), scale * std::max<LR>(1, std::max(A.m, A.n)), epsof<T>());
}

struct Rec {
    string s = "{";
    void key(const char* k)
    {
        if (s.size() > 1) s += ",";
        s += "\"";
        s += k;
        s += "\":";
    }
    void put(const char* k, long v) { key(k); s += std::to_string(v); }
    void puts(const char* k, const string& v) { key(k); s += "\"" + v + "\""; }
    void arr(const char* k, const vector<long>& v)
    {
        key(k);
        s += "[";
        for (size_t i = 0; i < v.size(); ++i) {
            if (i) s += ",";
            s += std::to_string(v[i]);
        }
        s += "]";
    }
    string done() const { return s + "}"; }
};

template <class T> T padv()
{
    if constexpr (is_complex<T>)
        return T(real_type<T>(-77777), real_type<T>(55555));
    else
        return T(-77777);
}
template <class T> bool is_pad(const T& x) { return x == padv<T>(); }

/// padded matrix in caller-style storage
template <class T, Layout L = Layout::ColMajor> struct PM {
    idx m, n, ld, off;
    vector<T> st;
    PM(idx m_, idx n_, idx pad = 2, idx off_ = 3) : m(m_), n(n_), off(off_)
    {
        ld = (L == Layout::ColMajor ? m : n) + pad;
        if (ld == 0) ld = 1;
        st.assign(off + ld * (L == Layout::ColMajor ? n : m) + off, padv<T>());
    }
    T& at(idx i, idx j)
    {
        return st[off + (L == Layout::ColMajor ? i + j * ld : i * ld + j)];
    }
    vf::MatT<T, L> v()
    {
        return vf::mkM<T, L>(m, n, st.data() + off, ld);
    }
    void set(const XM& X)
    {
        for (idx i = 0; i < m; ++i)
            for (idx j = 0; j < n; ++j) at(i, j) = narrow<T>(X(i, j));
    }
    XM get()
    {
        XM X(m, n);
        for (idx i = 0; i < m; ++i)
            for (idx j = 0; j < n; ++j) X(i, j) = lc(at(i, j));
        return X;
    }
    template <class F> void gen(F f)
    {
        for (idx i = 0; i < m; ++i)
            for (idx j = 0; j < n; ++j) at(i, j) = f(i, j);
    }
    bool pad_ok()
    {
        vector<char> own(st.size(), 0);
        for (idx i = 0; i < m; ++i)
            for (idx j = 0; j < n; ++j) own[&at(i, j) - st.data()] = 1;
        for (size_t k = 0; k < st.size(); ++k)
            if (!own[k] && !is_pad(st[k])) return false;
        return true;
    }
    bool same(PM& o)
    {
        return vf::same_bits(st.data(), o.st.data(), st.size());
    }
};
/// entries no routine may look at: NaN (pz=0), junk numbers (1), infinities (2).
/// Which of them is used must not show in any measurement.
template <class T, Layout L> struct Poison {
    int mode;
    Rng g;
    vector<std::pair<std::pair<idx, idx>, T>> put;
    Poison(vf::Ctx& c) : mode(c.i("pz", 0)), g(c.i("seed") + 77) {}
    real_type<T> one()
    {
        using R = real_type<T>;
        if (mode == 0) return R(NAN);
        return mode == 2 ? R(INFINITY) : R(g.in(1, 900) * (g.in(0, 1) ? 1 : -1));
    }
    T next()
    {
        if constexpr (is_complex<T>) { auto a = one(), b = one(); return T(a, b); }
        else return one();
    }
    void at(PM<T, L>& A, idx i, idx j) { A.at(i, j) = next(); put.push_back({{i, j}, A.at(i, j)}); }
    bool untouched(PM<T, L>& A)
    {
        for (auto& p : put)
            if (!vf::same_bits(&A.at(p.first.first, p.first.second), &p.second, 1)) return false;
        return true;
    }
    /// forget the poison, so that the matrix can be used as a whole
    void clear(PM<T, L>& A)
    {
        for (auto& p : put) A.at(p.first.first, p.first.second) = T(0);
    }
};
/// padded strided vector
template <class T> struct PV {
    idx n, inc, off;
    vector<T> st;
    PV(idx n_, idx inc_ = 1, idx off_ = 3) : n(n_), inc(inc_), off(off_)
    {
        st.assign(off + n * inc + off, padv<T>());
    }
    T& operator[](idx i) { return st[off + i * inc]; }
    auto v()
    {
        return vf::mkV<T, tlapack::Direction::Forward>(n, st.data() + off, (int)inc);
    }
    auto vc()
    {
        if (inc != 1) throw vf::BadProgram("vc");
        return vf::mkVC<T>(n, st.data() + off);
    }
    bool pad_ok()
    {
        for (size_t k = 0; k < st.size(); ++k) {
            bool own = k >= off && (k - off) % inc == 0 && (k - off) / inc < n;
            if (!own && !is_pad(st[k])) return false;
        }
        return true;
    }
    vector<LC> get()
    {
        vector<LC> r(n);
        for (idx i = 0; i < n; ++i) r[i] = lc((*this)[i]);
        return r;
    }
};
template <class T, Layout L> XM rnd_into(PM<T, L>& A, Rng& g, int kind = 0)
{
    // kinds: 0 uniform, 1 small integers, 2 graded rows, 3 sparse, 4 rank
    // deficient (columns repeat), 5 large scale, 6 tiny scale
    for (idx j = 0; j < A.n; ++j)
        for (idx i = 0; i < A.m; ++i) {
            T v = g.val<T>();
            if (kind == 1) v = g.ival<T>(3);
            if (kind == 2) v = v * T(real_type<T>(ldexp(1.0, -int(2 * ((i + j) % 12)))));
            if (kind == 3 && g.u01() < .6) v = T(0);
            if (kind == 4 && j > 0 && j % 2) v = A.at(i, j - 1);
            if (kind == 5) v = v * T(real_type<T>(ldexp(1.0, 40)));
            if (kind == 6) v = v * T(real_type<T>(ldexp(1.0, -40)));
            A.at(i, j) = v;
        }
    return A.get();
}
/// elementary reflectors I - tau v v^H stored in an array, as full vectors.
/// kind 'q' QR (forward columnwise), 'l' LQ (forward rowwise), 'L' QL
/// (backward columnwise), 'R' RQ (backward rowwise); rows hold v^H
struct Refl {
    vector<vector<LC>> v;
    vector<LC> tau;
    idx q = 0;
    char kind = 'q';
    bool rowwise() const { return kind == 'l' || kind == 'R'; }
};
inline Refl refl(const XM& A, const vector<LC>& tau, char kind)
{
    Refl r;
    r.kind = kind;
    r.tau = tau;
    idx k = tau.size();
    bool rw = r.rowwise(), fw = kind == 'q' || kind == 'l';
    idx q = r.q = rw ? A.n : A.m, w = rw ? A.m : A.n;
    for (idx i = 0; i < k; ++i) {
        vector<LC> v(q, LC(0));
        idx u = fw ? i : q - k + i, c = fw ? i : w - k + i;
        for (idx p = 0; p < q; ++p) {
            if (p == u) v[p] = 1;
            else if (fw ? p > u : p < u) v[p] = rw ? std::conj(A(c, p)) : A(p, c);
        }
        r.v.push_back(v);
    }
    return r;
}
/// B := (I - t v v^H) B
inline void reflL(XM& B, const vector<LC>& v, LC t)
{
    for (idx j = 0; j < B.n; ++j) {
        LC w = 0;
        for (idx i = 0; i < B.m; ++i) w += cmul(std::conj(v[i]), B(i, j));
        w = cmul(t, w);
        for (idx i = 0; i < B.m; ++i) B(i, j) -= cmul(v[i], w);
    }
}
/// the q x q unitary matrix: QR H1..Hk, QL Hk..H1, LQ Hk^H..H1^H, RQ H1^H..Hk^H
inline XM qfull(const Refl& r)
{
    XM Q = eye(r.q, r.q);
    idx k = r.tau.size();
    for (idx s = 0; s < k; ++s) {
        bool lastfirst = r.kind == 'q' || r.kind == 'R';  // apply index k-1 first
        idx i = lastfirst ? k - 1 - s : s;
        reflL(Q, r.v[i], r.rowwise() ? std::conj(r.tau[i]) : r.tau[i]);
    }
    return Q;
}
/// worst | |tau|^2 |v|^2 - 2 Re tau | in units of eps
template <class T> long tauU(const Refl& r)
{
    long w = 0;
    for (idx i = 0; i < r.tau.size(); ++i) {
        LR s = 0;
        for (auto& z : r.v[i]) s += z.real() * z.real() + z.imag() * z.imag();
        LR t = r.tau[i].real() * r.tau[i].real() + r.tau[i].imag() * r.tau[i].imag();
        LR e = fabsl(t * s - 2 * r.tau[i].real());
        w = std::max(w, U(e, std::max<LR>(1, r.v[i].size()), epsof<T>()));
    }
    return w;
}
}  // namespace nm
#endif
