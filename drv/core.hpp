// Interpreter core of the conformance drivers.
//
// A driver reads a program of buffer definitions and library calls from stdin
// and writes, for every call, one line describing what the call did to the
// memory it was given: new contents of each buffer that changed, return value,
// kind of exception.  It knows nothing about what the calls should do; that is
// the specification's business.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP

#ifdef VF_EIGEN
    #include <tlapack/plugins/eigen.hpp>
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack.hpp>

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {

using tlapack::Layout;
using tlapack::Direction;
using std::string;
using idx = std::size_t;

/// digest of every raw measurement taken during the current call
inline std::uint64_t digest = 0;
inline void note(double x)
{
    std::uint64_t b;
    std::memcpy(&b, &x, 8);
    digest = (digest ^ b) * 1099511628211ull + 7;
}

/// what type 'd' of a program stands for
#ifdef VF_LD
using Real = long double;
#else
using Real = double;
#endif

/// identical representation (the padding of extended precision aside)
template <class T> inline bool same_bits(const T* a, const T* b, size_t n)
{
    using R = tlapack::real_type<T>;
    if constexpr (std::is_same_v<R, long double>) {
        auto x = reinterpret_cast<const R*>(a), y = reinterpret_cast<const R*>(b);
        for (size_t i = 0; i < n * (sizeof(T) / sizeof(R)); ++i)
            if (std::memcmp(x + i, y + i, 10)) return false;
        return true;
    }
    else
        return n == 0 || std::memcmp(a, b, n * sizeof(T)) == 0;
}

/// the kind of array the library is given
#ifdef VF_EIGEN
template <class T, Layout L>
using MatT = Eigen::Map<Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, L == Layout::ColMajor ? Eigen::ColMajor : Eigen::RowMajor>,
                        Eigen::Unaligned, Eigen::OuterStride<>>;
template <class T, Layout L> MatT<T, L> mkM(idx m, idx n, T* p, idx ld)
{
    return MatT<T, L>(p, m, n, Eigen::OuterStride<>(ld));
}
template <class T, Direction D> auto mkV(idx n, T* p, int inc)
{
    if constexpr (D == Direction::Forward)
        return Eigen::Map<Eigen::Matrix<T, Eigen::Dynamic, 1>, Eigen::Unaligned, Eigen::InnerStride<>>(p, n, Eigen::InnerStride<>(inc));
    else
        return tlapack::LegacyVector<T, idx, int, D>(n, p, inc);
}
template <class T> auto mkVC(idx n, T* p) { return Eigen::Map<Eigen::Matrix<T, Eigen::Dynamic, 1>>(p, n); }
#else
template <class T, Layout L> using MatT = tlapack::LegacyMatrix<T, idx, L>;
template <class T, Layout L> MatT<T, L> mkM(idx m, idx n, T* p, idx ld) { return MatT<T, L>(m, n, p, ld); }
template <class T, Direction D> auto mkV(idx n, T* p, int inc) { return tlapack::LegacyVector<T, idx, int, D>(n, p, inc); }
template <class T> auto mkVC(idx n, T* p) { return tlapack::LegacyVector<T, idx>(n, p); }
#endif

constexpr size_t GUARD = 64;  // elements on either side of each buffer

struct Buf {
    char t = 'd';
    size_t n = 0;
    size_t padlen = 0, padld = 0;    // workspaces: used part of each column
    std::vector<unsigned char> raw;  // guard | data | guard
    size_t es() const
    {
        return t == 's' ? 4 : t == 'd' ? sizeof(Real) : t == 'c' ? 8 : t == 'z' ? 2 * sizeof(Real) : 8;
    }
    unsigned char* data() { return raw.data() + GUARD * es(); }
    void alloc()
    {
        raw.assign((n + 2 * GUARD) * es(), 0xA5);
    }
    bool guards_ok() const
    {
        size_t g = GUARD * es();
        for (size_t i = 0; i < g; ++i)
            if (raw[i] != 0xA5 || raw[raw.size() - 1 - i] != 0xA5) return false;
        if (padld > padlen)
            for (size_t i = 0; i < n; ++i)
                if (i % padld >= padlen)
                    for (size_t b = 0; b < es(); ++b)
                        if (raw[(GUARD + i) * es() + b] != 0xA5) return false;
        return true;
    }
};

template <class T> struct tc;
template <> struct tc<float> { static constexpr char c = 's'; };
template <> struct tc<Real> { static constexpr char c = 'd'; };
template <> struct tc<std::complex<float>> { static constexpr char c = 'c'; };
template <> struct tc<std::complex<Real>> { static constexpr char c = 'z'; };
template <> struct tc<std::int64_t> { static constexpr char c = 'i'; };

struct BadProgram : std::logic_error {
    using std::logic_error::logic_error;
};

inline void put_real(string& s, double v, double den)
{
    char tmp[40];
    double x = v * den;
    if (std::isnan(v))
        s += "[0,0,1]";
    else if (std::isinf(v))
        s += v > 0 ? "[0,0,2]" : "[0,0,3]";
    else if (x != std::floor(x) || std::fabs(x) > 1e9)
        s += "[0,0,9]";
    else {
        snprintf(tmp, sizeof tmp, "[%ld,0]", (long)x);
        s += tmp;
    }
}
inline void put_val(string& s, double v, double den) { put_real(s, v, den); }
inline void put_val(string& s, long double v, double den)
{
    long double x = v * den;
    put_real(s, x == floorl(x) || !(fabsl(x) <= 1e9L) ? double(v) : 0.3, den);
}
inline void put_val(string& s, float v, double den) { put_real(s, v, den); }
inline void put_val(string& s, std::int64_t v, double)
{
    s += "[" + std::to_string(v) + ",0]";
}
template <class R>
inline void put_val(string& s, std::complex<R> z, double den)
{
    using W = std::conditional_t<(sizeof(R) > 8), long double, double>;
    W a = z.real(), b = z.imag();
    if (std::isnan(a) || std::isnan(b))
        s += "[0,0,1]";
    else if (std::isinf(a) || std::isinf(b))
        s += "[0,0,2]";
    else {
        W x = a * W(den), y = b * W(den);
        if (x != std::floor(x) || y != std::floor(y) || std::fabs(x) > 1e9 ||
            std::fabs(y) > 1e9)
            s += "[0,0,9]";
        else {
            char tmp[60];
            snprintf(tmp, sizeof tmp, "[%ld,%ld]", (long)x, (long)y);
            s += tmp;
        }
    }
}

struct Ctx {
    std::map<string, Buf> bufs;
    std::map<string, string> kv;
    string ret;  // JSON
    double den = 1;

    bool has(const char* k) const { return kv.count(k) > 0; }
    const string& str(const char* k) const
    {
        auto it = kv.find(k);
        if (it == kv.end()) throw BadProgram(string("missing arg ") + k);
        return it->second;
    }
    long i(const char* k) const { return atol(str(k).c_str()); }
    long i(const char* k, long d) const { return has(k) ? i(k) : d; }
    Buf& buf(const string& b)
    {
        auto it = bufs.find(b);
        if (it == bufs.end()) throw BadProgram("no buffer " + b);
        return it->second;
    }
    template <class T> T* at(const string& b, long off)
    {
        Buf& B = buf(b);
        if (B.t != tc<T>::c) throw BadProgram("type of buffer " + b);
        if (off < 0 || (size_t)off > B.n) throw BadProgram("offset in " + b);
        return reinterpret_cast<T*>(B.data()) + off;
    }
    static std::vector<string> split(const string& s, char c)
    {
        std::vector<string> r;
        size_t p = 0;
        for (;;) {
            size_t q = s.find(c, p);
            r.push_back(s.substr(p, q == string::npos ? q : q - p));
            if (q == string::npos) break;
            p = q + 1;
        }
        return r;
    }
    /// matrix view  buf:off:m:n:ld
    template <class T, Layout L>
    MatT<T, L> M(const char* k)
    {
        auto f = split(str(k), ':');
        if (f.size() != 5) throw BadProgram(string("matrix ") + k);
        return mkM<T, L>(
            atol(f[2].c_str()), atol(f[3].c_str()),
            at<T>(f[0], atol(f[1].c_str())), atol(f[4].c_str()));
    }
    /// vector view  buf:off:n:inc  (lowest address first, also for Backward)
    template <class T, Direction D>
    auto V(const char* k)
    {
        auto f = split(str(k), ':');
        if (f.size() != 4) throw BadProgram(string("vector ") + k);
        return mkV<T, D>(
            atol(f[2].c_str()), at<T>(f[0], atol(f[1].c_str())),
            atoi(f[3].c_str()));
    }
    /// contiguous vector view
    template <class T> auto VC(const char* k)
    {
        auto f = split(str(k), ':');
        if (f.size() != 4 || f[3] != "1") throw BadProgram(string("cvec ") + k);
        return mkVC<T>(
            atol(f[2].c_str()), at<T>(f[0], atol(f[1].c_str())));
    }
    static double num(const string& s)
    {
        if (s == "N") return std::nan("");
        if (s == "I") return INFINITY;
        if (s == "J") return -INFINITY;
        return atof(s.c_str());
    }
    template <class T> T scal(const char* k)
    {
        auto f = split(str(k), ',');
        double re = num(f[0]), im = f.size() > 1 ? num(f[1]) : 0.0;
        if constexpr (tlapack::is_complex<T>)
            return T(re / den, im / den);
        else {
            (void)im;
            return T(re / den);
        }
    }
    /// Guarded workspace of exactly the queried size, full of NaN.  mode 1:
    /// packed; mode 2: rows (columns) apart unless contiguity is required.
    std::vector<std::unique_ptr<Buf>> scratch;
    template <class T, Layout L = Layout::ColMajor>
    MatT<T, L> work(const tlapack::WorkInfo& wi, long mode)
    {
        size_t m = wi.m, n = wi.n;
        size_t e = L == Layout::ColMajor ? m : n, o = L == Layout::ColMajor ? n : m;
        size_t ld = e + ((mode == 2 && !wi.isContiguous) ? 2 : 0);
        scratch.emplace_back(new Buf);
        Buf& B = *scratch.back();
        B.t = tc<T>::c;
        B.n = (o == 0 || e == 0) ? 0 : ld * (o - 1) + e;
        B.alloc();
        // padding counts as outside: it must keep the guard pattern
        T* p = reinterpret_cast<T*>(B.data());
        for (size_t j = 0; j < o; ++j)
            for (size_t i = 0; i < e; ++i) {
                if constexpr (tlapack::is_complex<T>)
                    p[i + j * ld] = T(std::nan(""), std::nan(""));
                else
                    p[i + j * ld] = T(std::nan(""));
            }
        B.padlen = e, B.padld = ld;
        return mkM<T, L>(m, n, p, ld ? ld : 1);
    }
    bool scratch_ok() const
    {
        for (auto& b : scratch)
            if (!b->guards_ok()) return false;
        return true;
    }
    template <class T> void setret(const T& v)
    {
        ret.clear();
        put_val(ret, v, den);
    }
    void setint(long v) { ret = std::to_string(v); }

    tlapack::Op op(const char* k) const
    {
        char c = str(k)[0];
        return c == 'N'   ? tlapack::Op::NoTrans
               : c == 'T' ? tlapack::Op::Trans
               : c == 'C' ? tlapack::Op::ConjTrans
               : c == 'J' ? tlapack::Op::Conj
                          : tlapack::Op(c);
    }
    tlapack::Uplo uplo(const char* k) const
    {
        char c = str(k)[0];
        return c == 'U'   ? tlapack::Uplo::Upper
               : c == 'L' ? tlapack::Uplo::Lower
               : c == 'G' ? tlapack::Uplo::General
               : c == 'H' ? tlapack::Uplo::UpperHessenberg
               : c == 'h' ? tlapack::Uplo::LowerHessenberg
               : c == 'S' ? tlapack::Uplo::StrictUpper
               : c == 's' ? tlapack::Uplo::StrictLower
                          : tlapack::Uplo(c);
    }
    tlapack::Diag diag(const char* k) const
    {
        char c = str(k)[0];
        return c == 'U'   ? tlapack::Diag::Unit
               : c == 'N' ? tlapack::Diag::NonUnit
                          : tlapack::Diag(c);
    }
    tlapack::Side side(const char* k) const
    {
        char c = str(k)[0];
        return c == 'L'   ? tlapack::Side::Left
               : c == 'R' ? tlapack::Side::Right
                          : tlapack::Side(c);
    }
    tlapack::Direction direc(const char* k) const
    {
        return str(k)[0] == 'F' ? tlapack::Direction::Forward
                                : tlapack::Direction::Backward;
    }
    tlapack::StoreV storev(const char* k) const
    {
        return str(k)[0] == 'C' ? tlapack::StoreV::Columnwise
                                : tlapack::StoreV::Rowwise;
    }
};

using Fn = void (*)(Ctx&);
inline std::map<string, Fn>& registry()
{
    static std::map<string, Fn> r;
    return r;
}
struct Reg {
    Reg(const string& k, Fn f) { registry()[k] = f; }
};

template <char c> struct lay;
template <> struct lay<'C'> { static constexpr Layout v = Layout::ColMajor; };
template <> struct lay<'R'> { static constexpr Layout v = Layout::RowMajor; };
template <char c> struct dir;
template <> struct dir<'F'> { static constexpr Direction v = Direction::Forward; };
template <> struct dir<'B'> { static constexpr Direction v = Direction::Backward; };

using S = float;
using D = Real;
using C = std::complex<float>;
using Z = std::complex<Real>;

}  // namespace vf

#define VCAT_(a, b) a##b
#define VCAT(a, b) VCAT_(a, b)
// R0(op) T only; R1/R2/R3: T plus one/two/three layout or direction characters
#define VR0(op, t, T) \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #t " -", &op<T>);
#define VR1(op, t, T, a) \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #t " " #a, &op<T, (#a)[0]>);
#define VR2(op, t, T, a, b)                                    \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #t " " #a #b, \
                                          &op<T, (#a)[0], (#b)[0]>);
#define VR3(op, t, T, a, b, c)                                    \
    static vf::Reg VCAT(vr_, __COUNTER__)(#op " " #t " " #a #b #c, \
                                          &op<T, (#a)[0], (#b)[0], (#c)[0]>);

#endif
