// Views of memory: follows a path of view operations and reports what the
// resulting view designates.
#include "core.hpp"
using namespace vf;
using tlapack::LegacyMatrix;
using tlapack::LegacyVector;

namespace {
struct Op_ {
    string f;
    bool c = false;  // through a const reference
    long a[4] = {0, 0, 0, 0};
};
std::vector<Op_> parse(const string& s)
{
    std::vector<Op_> r;
    if (s == "-") return r;
    for (auto& w : Ctx::split(s, '/')) {
        auto f = Ctx::split(w, ',');
        Op_ o;
        o.f = f[0];
        if (o.f[0] == '!') o.c = true, o.f = o.f.substr(1);
        for (size_t i = 1; i < f.size(); ++i) o.a[i - 1] = atol(f[i].c_str());
        r.push_back(o);
    }
    return r;
}

template <class V> constexpr bool isM = false;
template <class T, class I, Layout L>
constexpr bool isM<LegacyMatrix<T, I, L>> = true;
#ifdef VF_EIGEN
template <class V> constexpr bool isE = tlapack::traits::is_eigen_type<V>;
template <class V> requires(isE<V>) constexpr bool isM<V> = !V::IsVectorAtCompileTime;
#else
template <class V> constexpr bool isE = false;
#endif
template <class V> constexpr bool isSpan = false;
template <class T> constexpr bool isSpan<std::span<T>> = true;
template <class T, class A> constexpr bool isSpan<std::vector<T, A>> = true;

/// address of an element
template <class V, class... I> const void* addr(V& v, I... i)
{
#ifdef VF_EIGEN
    if constexpr (isE<V>) return &std::as_const(v).coeffRef(i...);
    else
#endif
    if constexpr (sizeof...(I) == 2) return &v(i...);
    else return &v[(i + ...)];
}
template <class V> constexpr bool writable()
{
#ifdef VF_EIGEN
    if constexpr (isE<V>) return Eigen::internal::is_lvalue<V>::value;
    else
#endif
    if constexpr (isM<V>) return !std::is_const_v<std::remove_reference_t<decltype(std::declval<V&>()(0, 0))>>;
    else return !std::is_const_v<std::remove_reference_t<decltype(std::declval<V&>()[0])>>;
}

struct Walk {
    Ctx& c;
    double* base;
    std::vector<Op_> ops;
    bool wr;

    template <class V> void finish(V& v)
    {
        using tlapack::size;
        string at = "[", rd = "[", s = "{";
        bool first = true;
        auto el = [&](const void* p, double x) {
            if (!first) at += ",", rd += ",";
            first = false;
            at += std::to_string(reinterpret_cast<const double*>(p) - base);
            rd += std::to_string((long)x);
        };
        const V& cv = v;
        long k = 1000;
        if constexpr (isM<V>) {
            using tlapack::ncols;
            using tlapack::nrows;
            s += "\"k\":\"M\",\"lay\":\"";
            s += tlapack::layout<V> == Layout::ColMajor ? (isE<V> ? "c" : "C") : (isE<V> ? "r" : "R");
            s += "\",\"m\":" + std::to_string((long)nrows(v)) +
                 ",\"n\":" + std::to_string((long)ncols(v));
            for (idx j = 0; j < (idx)ncols(v); ++j)
                for (idx i = 0; i < (idx)nrows(v); ++i) el(addr(v, i, j), cv(i, j));
        }
        else {
            s += "\"k\":\"V\",\"m\":" + std::to_string((long)size(v)) +
                 ",\"n\":1";
            for (idx i = 0; i < (idx)size(v); ++i) el(addr(v, i), cv[i]);
        }
        c.ret = s + ",\"size\":" + std::to_string((long)size(v)) +
                ",\"at\":" + at + "],\"rd\":" + rd + "]}";
        if (wr) {
            if constexpr (isM<V>) {
                if constexpr (writable<V>()) {
                    for (idx j = 0; j < (idx)tlapack::ncols(v); ++j)
                        for (idx i = 0; i < (idx)tlapack::nrows(v); ++i)
                            v(i, j) = ++k;
                }
                else
                    throw BadProgram("write to const");
            }
            else {
                if constexpr (writable<V>()) {
                    for (idx i = 0; i < (idx)size(v); ++i) v[i] = ++k;
                }
                else
                    throw BadProgram("write to const");
            }
        }
    }

    template <class V> void step(V& v, size_t k)
    {
        if (k == ops.size()) return finish(v);
        if (ops[k].c)
            return stepc(v, k);
        using namespace tlapack;
        auto& o = ops[k];
        auto next = [&](auto w) { step(w, k + 1); };
        // the caller's index type is not fixed: alternate
        auto P = [](long a, long b) { return std::pair<idx, idx>{(idx)a, (idx)b}; };
        if constexpr (isM<V>) {
            if (o.f == "sl") next(slice(v, P(o.a[0], o.a[1]), P(o.a[2], o.a[3])));
            else if (o.f == "sr") next(slice(v, o.a[0], P(o.a[1], o.a[2])));
            else if (o.f == "sc") next(slice(v, P(o.a[0], o.a[1]), o.a[2]));
            else if (o.f == "rows") next(rows(v, P(o.a[0], o.a[1])));
            else if (o.f == "cols") next(cols(v, P(o.a[0], o.a[1])));
            else if (o.f == "row") next(row(v, o.a[0]));
            else if (o.f == "col") next(col(v, o.a[0]));
            else if (o.f == "diag") next(diag(v, (int)o.a[0]));
            else if (o.f == "tr") next(transpose_view(v));
            else if (o.f == "rm") {
                auto [x, y] = reshape(v, o.a[0], o.a[1]);
                if (o.a[2] == 0) step(x, k + 1); else step(y, k + 1);
            }
            else if (o.f == "rv") {
                auto [x, y] = reshape(v, o.a[0]);
                if (o.a[1] == 0) step(x, k + 1); else step(y, k + 1);
            }
            else throw BadProgram(o.f);
        }
        else if constexpr (isSpan<V>) {
            if (o.f == "vs") next(slice(v, P(o.a[0], o.a[1])));
            else throw BadProgram(o.f);
        }
        else {
            if (o.f == "vs") next(slice(v, P(o.a[0], o.a[1])));
            else if (o.f == "rm") {
                auto [x, y] = reshape(v, o.a[0], o.a[1]);
                if (o.a[2] == 0) step(x, k + 1); else step(y, k + 1);
            }
            else if (o.f == "rv") {
                auto [x, y] = reshape(v, o.a[0]);
                if (o.a[1] == 0) step(x, k + 1); else step(y, k + 1);
            }
            else throw BadProgram(o.f);
        }
    }
    template <class V> void stepc(const V& v, size_t k)
    {
        using namespace tlapack;
        auto& o = ops[k];
        auto next = [&](auto w) { step(w, k + 1); };
        auto P = [](long a, long b) { return std::pair<int, int>{(int)a, (int)b}; };
        if constexpr (isM<V>) {
            if (o.f == "sl") next(slice(v, P(o.a[0], o.a[1]), P(o.a[2], o.a[3])));
            else if (o.f == "sr") next(slice(v, o.a[0], P(o.a[1], o.a[2])));
            else if (o.f == "sc") next(slice(v, P(o.a[0], o.a[1]), o.a[2]));
            else if (o.f == "rows") next(rows(v, P(o.a[0], o.a[1])));
            else if (o.f == "cols") next(cols(v, P(o.a[0], o.a[1])));
            else if (o.f == "row") next(row(v, o.a[0]));
            else if (o.f == "col") next(col(v, o.a[0]));
            else if (o.f == "diag") next(diag(v, (int)o.a[0]));
            else if (o.f == "tr") next(transpose_view(v));
            else if (o.f == "id") {
                if constexpr (isE<V>) return step(const_cast<V&>(v), k + 1);
                else {
                auto w = legacy_matrix(v);
                using E = std::remove_pointer_t<decltype(w.ptr)>;
                if (w.layout == Layout::ColMajor)
                    next(LegacyMatrix<E, idx, Layout::ColMajor>(w.m, w.n, w.ptr, w.ldim));
                else
                    next(LegacyMatrix<E, idx, Layout::RowMajor>(w.m, w.n, w.ptr, w.ldim));
                }
            }
            else throw BadProgram(o.f);
        }
        else {
            if (o.f == "vs") next(slice(v, P(o.a[0], o.a[1])));
            else if (o.f == "id") {
                if constexpr (isSpan<V> || isE<V>) step(const_cast<V&>(v), k + 1);
                else if constexpr (V::direction == Direction::Forward) {
                    auto w = legacy_vector(v);
                    using E = std::remove_pointer_t<decltype(w.ptr)>;
                    next(LegacyVector<E, idx, idx>(w.n, w.ptr, w.inc));
                }
                else {
                    auto w = v;
                    step(w, k + 1);
                }
            }
            else throw BadProgram(o.f);
        }
    }
};

template <class T> void view_(Ctx& c)
{
    auto b = Ctx::split(c.str("base"), ':');
    Walk w{c, c.at<double>(c.str("buf"), 0), parse(c.str("path")), c.i("wr") == 1};
    double* p = w.base;
    auto n = [&](int k) { return atol(b[k].c_str()); };
#ifdef VF_EIGEN
    int it = c.i("it", 0);
    if (b[0] == "M") {
        auto go = [&](auto lay) {
            using Mp = Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, lay.value>, Eigen::Unaligned, Eigen::OuterStride<>>;
            long in = b[1] == "c" ? n(3) : n(4), out = b[1] == "c" ? n(4) : n(3), ld = n(5);
            long i0 = n(2) % ld, j0 = n(2) / ld;
            if (it == 1 && i0 + in <= ld) {
                // a block of a larger matrix
                long R = b[1] == "c" ? ld : j0 + out, Cn = b[1] == "c" ? j0 + out : ld;
                Mp big(p, R, Cn, Eigen::OuterStride<>(ld));
                auto A = b[1] == "c" ? big.block(i0, j0, n(3), n(4)) : big.block(j0, i0, n(3), n(4));
                w.step(A, 0);
            }
            else {
                Mp A(p + n(2), n(3), n(4), Eigen::OuterStride<>(ld));
                w.step(A, 0);
            }
        };
        if (b[1] == "c") go(std::integral_constant<int, int(Eigen::ColMajor)>());
        else go(std::integral_constant<int, int(Eigen::RowMajor)>());
    }
    else if (b[1] == "c") {
        Eigen::Map<Eigen::Matrix<double, Eigen::Dynamic, 1>, Eigen::Unaligned, Eigen::InnerStride<>> v(p + n(2), n(3), Eigen::InnerStride<>(n(4)));
        w.step(v, 0);
    }
    else {
        Eigen::Map<Eigen::Matrix<double, 1, Eigen::Dynamic>, Eigen::Unaligned, Eigen::InnerStride<>> v(p + n(2), n(3), Eigen::InnerStride<>(n(4)));
        w.step(v, 0);
    }
#else
    if (b[0] == "M") {
        if (c.i("it", 0) == 1) {
            // signed index type
            if (b[1] == "C") {
                LegacyMatrix<double, int, Layout::ColMajor> A(n(3), n(4), p + n(2), n(5));
                w.step(A, 0);
            }
            else {
                LegacyMatrix<double, int, Layout::RowMajor> A(n(3), n(4), p + n(2), n(5));
                w.step(A, 0);
            }
        }
        else if (b[1] == "C") {
            LegacyMatrix<double, idx, Layout::ColMajor> A(n(3), n(4), p + n(2), n(5));
            w.step(A, 0);
        }
        else {
            LegacyMatrix<double, idx, Layout::RowMajor> A(n(3), n(4), p + n(2), n(5));
            w.step(A, 0);
        }
    }
    else {
        int kind = c.i("it", 0);
        if (kind == 3) {
            std::span<double> v(p + n(2), n(3));
            w.step(v, 0);
        }
        else if (b[1] == "F") {
            if (kind == 2 && n(4) == 1) {
                LegacyVector<double, idx> v(n(3), p + n(2));
                w.step(v, 0);
            }
            else {
                LegacyVector<double, idx, idx> v(n(3), p + n(2), n(4));
                w.step(v, 0);
            }
        }
        else {
            if (kind == 2 && n(4) == 1) {
                LegacyVector<double, idx, tlapack::internal::StrongOne, Direction::Backward> v(n(3), p + n(2));
                w.step(v, 0);
            }
            else {
                LegacyVector<double, idx, idx, Direction::Backward> v(n(3), p + n(2), n(4));
                w.step(v, 0);
            }
        }
    }
#endif
}

template <class T> void band_(Ctx& c)
{
    long m = c.i("m"), n = c.i("n"), kl = c.i("kl"), ku = c.i("ku");
    double* p = c.at<double>(c.str("buf"), 0);
    string el = "[";
    bool first = true;
    auto go = [&](auto&& A) {
        const auto& C = A;
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i)
                if (i - j <= kl && j - i <= ku) {
                    el += (first ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "," +
                          std::to_string(&A(i, j) - p) + "," + std::to_string((long)C(i, j)) + "]";
                    first = false;
                }
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i)
                if (i - j <= kl && j - i <= ku) A(i, j) = 1000 + i + 100 * j;
        c.ret = "{\"m\":" + std::to_string((long)tlapack::nrows(A)) + ",\"n\":" + std::to_string((long)tlapack::ncols(A)) +
                ",\"kl\":" + std::to_string((long)tlapack::lowerband(A)) + ",\"ku\":" + std::to_string((long)tlapack::upperband(A)) +
                ",\"size\":" + std::to_string((long)tlapack::size(A)) + ",\"el\":" + el + "]}";
    };
    if (c.i("it", 0))
        go(tlapack::LegacyBandedMatrix<double, int>(m, n, kl, ku, p + c.i("off")));
    else
        go(tlapack::LegacyBandedMatrix<double>(m, n, kl, ku, p + c.i("off")));
}

template <class A> void made(Ctx& c, A&& a, double* p, size_t cap)
{
    using tlapack::size;
    string at = "[";
    long m, n = 1;
    if constexpr (isM<std::decay_t<A>>) {
        m = tlapack::nrows(a), n = tlapack::ncols(a);
        for (long j = 0; j < n; ++j)
            for (long i = 0; i < m; ++i) at += (i + j ? "," : "") + std::to_string(&a(i, j) - p);
    }
    else {
        m = size(a);
        for (long i = 0; i < m; ++i) at += (i ? "," : "") + std::to_string(&a[i] - p);
    }
    c.ret = "{\"m\":" + std::to_string(m) + ",\"n\":" + std::to_string(n) + ",\"size\":" + std::to_string((long)size(a)) +
            ",\"cap\":" + std::to_string(cap) + ",\"at\":" + at + "]}";
}
template <class T> void create_(Ctx& c)
{
    using namespace tlapack;
    string k = c.str("kind");
    long m = c.i("m"), n = c.i("n");
    std::vector<double> store(c.i("had"), 5.0);
    auto done = [&](auto&& a) { made(c, a, store.data(), store.size()); };
    double s[6];
    if (k == "MC") done(Create<LegacyMatrix<float, idx, Layout::ColMajor>>()(store, m, n));
    else if (k == "MR") done(Create<LegacyMatrix<double, idx, Layout::RowMajor>>()(store, m, n));
    else if (k == "VF") done(Create<LegacyVector<double, idx, idx>>()(store, m));
    else if (k == "VB") done(Create<LegacyVector<double, idx, int, Direction::Backward>>()(store, m));
    else if (k == "SC") made(c, CreateStatic<LegacyMatrix<double, idx, Layout::ColMajor>, 3, 2>()(s), s, 6);
    else if (k == "SR") made(c, CreateStatic<LegacyMatrix<double, idx, Layout::RowMajor>, 2, 3>()(s), s, 6);
    else if (k == "SV") made(c, CreateStatic<LegacyVector<double, idx>, 5>()(s), s, 6);
    else throw BadProgram(k);
}
VR0(view_, d, D)
VR0(band_, d, D)
VR0(create_, d, D)
}  // namespace
