// Scalars and short vectors across the whole exponent range.
#include "num.hpp"
#include <tlapack/blas/lartg.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lantr.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;
#define REAL real_type<T>

// "3@-500,-4@2" : complex (3*2^-500, -4*2^2); mantissas are integers
static long double part(const string& s)
{
    if (s == "N") return std::nan("");
    if (s == "I") return INFINITY;
    if (s == "J") return -INFINITY;
    size_t p = s.find('@');
    return ldexpl((long double)atoll(s.substr(0, p).c_str()),
                  p == string::npos ? 0 : atoi(s.c_str() + p + 1));
}
template <class T> static T sc1(const string& w)
{
    auto f = Ctx::split(w, ',');
    long double re = part(f[0]), im = f.size() > 1 ? part(f[1]) : 0.0L;
    if constexpr (is_complex<T>)
        return T(REAL(re), REAL(im));
    else
        return T(re);
}
template <class T> static T sc(Ctx& c, const char* k) { return sc1<T>(c.str(k)); }
template <class T> static vector<T> vc(Ctx& c, const char* k)
{
    vector<T> r;
    if (c.str(k) == "-") return r;
    for (auto& w : Ctx::split(c.str(k), ';')) r.push_back(sc1<T>(w));
    return r;
}
template <class T> static constexpr LR tiny = std::numeric_limits<REAL>::min();
template <class T> static constexpr LR huge = std::numeric_limits<REAL>::max();
template <class T> static long UU(LR err, LR scale)
{
    return U(err, std::max(scale, tiny<T>), epsof<T>());
}
/// 1 exact magnitude is a normal number, 0 too large, 2 below the normal range
template <class T> static long cls(LR x) { return x > huge<T> ? 0 : x < tiny<T> && x > 0 ? 2 : 1; }

template <class T> void s_rotg_(Ctx& c)
{
    T a = sc<T>(c, "a"), b = sc<T>(c, "b");
    LC A = lc(a), B = lc(b);
    LR rex = hypotl(absl(A), absl(B));
    Rec r;
    r.put("cls", cls<T>(rex));
    REAL cs(99);
    T sn(99), r1 = a, z = b;
    long zc = 1;
    if constexpr (is_complex<T>)
        rotg(r1, z, cs, sn);
    else {
        rotg(r1, z, cs, sn);
        // z encodes the rotation
        LR Z = z, cz, sz;
        if (a == T(0) && b == T(0)) zc = z == T(0);
        else {
            if (Z == 1) cz = 0, sz = 1;
            else if (fabsl(Z) < 1) sz = Z, cz = sqrtl(1 - Z * Z);
            else cz = 1 / Z, sz = sqrtl(1 - cz * cz);
            zc = UU<T>(fabsl(cz - cs), 1) <= 8 && UU<T>(fabsl(sz - sn), 1) <= 8;
        }
        T c2, s2, r2;
        lartg(a, b, c2, s2, r2);
        zc = zc && c2 == cs && s2 == sn && r2 == r1;
    }
    LC S = lc(sn), R = lc(r1);
    LR Cc = cs;
    r.put("r", UU<T>(fabsl(absl(R) - rex), rex));
    r.put("row1", UU<T>(absl(Cc * A + cmul(S, B) - R), rex));
    r.put("row2", UU<T>(absl(-cmul(std::conj(S), A) + Cc * B), rex));
    r.put("unit", U(fabsl(Cc * Cc + std::norm(S) - 1), 1, epsof<T>()));
    r.put("z", zc);
    c.ret = r.done();
}
template <class T> void s_rotmg_(Ctx& c)
{
    T d1 = sc<T>(c, "d1"), d2 = sc<T>(c, "d2"), a = sc<T>(c, "a"), b = sc<T>(c, "b"), h[4] = {77, 77, 77, 77};
    T e1 = d1, e2 = d2, z = a;
    int flag = rotmg(e1, e2, z, b, h);
    LR H[2][2];
    Rec r;
    r.put("flag", flag);
    // the documented forms of H
    if (flag == -1) { H[0][0] = h[0]; H[1][0] = h[1]; H[0][1] = h[2]; H[1][1] = h[3]; }
    else if (flag == 0) { H[0][0] = 1; H[1][0] = h[1]; H[0][1] = h[2]; H[1][1] = 1; }
    else if (flag == 1) { H[0][0] = h[0]; H[1][0] = -1; H[0][1] = 1; H[1][1] = h[3]; }
    else { H[0][0] = 1; H[1][0] = 0; H[0][1] = 0; H[1][1] = 1; }
    LR A = a, B = b, D1 = d1, D2 = d2, q = D1 * A * A + D2 * B * B;
    r.put("psd", D2 >= 0 ? 1 : 0);
    r.put("neg", q <= 0 ? 1 : 0);
    r.put("null", D2 * B == 0 ? 1 : 0);
    LR y1 = H[0][0] * A + H[0][1] * B, y2 = H[1][0] * A + H[1][1] * B;
    r.put("row1", U(fabsl(y1 - z), fabsl(H[0][0] * A) + fabsl(H[0][1] * B), epsof<T>()));
    r.put("row2", U(fabsl(y2), fabsl(H[1][0] * A) + fabsl(H[1][1] * B), epsof<T>()));
    LR E1 = e1, E2 = e2;
    LR g11 = H[0][0] * H[0][0] * E1 + H[1][0] * H[1][0] * E2;
    LR g12 = H[0][0] * E1 * H[0][1] + H[1][0] * E2 * H[1][1];
    LR g22 = H[0][1] * H[0][1] * E1 + H[1][1] * H[1][1] * E2;
    r.put("g11", U(fabsl(g11 - D1), fabsl(D1), epsof<T>()));
    r.put("g22", U(fabsl(g22 - D2), fabsl(D2), epsof<T>()));
    r.put("g12", U(fabsl(g12), fabsl(H[0][0] * E1 * H[0][1]) + fabsl(H[1][0] * E2 * H[1][1]), epsof<T>()));
    // rotm with this flag and h applies that H
    T x[2] = {a, T(3)}, y[2] = {b, T(5)};
    LegacyVector<T, idx> xv(2, x), yv(2, y);
    if (flag == -1) rotm<-1>(xv, yv, h);
    else if (flag == 0) rotm<0>(xv, yv, h);
    else if (flag == 1) rotm<1>(xv, yv, h);
    else rotm<-2>(xv, yv, h);
    LR w = fabsl(H[0][0] * A) + fabsl(H[0][1] * B), w2 = fabsl(H[1][0] * A) + fabsl(H[1][1] * B);
    r.put("rotm1", U(fabsl(y1 - x[0]), w, epsof<T>()));
    r.put("rotm2", U(fabsl(y2 - y[0]), w2, epsof<T>()));
    c.ret = r.done();
}
template <class T> void s_nrm_(Ctx& c)
{
    auto x = vc<T>(c, "x");
    idx n = x.size();
    PV<T> v(n, c.i("inc", 1));
    LR ex = 0, m1 = 0, amax = 0;  // hypotl never leaves the range on the way
    for (idx i = 0; i < n; ++i) {
        v[i] = x[i];
        LC z = lc(x[i]);
        ex = hypotl(ex, hypotl(z.real(), z.imag()));
        m1 += fabsl(z.real()) + fabsl(z.imag());
        amax = std::max(amax, absl(z));
    }
    Rec r;
    r.put("cls", cls<T>(ex));
    r.put("nrm2", UU<T>(fabsl(LR(nrm2(v.v())) - ex), ex));
    r.put("acls", cls<T>(m1));
    r.put("asum", UU<T>(fabsl(LR(asum(v.v())) - m1), m1));
    // sum of squares, started from a previous (scale, sumsq)
    REAL sca = sc1<REAL>(c.str("scl")), sq = sc1<REAL>(c.str("ssq"));
    LR tot = hypotl(ex, LR(sca) * sqrtl(LR(sq)));
    lassq(v.v(), sca, sq);
    LR got = LR(sca) * sqrtl(LR(sq));
    r.put("qcls", cls<T>(tot));
    r.put("lassq", UU<T>(fabsl(got - tot), tot));
    // the same data as a matrix, any shape
    idx ms[3] = {1, n, (n + 1) / 2};
    for (int w_ = 0; w_ < 3 && n; ++w_) {
        idx m = ms[w_];
        idx k = (n + m - 1) / m;
        PM<T> A(m, k);
        PM<T, Layout::RowMajor> B(m, k);
        for (idx i = 0; i < m * k; ++i) A.at(i % m, i / m) = B.at(i % m, i / m) = i < n ? x[i] : T(0);
        r.put(w_ == 0 ? "fro1" : w_ == 1 ? "fron" : "froh",
              std::max(UU<T>(fabsl(LR(lange(FROB_NORM, A.v())) - ex), ex),
                       UU<T>(fabsl(LR(lange(FROB_NORM, B.v())) - ex), ex)));
        LR w = lange(MAX_NORM, A.v());
        r.put(w_ == 0 ? "max1" : w_ == 1 ? "maxn" : "maxh", amax > huge<T> ? 0 : UU<T>(fabsl(w - amax), amax));
        if (n == 1) break;
    }
    if (n >= 1) {  // triangular and Hermitian, data along a diagonal and one row
        idx q = n;
        PM<T> A(q, q);
        A.gen([&](idx i, idx j) { return i == 0 ? x[j] : T(0); });
        r.put("tri", UU<T>(fabsl(LR(lantr(FROB_NORM, Uplo::Upper, Diag::NonUnit, A.v())) - ex), ex));
        LR off = 0, d = 0;
        for (idx i = 0; i < n; ++i) (i ? off : d) = hypotl(i ? off : d, absl(lc(x[i])));
        LR hx = hypotl(is_complex<T> ? fabsl(lc(x[0]).real()) : d, hypotl(off, off));
        LR sx = hypotl(d, hypotl(off, off));
        r.put("hcls", cls<T>(hx)); r.put("scls", cls<T>(sx));
        r.put("her", UU<T>(fabsl(LR(lanhe(FROB_NORM, Uplo::Upper, A.v())) - hx), hx));
        r.put("sym", UU<T>(fabsl(LR(lansy(FROB_NORM, Uplo::Upper, A.v())) - sx), sx));
    }
    r.put("n", n);
    c.ret = r.done();
}
template <class T> void s_lapy_(Ctx& c)
{
    T x = sc<T>(c, "x"), y = sc<T>(c, "y"), z = sc<T>(c, "z");
    LR e2 = hypotl(x, y), e3 = hypotl(e2, z);
    Rec r;
    r.put("cls2", cls<T>(e2));
    r.put("lapy2", UU<T>(fabsl(LR(lapy2(x, y)) - e2), e2));
    r.put("cls3", cls<T>(e3));
    r.put("lapy3", UU<T>(fabsl(LR(lapy3(x, y, z)) - e3), e3));
    c.ret = r.done();
}
template <class T> void s_ladiv_(Ctx& c)
{
    T x = sc<T>(c, "x"), y = sc<T>(c, "y");
    LC X = lc(x), Y = lc(y);
    LR d = Y.real() * Y.real() + Y.imag() * Y.imag();
    LC q = cmul(X, std::conj(Y));
    q = LC(q.real() / d, q.imag() / d);
    T g = ladiv(x, y);
    Rec r;
    LR big = std::max(fabsl(q.real()), fabsl(q.imag()));
    r.put("cls", cls<T>(big));
    r.put("div", UU<T>(absl(lc(g) - q), absl(q)));
    c.ret = r.done();
}
template <class T> void s_iamax_(Ctx& c)
{
    auto x = vc<T>(c, "x");
    idx n = x.size();
    PV<T> v(n, c.i("inc", 1));
    vector<LR> m(n);
    LR mx = 0;
    bool two = c.i("two", 0) != 0;
    for (idx i = 0; i < n; ++i) {
        v[i] = x[i];
        LC z = lc(x[i]);
        m[i] = two ? absl(z) : fabsl(z.real()) + fabsl(z.imag());
        mx = std::max(mx, m[i]);
    }
    auto w = v.v();
    auto f2 = [](const T& t) { using std::abs; return REAL(abs(t)); };
    idx k;
    if (c.i("nc", 0)) k = two ? iamax_nc(w, f2) : iamax_nc(w, [](const T& t) { return abs1(t); });
    else k = two ? iamax_ec(w, f2) : iamax(w);
    // number of leading entries identical in absolute value to the maximum before k, and the distance to it
    bool dup = false;
    for (idx i = 0; i < k && i < n; ++i)
        if (m[i] == m[k < n ? k : 0]) dup = true;
    Rec r;
    r.put("n", n);
    r.put("idx", k < n ? long(k) : -1L);
    r.put("dist", k < n ? UU<T>(mx - m[k], mx) : -1L);
    r.put("dup", dup);
    r.put("pad", v.pad_ok());
    c.ret = r.done();
}
template <class T> void s_rscl_(Ctx& c)
{
    auto x = vc<T>(c, "x");
    idx n = x.size();
    PV<T> v(n, c.i("inc", 1));
    for (idx i = 0; i < n; ++i) v[i] = x[i];
    auto w = v.v();
    bool re = c.i("re") != 0;
    T al = sc<T>(c, "alpha");
    LC A = re ? LC(lc(al).real()) : lc(al);
    if (re) rscl(REAL(lc(al).real()), w);
    else rscl(al, w);
    vector<long> cl, er;
    LR d = std::norm(A);
    for (idx i = 0; i < n; ++i) {
        LC q = cmul(lc(x[i]), std::conj(A));
        q = LC(q.real() / d, q.imag() / d);
        cl.push_back(cls<T>(std::max(fabsl(q.real()), fabsl(q.imag()))));
        er.push_back(UU<T>(absl(lc(v[i]) - q), absl(q)));
    }
    Rec r;
    r.arr("cls", cl); r.arr("err", er); r.put("pad", v.pad_ok());
    c.ret = r.done();
}
template <class T> void s_larfg_(Ctx& c)
{
    auto x = vc<T>(c, "x");
    T al = sc<T>(c, "alpha");
    idx n = x.size();
    bool fwd = c.str("dir") == "F", col = c.str("sv") == "C", one = c.i("one", 0);
    PV<T> v(n + 1, c.i("inc", 1));
    idx ai = fwd ? 0 : n, o = fwd ? 1 : 0;
    v[ai] = al;
    LR ex = absl(lc(al)), xs = 0;
    for (idx i = 0; i < n; ++i) {
        v[o + i] = x[i];
        xs = hypotl(xs, absl(lc(x[i])));
    }
    ex = hypotl(ex, xs);
    T tau(99), beta;
    StoreV sv = col ? StoreV::Columnwise : StoreV::Rowwise;
    auto w = v.v();
    if (one) {
        auto y = slice(w, std::pair<idx, idx>(o, o + n));
        T a2 = al;
        larfg(sv, a2, y, tau);
        v[ai] = a2;
    }
    else
        larfg(fwd ? Direction::Forward : Direction::Backward, sv, w, tau);
    beta = v[ai];
    Rec r;
    r.put("cls", cls<T>(ex));
    bool id = xs == 0 && lc(al).imag() == 0;
    r.put("trivial", id);
    r.put("idok", tau == T(0) && beta == al);
    LC t = lc(tau), B = lc(beta);
    r.put("real", B.imag() == 0);
    r.put("beta", UU<T>(fabsl(fabsl(B.real()) - ex), ex));
    // H' [alpha;x] (columnwise) or [alpha x] H (rowwise), v = [1 y]
    LC s = lc(al);
    LR yy = 1;
    for (idx i = 0; i < n; ++i) {
        LC y = lc(v[o + i]);
        yy += std::norm(y);
        s += col ? cmul(std::conj(y), lc(x[i])) : cmul(lc(x[i]), std::conj(y));
    }
    LC ts = col ? cmul(std::conj(t), s) : cmul(t, s);
    LR e = absl(lc(al) - ts - B), f = 0;
    for (idx i = 0; i < n; ++i) f = hypotl(f, absl(lc(x[i]) - cmul(ts, lc(v[o + i]))));
    r.put("map1", UU<T>(e, ex));
    r.put("map2", UU<T>(f, ex));
    r.put("unit", U(fabsl(std::norm(t) * yy - 2 * t.real()), 1, epsof<T>()));
    LR eps8 = 8 * epsof<T>();
    r.put("taurange", id || (t.real() >= 1 - eps8 && t.real() <= 2 + eps8 && absl(t - LC(1)) <= 1 + eps8));
    r.put("pad", v.pad_ok());
    r.put("n", n);
    c.ret = r.done();
}
template <class T> void s_lascl_(Ctx& c)
{
    auto x = vc<T>(c, "x");
    idx n = x.size();
    REAL a = sc1<REAL>(c.str("a")), b = sc1<REAL>(c.str("b"));
    PM<T> A(1, n);
    for (idx i = 0; i < n; ++i) A.at(0, i) = x[i];
    auto V = A.v();
    lascl(Uplo::General, a, b, V);  // A := (b/a) A or as documented
    vector<long> cl, er;
    for (idx i = 0; i < n; ++i) {
        LC q = lc(x[i]) * (LR(b) / LR(a));
        cl.push_back(cls<T>(std::max(fabsl(q.real()), fabsl(q.imag()))));
        er.push_back(UU<T>(absl(lc(A.at(0, i)) - q), absl(q)));
    }
    Rec r;
    r.arr("cls", cl); r.arr("err", er); r.put("pad", A.pad_ok());
    c.ret = r.done();
}
// NaN and infinities among numbers of any magnitude
template <class T> void s_exc_(Ctx& c)
{
    auto x = vc<T>(c, "x");
    idx n = x.size();
    PV<T> v(n, c.i("inc", 1));
    for (idx i = 0; i < n; ++i) v[i] = x[i];
    auto kind = [](LR y) -> long { return std::isnan(y) ? 1 : std::isinf(y) ? 2 : 0; };
    vector<long> ks, ns;
    auto put = [&](LR y) { ks.push_back(kind(y)); ns.push_back(std::isnan(y)); };
    put(nrm2(v.v()));
    put(asum(v.v()));
    REAL sca(1), sq(0);
    lassq(v.v(), sca, sq);
    put(LR(sca) * sqrtl(LR(sq)));
    for (idx m : {idx(1), n, (n + 1) / 2}) {
        if (n == 0) break;
        idx k = (n + m - 1) / m;
        PM<T> A(m, k);
        PM<T, Layout::RowMajor> B(m, k);
        for (idx i = 0; i < m * k; ++i) A.at(i % m, i / m) = B.at(i % m, i / m) = i < n ? x[i] : T(0);
        for (Norm w : {Norm::Max, Norm::One, Norm::Inf, Norm::Fro}) {
            put(lange(w, A.v()));
            put(lange(w, B.v()));
        }
        ns.push_back(hasnan(Uplo::General, A.v()));
    }
    if (n) {
        // in either triangle of symmetric, Hermitian, triangular operands
        idx q = n + 1;
        for (int lo = 0; lo < 2; ++lo) {
            PM<T> A(q, q);
            A.gen([&](idx i, idx j) { return lo ? (j == 0 && i > 0 ? x[i - 1] : T(0)) : (i == 0 && j > 0 ? x[j - 1] : T(0)); });
            Uplo u = lo ? Uplo::Lower : Uplo::Upper;
            for (Norm w : {Norm::Max, Norm::One, Norm::Inf, Norm::Fro}) {
                put(lansy(w, u, A.v()));
                put(lanhe(w, u, A.v()));
                put(lantr(w, u, Diag::NonUnit, A.v()));
                put(lantr(w, u, Diag::Unit, A.v()));
            }
        }
        // along the diagonal
        PM<T> A(n, n);
        A.gen([&](idx i, idx j) { return i == j ? x[i] : T(0); });
        for (Norm w : {Norm::Max, Norm::One, Norm::Inf, Norm::Fro})
            for (Uplo u : {Uplo::Upper, Uplo::Lower}) {
                put(lansy(w, u, A.v()));
                put(lantr(w, u, Diag::NonUnit, A.v()));
                // strictly unreferenced: nothing but the unit diagonal
                if (kind(lantr(w, u, Diag::Unit, A.v()))) ns.push_back(7);
            }
        ns.push_back(hasnan(v.v()));
    }
    // ranks of |re| + |im|
    vector<LR> a(n), srt;
    for (idx i = 0; i < n; ++i) a[i] = kind(absl(lc(x[i]))) ? -1 : fabsl(lc(x[i]).real()) + fabsl(lc(x[i]).imag());
    srt = a;
    std::sort(srt.begin(), srt.end());
    vector<long> rk;
    for (idx i = 0; i < n; ++i) rk.push_back(std::lower_bound(srt.begin(), srt.end(), a[i]) - srt.begin());
    Rec r;
    r.put("imax", iamax(v.v()));
    r.arr("kinds", ks); r.arr("nans", ns); r.arr("rank", rk);
    c.ret = r.done();
}
template <class T> void strongzero_(Ctx& c)
{
    T x = sc<T>(c, "x");
    StrongZero z;
    auto same = [](T a, T b) { return vf::same_bits(&a, &b, 1) || a == b || (isnan(a) && isnan(b)); };
    auto kind = [&](T y) -> string {
        if (y == T(0)) return "0";
        if (same(y, x) && !(isinf(y) && c.i("fin"))) return "x";
        if (same(y, -x)) return "-";
        if (isinf(y)) return "I";
        return "?";
    };
    vector<string> w;
    T y;
    y = x; y += z; w.push_back(kind(y));
    y = x; y -= z; w.push_back(kind(y));
    y = x; y *= z; w.push_back(kind(y));
    y = x; y /= z; w.push_back(isinf(y) ? "I" : "?");
    w.push_back(kind(x + z)); w.push_back(kind(x - z)); w.push_back(kind(z + x));
    w.push_back(same(z - x, -x) ? "-" : "?");
    w.push_back(kind(T(x * z))); w.push_back(kind(T(z * x))); w.push_back(kind(T(z / x)));
    w.push_back(isinf(T(x / z)) ? "I" : "?");
    w.push_back(kind(T(-z))); w.push_back(kind(T(z * z)));
    w.push_back(kind(T(z * x) + x)); w.push_back(kind(x - T(x * z)));
    string s = "[";
    for (auto& q : w) s += (s.size() > 1 ? ",\"" : "\"") + q + "\"";
    c.ret = "{\"v\":" + s + "]}";
}
#define ALLT(op) VR0(op, s, S) VR0(op, d, D) VR0(op, c, vf::C) VR0(op, z, Z)
#define REALT(op) VR0(op, s, S) VR0(op, d, D)
ALLT(s_rotg_) REALT(s_rotmg_) ALLT(s_nrm_) REALT(s_lapy_) VR0(s_ladiv_, c, vf::C) VR0(s_ladiv_, z, Z)
ALLT(s_iamax_) ALLT(s_exc_) ALLT(strongzero_) ALLT(s_rscl_) ALLT(s_larfg_) ALLT(s_lascl_)
