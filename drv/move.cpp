// Reordering of (generalized) Schur forms: histories of moves and swaps on one
// decomposition.  The driver follows the diagonal blocks by their eigenvalues.
#include "eig.hpp"
#include <tlapack/lapack/schur_move.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/generalized_schur_move.hpp>
#include <tlapack/lapack/generalized_schur_swap.hpp>
using namespace vf;
using namespace tlapack;
using namespace nm;

static vector<string> split(const string& s, char d)
{
    vector<string> r;
    string w;
    for (char ch : s + d) {
        if (ch == d) { if (!w.empty()) r.push_back(w); w.clear(); }
        else w += ch;
    }
    return r;
}
/// eigenvalue (with nonnegative imaginary part) of the block at row i
static Pt blk(const XM& A, const XM& B, idx i, long sz, bool cplx)
{
    if (sz == 1) return {A(i, i), B(i, i)};
    Pt p, q;
    geig2(A(i, i), A(i, i + 1), A(i + 1, i), A(i + 1, i + 1), B(i, i), B(i, i + 1), B(i + 1, i), B(i + 1, i + 1), p, q);
    // pick the one in the upper half plane
    LC x = cmul(p.a, std::conj(p.b));
    return (cplx || x.imag() >= 0) ? p : q;
}

template <class T, char a> void s_move_(Ctx& c)
{
    constexpr Layout L = lay<a>::v;
    constexpr bool cx = is_complex<T>;
    string shape = c.str("blocks");
    bool gen = c.i("gen"), wq = c.i("wantq"), wz = c.i("wantz");
    long kind = c.i("kind");
    Rng g(c.i("seed"));
    vector<idx> first;
    idx n = 0;
    for (char ch : shape) { first.push_back(n); n += ch - '0'; }
    idx K = shape.size();
    XM A(n, n), B(n, n);
    for (idx j = 0; j < n; ++j)
        for (idx i = 0; i < j; ++i) {
            A(i, j) = lc(g.val<T>()) * LC(.5);
            B(i, j) = gen ? lc(g.val<T>()) * LC(.5) : LC(0);
        }
    for (idx j = 0; j < n; ++j) B(j, j) = 1;
    // distinct eigenvalues in random order
    vector<idx> pos(K);
    for (idx k = 0; k < K; ++k) pos[k] = k;
    for (idx k = K; k > 1; --k) std::swap(pos[k - 1], pos[g.in(0, k - 1)]);
    for (idx k = 0; k < K; ++k) {
        idx i = first[k];
        long p = pos[k];
        if (kind == 1) p = p / 2;  // coinciding eigenvalues
        if (shape[k] == '1') {
            if (gen) {
                LR th = 3.14159265L * (p + 0.5L) / K, s = 1 + g.u01();
                LC ph = cx ? LC(cosl(p), sinl(p)) : LC(1);
                A(i, i) = ph * LC(s * cosl(th)); B(i, i) = s * sinl(th);
                if (kind == 2 && p == 0) B(i, i) = 0, A(i, i) = s;
                if (kind == 2 && p == 1 && K % 2 == 0) A(i, i) = 0, B(i, i) = s;
            }
            else A(i, i) = LC(p + 1 - LR(K) / 2, cx ? .5L * (p % 3) : 0);
        }
        else {
            LR re = gen ? 1 / tanl(3.14159265L * (p + 0.5L) / K) : p + 1 - LR(K) / 2, im = (gen ? .4L : 1) * (.7L + .6L * LR(g.u01())) * (gen ? 1 + re * re : 1);
            LR q = ldexpl(1, g.in(-1, 1));
            if (gen) {
                B(i, i) = 1 + g.u01(); B(i + 1, i + 1) = 1 + g.u01();
                LC m[2][2] = {{re + .3L * im, im * q}, {-im * 1.09L / q, re - .3L * im}};
                for (int v = 0; v < 2; ++v) {
                    A(i, i + v) = B(i, i) * m[0][v] + B(i, i + 1) * m[1][v];
                    A(i + 1, i + v) = B(i + 1, i + 1) * m[1][v];
                }
            }
            else {
                A(i, i) = A(i + 1, i + 1) = re;
                A(i, i + 1) = im * q; A(i + 1, i) = -im / q;
                if (g.in(0, 1)) std::swap(A(i, i + 1), A(i + 1, i));
            }
        }
    }
    LR sc = kind == 3 ? ldexpl(1, 40) : kind == 4 ? ldexpl(1, -40) : 1;
    A = scale(sc, A);
    PM<T, L> Am(n, n), Bm(n, n), Qm(n, n), Zm(n, n);
    Am.set(A); Bm.set(B);
    XM Q0 = rounded<T>(runitary<T>(g, n)), Z0 = gen ? rounded<T>(runitary<T>(g, n)) : Q0;
    Qm.set(Q0); Zm.set(Z0);
    A = Am.get(); B = Bm.get();
    PM<T, L> B0 = Bm, Qs = Qm, Zs = Zm;
    auto Av = Am.v(), Bv = Bm.v(), Qv = Qm.v(), Zv = Zm.v();
    vector<Pt> ev;
    for (idx k = 0; k < K; ++k) ev.push_back(blk(A, B, first[k], shape[k] - '0', cx));
    Rec r;
    string steps = "[";
    for (auto& w : split(c.str("moves"), ',')) {
        auto f = split(w.substr(1), '.');
        long x = stol(f[0]), y = stol(f[1]), z = f.size() > 2 ? stol(f[2]) : 0;
        tlapack::size_type<vf::MatT<T, L>> i1 = x, i2 = y;
        long ret = coded([&] {
            if (w[0] == 'm') return gen ? generalized_schur_move(wq, wz, Av, Bv, Qv, Zv, i1, i2) : schur_move(wq, Av, Qv, i1, i2);
            return gen ? generalized_schur_swap(wq, wz, Av, Bv, Qv, Zv, idx(x), idx(y), idx(z)) : schur_swap(wq, Av, Qv, idx(x), idx(y), idx(z));
        });
        XM X = Am.get(), Y = Bm.get();
        auto b = blocks(X);
        if (steps.size() > 1) steps += ",";
        steps += "[" + std::to_string(w[0] == 's') + "," + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + "," + std::to_string(ret) + "," + std::to_string(i1) + "," + std::to_string(i2);
        idx row = 0;
        for (long s : b) {
            long id = 0;
            if (s > 0) {
                Pt p = blk(X, Y, row, s, cx);
                p.a /= sc;
                LR best = 9;
                for (idx k = 0; k < K; ++k) {
                    Pt e = ev[k];
                    e.a /= sc;
                    LR d = chord(p, e);
                    if (d < best) { best = d; id = k + 1; }
                }
                if (!(best < .01L)) id = 0;
            }
            steps += "," + std::to_string(id) + "," + std::to_string(s);
            row += s > 0 ? s : 0;
            if (s < 0) break;
        }
        steps += "]";
    }
    XM X = Am.get(), Y = Bm.get(), Q = Qm.get(), Z = gen ? Zm.get() : Q;
    r.key("steps"); r.s += steps + "]";
    r.key("sz");
    r.s += "[";
    for (idx k = 0; k < K; ++k) r.s += (k ? "," : "") + string(1, shape[k]);
    r.s += "]";
    bool lower = true, std2 = true;
    for (idx j = 0; j < n; ++j)
        for (idx i = j + 1; i < n; ++i)
            if (gen && Y(i, j) != LC(0)) lower = false;
    if (!gen)
        for (idx j = 0; j + 1 < n; ++j)
            if (X(j + 1, j) != LC(0))
                if (X(j, j) != X(j + 1, j + 1) || !(X(j, j + 1).real() * X(j + 1, j).real() < 0)) std2 = false;
    r.put("hess", hessOK(X) && (!cx || hessOK(X, 0))); r.put("tri", lower); r.put("std", std2);
    if (wq && (!gen || wz)) {
        XM P0 = mul(Q0, mul(A, ct(Z0))), P1 = mul(Q, mul(X, ct(Z)));
        r.put("res", diffU<T>(P0, P1));
        if (gen) r.put("bres", diffU<T>(mul(Q0, mul(B, ct(Z0))), mul(Q, mul(Y, ct(Z)))));
        r.put("orth", orthoU<T>(Q)); r.put("zorth", orthoU<T>(Z));
        r.put("keep", 1);
    }
    else {
        r.put("res", 0); r.put("orth", orthoU<T>(Q)); r.put("zorth", orthoU<T>(Z));
        r.put("keep", (wq || Qm.same(Qs)) && (wz || !gen || Zm.same(Zs)));
        // the forms themselves: same Frobenius norm
        r.put("nres", U(fabsl(nrm(A) - nrm(X)), nrm(A) * n, epsof<T>()));
    }
    r.put("pad", Am.pad_ok() && Bm.pad_ok() && Qm.pad_ok() && Zm.pad_ok() && (gen || Bm.same(B0)));
    c.ret = r.done();
}
#define ALL1(op) VR1(op, d, D, C) VR1(op, d, D, R) VR1(op, z, Z, C) VR1(op, z, Z, R) VR1(op, s, S, C) VR1(op, c, vf::C, C)
ALL1(s_move_)
