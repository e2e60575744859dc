"""Programs for triangular factorizations and inverses."""
import itertools
from fractions import Fraction as Fr
from lib import *
from ortho import L1, batch

UNITS = [(1, 0), (-1, 0), (0, 1), (0, -1)]
def cm(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def ca(a, b): return (a[0] + b[0], a[1] + b[1])
def cs(a, b): return (a[0] - b[0], a[1] - b[1])
def cdiv(a, b):
    n = b[0] * b[0] + b[1] * b[1]
    x = cm(a, (b[0], -b[1]))
    return (Fr(x[0]) / n, Fr(x[1]) / n)
def pow2(q): return q != 0 and (abs(q.numerator) & (abs(q.numerator) - 1)) == 0 and (q.denominator & (q.denominator - 1)) == 0
def okpivot(p):
    a, b = Fr(p[0]), Fr(p[1])
    return (b == 0 and pow2(a)) or (a == 0 and pow2(b))

def lu_ok(A, m, n, den, meas):
    """every tie choice meets pivots u*2^k and stays within multiples of 1/den"""
    def rec(A, j):
        if j >= min(m, n): return True
        cand = [meas(A[i][j]) for i in range(j, m)]
        mx = max(cand)
        if mx == 0: return True
        for i in range(j, m):
            if meas(A[i][j]) != mx: continue
            p = A[i][j]
            if not okpivot(p): return False
            B = [r[:] for r in A]
            B[j], B[i] = B[i], B[j]
            for r in range(j + 1, m):
                f = cdiv(B[r][j], p)
                if (f[0] * den).denominator != 1 or (f[1] * den).denominator != 1: return False
                B[r][j] = f
                for c in range(j + 1, n):
                    B[r][c] = cs(B[r][c], cm(f, B[j][c]))
                    if (B[r][c][0] * den).denominator != 1 or (B[r][c][1] * den).denominator != 1: return False
            if not rec(B, j + 1): return False
        return True
    return rec(A, 0)
def abs1(z): return abs(z[0]) + abs(z[1])
def nrm2(z): return z[0] * z[0] + z[1] * z[1]

def lu_matrix(r, t, m, n, sing):
    z = isc(t)
    for _ in range(400):
        k = min(m, n)
        u = lambda: r.choice(UNITS) if z else (r.choice([1, -1]), 0)
        e = lambda s: (r.randint(-s, s), r.randint(-s, s) if z else 0)
        L = [[(0, 0)] * k for _ in range(m)]
        U = [[(0, 0)] * n for _ in range(k)]
        for i in range(m):
            for j in range(k):
                if i == j: L[i][j] = (1, 0)
                elif i > j:
                    h = r.choice([(0, 0), (Fr(1, 2), 0), (Fr(-1, 2), 0), (0, 0), (1, 0)] + ([(0, Fr(1, 2)), (0, Fr(-1, 2)), (0, -1)] if z else []))
                    L[i][j] = h
        for i in range(k):
            for j in range(i, n):
                w = e(2); U[i][j] = (2 * w[0], 2 * w[1])
            w = u(); f = r.choice([2, 2, 4]); U[i][i] = (f * w[0], f * w[1])
        if sing and k: 
            q = r.randrange(k)
            for j in range(q, q + 1): U[q][q] = (0, 0)
        A = [[(Fr(0), Fr(0))] * n for _ in range(m)]
        for i in range(m):
            for j in range(n):
                s = (Fr(0), Fr(0))
                for l in range(k): s = ca(s, cm(L[i][l], U[l][j]))
                A[i][j] = s
        if any(x.denominator != 1 for row in A for w in row for x in w): continue
        r.shuffle(A)
        if lu_ok(A, m, n, 64, nrm2) and (not z or lu_ok(A, m, n, 64, abs1)):
            return [[(int(w[0]), int(w[1])) for w in row] for row in A]
    return [[(0, 0)] * n for _ in range(m)]

def sc(den, f): return lambda i, j: (lambda v: v if v is None or v == NAN else (v[0] * den, v[1] * den))(f(i, j))

def lu(rnd, per, algs="R0"):
    out = []
    for _ in range(per):
        for t, l in L1:
            for alg in ("R", "0", "vR", "v0"):
                for s in (0, 0, 1):
                    p = Prog(rnd); out.append(p); p.den = 64
                    m, n = rnd.randint(0, 5), rnd.randint(0, 5)
                    if rnd.random() < .3: n = m
                    k = min(m, n)
                    A = lu_matrix(rnd, t, m, n, s)
                    V = p.mat(t, m, n, l, f=sc(64, lambda i, j: A[i][j]))
                    p.call("getrf", t, l, alg=alg, A=V, piv=p.ints(k + rnd.choice([0, 0, 2])))
    return out

def tri_data(r, t, n, sing):
    """L\\U packed, U diagonal u*2^k"""
    z = isc(t)
    budget = [5]
    A = [[(0, 0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            A[i][j] = (r.randint(-1, 1), r.randint(-1, 1) if z else 0) if i > j else (r.randint(-2, 2), r.randint(-2, 2) if z else 0)
        k = r.choice([0, 0, 1, 2]); k = min(k, budget[0]); budget[0] -= k
        w = r.choice(UNITS) if z else (r.choice([1, -1]), 0)
        A[i][i] = (w[0] << k if w[0] >= 0 else -(1 << k), w[1] << k if w[1] >= 0 else -(1 << k))
    if sing and n:
        for q in r.sample(range(n), r.choice([1, 1, 2]) if n > 1 else 1): A[q][q] = (0, 0)
    return A

def inverses(rnd, per, wk=None):
    out = []
    W = (lambda: rnd.choice(wk)) if wk else (lambda: rnd.choice([0, 0, 1]))
    for _ in range(per):
        for t, l in L1:
            for alg in ("D", "C", "uili", "uxli"):
                for s in (0, 0, 1):
                    p = Prog(rnd); out.append(p); p.den = 64
                    n = rnd.choice([0, 1, 2, 3, 4, 5])
                    A = tri_data(rnd, t, n, s)
                    V = p.mat(t, n, n, l, f=sc(64, lambda i, j: A[i][j]))
                    p.call("getri", t, l, alg=alg, A=V, piv=p.ints(n, [64 * 0 + rnd.randint(i, n - 1) for i in range(n)]), wk=W())
            if wk: continue
            for u, dg in itertools.product("UL", "NU"):
                for s in (0, 0, 1):
                    p = Prog(rnd); out.append(p); p.den = 64
                    n = rnd.choice([0, 1, 2, 3, 4, 5, 6])
                    A = tri_data(rnd, t, n, s)
                    def f(i, j):
                        if i == j: return NAN if dg == "U" else A[i][i]
                        if (i < j) == (u == "U"): return A[min(i, j)][max(i, j)] if u == "U" else A[i][j]
                        return NAN
                    p.call("trtri", t, l, uplo=u, diag=dg, A=p.mat(t, n, n, l, f=sc(64, f)), ec=rnd.choice([0, 1]))
    return out

def chol_l(r, t, n, kd, mx=2):
    L = [[(0, 0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(max(0, i - kd), i):
            L[i][j] = (r.randint(-mx, mx), r.randint(-mx, mx) if isc(t) else 0)
        L[i][i] = (r.choice([1, 1, 2, 2, 4]), 0)
    return L
def hpd(r, t, n, kd, bad, mx=2, diag=None):
    L = chol_l(r, t, n, kd, mx)
    if diag:
        for i in range(n): L[i][i] = (r.choice(diag), 0)
    H = [[(0, 0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            s = (0, 0)
            for k in range(n): s = ca(s, cm(L[i][k], (L[j][k][0], -L[j][k][1])))
            H[i][j] = s
    if bad:  # minor of order bad is not positive: pivot becomes 0 or negative
        q = bad - 1
        d = L[q][q][0] ** 2 + r.choice([0, 0, 1, 5])
        H[q][q] = (H[q][q][0] - d, 0)
    return H
def hermf(p, t, H, u, kd=99):
    r = p.rnd
    def f(i, j):
        if i == j: return (H[i][i][0], r.choice([0, 7, -3]) if isc(t) else 0)
        if abs(i - j) > kd: return NAN
        return H[i][j] if (i < j) == (u == "U") else NAN
    return f

CHOL = ["potf2", "potrf2", "potrf2n", "blocked", "rl", "B", "R", "2", "L"]
def chol(rnd, per):
    out = []
    def P():
        p = Prog(rnd); out.append(p); return p
    for _ in range(per):
        for t, l in L1:
            for alg, u in itertools.product(CHOL, "UL"):
                for b in (0, 0, 1):
                    p = P(); n = rnd.choice([0, 1, 2, 3, 4, 5, 6])
                    H = hpd(rnd, t, n, 9, rnd.randint(1, n) if b and n else 0)
                    p.call("potrf", t, l, alg=alg, uplo=u, nb=rnd.choice([1, 2, 3, 4, 32]), A=p.mat(t, n, n, l, f=hermf(p, t, H, u)))
            for u in "UL":
                for b in (0, 0, 0, 1):
                    p = P(); n = rnd.choice([1, 2, 3, 4, 5, 6, 7]); kd = rnd.randint(0, n - 1)
                    H = hpd(rnd, t, n, kd, rnd.randint(1, n) if b else 0)
                    p.call("pbtrf", t, l, uplo=u, kd=kd, nb=rnd.choice([1, 2, 3, 32]), A=p.mat(t, n, n, l, f=hermf(p, t, H, u, kd)))
                for b in (0, 0, 0, 1):
                    p = P(); n = rnd.choice([0, 1, 2, 3, 4]); p.den = 256
                    H = hpd(rnd, t, n, 9, rnd.randint(1, n) if b and n else 0, 1, [1, 2])
                    p.call("potri", t, l, uplo=u, A=p.mat(t, n, n, l, f=sc(256, hermf(p, t, H, u))))
        for t, l in [(t, a + b) for t in "dz" for a in "CR" for b in "CR"] + [("s", "CC"), ("c", "CC")]:
            for u in "UL":
                p = P(); n = rnd.choice([0, 1, 2, 3, 4, 5]); q = rnd.choice([0, 1, 2, 3])
                L = chol_l(rnd, t, n, 9)
                X = [[p.val(t) for _ in range(q)] for _ in range(n)]
                cj = lambda z: (z[0], -z[1])
                def B(i, j):
                    s = (0, 0)
                    for a in range(n):
                        h = (0, 0)
                        for k in range(n): h = ca(h, cm(L[i][k], cj(L[a][k])))
                        s = ca(s, cm(h, X[a][j]))
                    return s
                f = (lambda i, j: L[i][j] if i >= j else NAN) if u == "L" else (lambda i, j: cj(L[j][i]) if i <= j else NAN)
                p.call("potrs", t, l, uplo=u, A=p.mat(t, n, n, l[0], f=f), B=p.mat(t, n, q, l[1], f=B))
        for t, l in [("d", "FF"), ("d", "FB"), ("d", "BF"), ("z", "FF"), ("z", "BB"), ("s", "FF"), ("c", "FF")]:
            for b in (0, 0, 0, 1, 1):
                p = P(); n = rnd.choice([1, 2, 3, 4, 5, 6]); p.den = 16
                z = isc(t)
                d = [rnd.choice([1, 2, 4]) for _ in range(n)]
                m_ = [p.val(t, -2, 2) for _ in range(n)]
                D, E = [d[0]], []
                for i in range(n - 1):
                    e = cm(m_[i], (d[i], 0)); E.append(e)
                    D.append(d[i + 1] + (e[0] ** 2 + e[1] ** 2) // d[i])
                if b:
                    q = rnd.randrange(n); D[q] -= d[q] + rnd.choice([0, 1])
                real = 1 if z and rnd.random() < .5 else 0
                td = {"z": "d", "c": "s"}[t] if real else t
                p.call("pttrf", t, l, real=real, ec=rnd.choice([0, 1]), D=p.vec(td, n, l[0], f=lambda i: (16 * D[i], 0)),
                       E=p.vec(t, n - 1, l[1], f=lambda i: (16 * E[i][0], 16 * E[i][1])))
    return out

def lu_num(rnd, per, big=40, wk=None):
    out = []
    for _ in range(per):
        for t, l in L1:
            for alg in ("R", "0", "vR", "v0"):
                hi = rnd.choice([4, 10, 20, big]); m, n = rnd.randint(0, hi), rnd.randint(0, hi)
                inv = rnd.random() < .6
                if inv: n = m
                out.append(("n_lu", t, l, dict(alg=alg, m=m, n=n, kind=rnd.choice([0, 0, 1, 2, 5, 6]), seed=rnd.randrange(10**6),
                                               inv=int(inv), ialg=rnd.choice(["D", "C", "uili", "uxli"]), wk=rnd.choice(wk or [0, 0, 1]))))
            for u, dg in itertools.product("UL", "NU"):
                out.append(("n_trtri", t, l, dict(n=rnd.randint(0, rnd.choice([5, 20, big])), uplo=u, diag=dg, kind=0, seed=rnd.randrange(10**6))))
    return out
def chol_num(rnd, per, big=40, wk=None):
    out = []
    for _ in range(per):
        for t, l in L1:
            for alg, u in itertools.product(CHOL + ["potri", "pbtrf", "pbtrf"], "UL"):
                n = rnd.randint(0, rnd.choice([5, 12, big]))
                a = dict(alg=alg, uplo=u, n=n, nb=rnd.choice([1, 2, 3, 5, 8, 16, 32]), kind=rnd.choice([0, 0, 1, 2, 5, 6]),
                         seed=rnd.randrange(10**6), nrhs=rnd.choice([0, 1, 3]))
                if alg == "pbtrf":
                    n = a["n"] = max(n, 1); a["kd"] = rnd.randint(0, n - 1)
                if rnd.random() < .25 and n and alg not in ("pbtrf", "potri"): a["bad"] = rnd.randint(1, n)
                out.append(("n_chol", t, l, a))
            for u, h in itertools.product("UL", (0, 1)):
                for _ in range(4):
                    out.append(("n_ldl", t, l, dict(uplo=u, herm=h, n=rnd.randint(0, rnd.choice([2, 3, 5, 12, big])), nb=rnd.choice([2, 3, 4, 5, 8, 32]),
                               kind=rnd.choice([0, 1, 1, 2, 3, 3, 4, 5, 6]), zd=rnd.choice([0, 0, 1, 2, 3]), p0=rnd.choice([-99, 0, 99]), wk=rnd.choice(wk or [0, 1, 2]), seed=rnd.randrange(10**6))))
    return out
