"""Programs for the BLAS: every routine, flag combination, layout, shape."""
import itertools
from lib import *

L3 = ["CCC", "RRR", "RCC", "CRC", "CCR"]
L2 = ["CC", "RR", "RC", "CR"]
LV3 = ["CFF", "RFF", "CBF", "RFB"]
LV2 = ["CF", "RF", "CB", "RB"]
def combos(dz, one):
    return [(t, l) for t in "dz" for l in dz] + [("s", one), ("c", one)]

def scal_of(p, t, real=False, zero=True):
    k = p.rnd.random()
    if k < .2: return (1, 0)
    if k < .3: return (-1, 0)
    if k < .42 and zero: return (0, 0)
    v = p.val(t)
    return (v[0], 0) if real else v

def tri_f(p, t, uplo, diag, own=lambda i, j: None):
    """entries of a triangular operand; unreferenced ones are junk"""
    def f(i, j):
        if i == j: return None if diag == "U" else p.val(t)
        ref = (i > j) if uplo == "L" else (i < j)
        return p.val(t) if ref else None
    return f
def herm_f(p, t, uplo, n, junkdiag=True):
    g = {}
    def f(i, j):
        if i == j:
            v = p.val(t)
            # imaginary part of a Hermitian diagonal is not referenced
            return (v[0], p.rnd.randint(100, 999) if isc(t) and junkdiag else 0)
        if uplo == "G":
            if (j, i) in g:
                w = g[(j, i)]
                return (w[0], -w[1])
            g[(i, j)] = p.val(t)
            return g[(i, j)]
        ref = (i > j) if uplo == "L" else (i < j)
        return p.val(t) if ref else None
    return f
def sym_f(p, t, uplo, n):
    g = {}
    def f(i, j):
        if i == j: return p.val(t)
        if uplo == "G":
            if (j, i) in g: return g[(j, i)]
            g[(i, j)] = p.val(t)
            return g[(i, j)]
        ref = (i > j) if uplo == "L" else (i < j)
        return p.val(t) if ref else None
    return f
def inv_tri_f(p, t, uplo, diag):
    units = [(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if isc(t) else [])
    def f(i, j):
        if i == j: return None if diag == "U" else p.rnd.choice(units)
        ref = (i > j) if uplo == "L" else (i < j)
        return p.val(t, -2, 2) if ref else None
    return f

def dims(p, k, zero=True):
    """k dimensions; usually small, sometimes zero or one"""
    r = p.rnd
    return [0 if zero and r.random() < .06 else min(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]), p.maxd) for _ in range(k)]

def sp(t, k):
    """scalar types of the k operands, alpha and beta"""
    return t if len(t) > 1 else [t] * (k + 2)

def b3(op, rnd, t, lay, fl, prog=None):
    p = prog or Prog(rnd)
    a = {}
    two = op in ("herk", "syrk", "trmm", "trsm")
    if two:
        tA, tB, tal, tbe = sp(t, 2); tC = tB
    else: tA, tB, tC, tal, tbe = sp(t, 3)
    if op == "gemm":
        m, n, k = dims(p, 3)
        ta, tb = fl
        A = p.mat(tA, *((m, k) if ta == "N" else (k, m)), lay[0])
        B = p.mat(tB, *((k, n) if tb == "N" else (n, k)), lay[1])
        nb = p.rnd.random() < .3
        C = p.mat(tC, m, n, lay[2], f=(lambda i, j: NAN) if nb else None)
        a = dict(ta=ta, tb=tb, alpha=scal_of(p, tal), A=A, B=B, C=C)
        if not nb: a["beta"] = scal_of(p, tbe)
    elif op in ("hemm", "symm"):
        side, uplo = fl
        m, n = dims(p, 2)
        q = m if side == "L" else n
        A = p.mat(tA, q, q, lay[0], f=(herm_f if op == "hemm" else sym_f)(p, tA, uplo, q))
        if uplo == "G" and op == "hemm":  # a full Hermitian operand
            A = p.mat(tA, q, q, lay[0], f=herm_f(p, tA, uplo, q))
        B = p.mat(tB, m, n, lay[1])
        nb = p.rnd.random() < .3
        C = p.mat(tC, m, n, lay[2], f=(lambda i, j: NAN) if nb else None)
        a = dict(side=side, uplo=uplo, alpha=scal_of(p, tal), A=A, B=B, C=C)
        if not nb: a["beta"] = scal_of(p, tbe)
    elif op in ("herk", "syrk", "her2k", "syr2k"):
        uplo, tr = fl
        n, k = dims(p, 2)
        tr = "N" if tr == 0 else ("C" if op[0] == "h" else "T")
        A = p.mat(tA, *((n, k) if tr == "N" else (k, n)), lay[0])
        nb = p.rnd.random() < .3
        hf = herm_f if op[0] == "h" else sym_f
        C = p.mat(tC, n, n, lay[-1], f=(lambda i, j: NAN) if nb else hf(p, tC, uplo, n))
        a = dict(uplo=uplo, trans=tr, alpha=scal_of(p, tal, real=(op == "herk")), A=A, C=C)
        if "2" in op: a["B"] = p.mat(tB, *((n, k) if tr == "N" else (k, n)), lay[1])
        if not nb: a["beta"] = scal_of(p, tbe, real=(op[0] == "h"))
    elif op in ("trmm", "trsm"):
        side, uplo, tr, dg = fl
        m, n = dims(p, 2)
        q = m if side == "L" else n
        A = p.mat(tA, q, q, lay[0], f=(inv_tri_f if op == "trsm" else tri_f)(p, tA, uplo, dg))
        B = p.mat(tB, m, n, lay[1])
        al = scal_of(p, tal)
        a = dict(side=side, uplo=uplo, trans=tr, diag=dg, alpha=al, A=A, B=B)
    p.call(op, t, lay, **a)
    return p

def b2(op, rnd, t, lay, fl, prog=None):
    p = prog or Prog(rnd)
    if op in ("her", "syr", "trmv", "trsv"):
        tA, tx, tal, tbe = sp(t, 2)
    else: tA, tx, ty, tal, tbe = sp(t, 3)
    nb = p.rnd.random() < .3
    if op == "gemv":
        m, n = dims(p, 2)
        (tr,) = fl
        A = p.mat(tA, m, n, lay[0])
        nx, ny = (n, m) if tr in "NJ" else (m, n)
        x = p.vec(tx, nx, lay[1]); y = p.vec(ty, ny, lay[2], f=(lambda i: NAN) if nb else None)
        a = dict(trans=tr, alpha=scal_of(p, tal), A=A, x=x, y=y)
        if not nb: a["beta"] = scal_of(p, tbe)
    elif op in ("hemv", "symv"):
        (n,) = dims(p, 1)
        (uplo,) = fl
        A = p.mat(tA, n, n, lay[0], f=(herm_f if op == "hemv" else sym_f)(p, tA, uplo, n))
        x = p.vec(tx, n, lay[1]); y = p.vec(ty, n, lay[2], f=(lambda i: NAN) if nb else None)
        a = dict(uplo=uplo, alpha=scal_of(p, tal), A=A, x=x, y=y)
        if not nb: a["beta"] = scal_of(p, tbe)
    elif op in ("ger", "geru"):
        m, n = dims(p, 2)
        a = dict(alpha=scal_of(p, tal), A=p.mat(tA, m, n, lay[0]), x=p.vec(tx, m, lay[1]), y=p.vec(ty, n, lay[2]))
    elif op in ("her", "syr", "her2", "syr2"):
        (n,) = dims(p, 1)
        (uplo,) = fl
        A = p.mat(tA, n, n, lay[0], f=(herm_f if op[0] == "h" else sym_f)(p, tA, uplo, n))
        a = dict(uplo=uplo, alpha=scal_of(p, tal, real=(op == "her")), A=A, x=p.vec(tx, n, lay[1]))
        if "2" in op: a["y"] = p.vec(ty, n, lay[2])
    elif op in ("trmv", "trsv"):
        (n,) = dims(p, 1)
        uplo, tr, dg = fl
        A = p.mat(tA, n, n, lay[0], f=(inv_tri_f if op == "trsv" else tri_f)(p, tA, uplo, dg))
        a = dict(uplo=uplo, trans=tr, diag=dg, A=A, x=p.vec(tx, n, lay[1]))
    p.call(op, t, lay, **a)
    return p

FL3 = {
    "gemm": list(itertools.product("NTC", "NTC")),
    "hemm": list(itertools.product("LR", "LUG")), "symm": list(itertools.product("LR", "LUG")),
    "herk": list(itertools.product("LUG", (0, 1))), "syrk": list(itertools.product("LUG", (0, 1))),
    "her2k": list(itertools.product("LUG", (0, 1))), "syr2k": list(itertools.product("LUG", (0, 1))),
    "trmm": list(itertools.product("LR", "LU", "NTC", "NU")),
    "trsm": list(itertools.product("LR", "LU", "NTC", "NU")),
}
FL2 = {
    "gemv": [("N",), ("T",), ("C",), ("J",)], "hemv": [("L",), ("U",)], "symv": [("L",), ("U",)],
    "ger": [()], "geru": [()], "her": [("L",), ("U",)], "syr": [("L",), ("U",)],
    "her2": [("L",), ("U",)], "syr2": [("L",), ("U",)],
    "trmv": list(itertools.product("LU", "NTCJ", "NU")), "trsv": list(itertools.product("LU", "NTCJ", "NU")),
}
def lays3(op):
    return combos(L2, "CC") if op in ("herk", "syrk", "trmm", "trsm") else combos(L3, "CCC")
def lays2(op):
    return combos(LV2, "CF") if op in ("her", "syr", "trmv", "trsv") else combos(LV3, "CFF")

def blas23(rnd, per):
    """every routine x flag tuple x (type, layout), `per` random shapes each"""
    out = []
    for op, fls in FL3.items():
        for fl in fls:
            for t, lay in lays3(op):
                for _ in range(per if len(fls) < 12 else max(1, per // 2)):
                    out.append(b3(op, rnd, t, lay, fl))
    for op, fls in FL2.items():
        for fl in fls:
            for t, lay in lays2(op):
                for _ in range(per if len(fls) < 12 else max(1, per // 2)):
                    out.append(b2(op, rnd, t, lay, fl))
    return out

def chain23(rnd, n):
    """histories: several calls whose operands are blocks of one matrix"""
    out = []
    for _ in range(n):
        p = Prog(rnd)
        t = rnd.choice("dz")
        l = rnd.choice("CR")
        N = rnd.choice([4, 5, 6])
        M = p.mat(t, N, N, l, lo=-1, hi=1)
        W = p.mat(t, N, N, l, lo=-1, hi=1)
        for _ in range(3):
            op = rnd.choice(["gemm", "herk", "syrk", "trmm", "hemm", "symm", "her2k", "gemm"])
            k = rnd.randint(1, N - 2)
            r = N - k
            # M = [A11 A12; A21 A22], blocks of size k and r
            A11, A12, A21, A22 = M.sub(0, 0, k, k), M.sub(0, k, k, r), M.sub(k, 0, r, k), M.sub(k, k, r, r)
            if op == "gemm":
                p.call("gemm", t, l * 3, ta="N", tb="N", alpha=(-1, 0), A=A21, B=A12, beta=(1, 0), C=A22)
            elif op in ("herk", "syrk"):
                p.call(op, t, l * 2, uplo=rnd.choice("UL"), trans="N", alpha=(-1, 0), A=A21, beta=(1, 0), C=A22)
            elif op == "trmm":
                p.call(op, t, l * 2, side="R", uplo=rnd.choice("UL"), trans=rnd.choice("NTC"), diag=rnd.choice("NU"),
                       alpha=(1, 0), A=A11, B=A21)
            elif op in ("hemm", "symm"):
                p.call(op, t, l * 3, side="L", uplo=rnd.choice("UL"), alpha=(1, 0), A=A11, B=W.sub(0, 0, k, r),
                       beta=(1, 0), C=A12)
            else:
                p.call(op, t, l * 3, uplo=rnd.choice("UL"), trans="N", alpha=(1, 0), A=A21, B=W.sub(0, 0, r, k),
                       beta=(1, 0), C=A22)
        out.append(p)
    return out


# ---- operands of different scalar types
class Big(str):
    """a real type whose values need more digits than float has"""
class MProg(Prog):
    def val(s, t, lo=-3, hi=3):
        if isinstance(t, Big): return (s.rnd.choice([-1, 1]) * (2 ** 24 + 2 * s.rnd.randrange(2 ** 18) + 1), 0)
        if s.vr: lo, hi = max(lo, -s.vr), min(hi, s.vr)
        return Prog.val(s, t, lo, hi)
# operands in order (A, B, C / A, x, y / A, C / A, B / A, x), alpha, beta
MIX3 = ["dzzzz", "zdzzz", "ddzzd", "zzzdd", "sdddd", "dsddd", "sddss", "ssdss", "ssddd", "dddss", "ddsdd"]
MIX3O = ["zdddd", "zzddd", "zdzzz", "zzdzz", "dsddd", "ddsdd", "dssdd", "dssss", "dddss", "sdddd"]
MIX2 = ["dzzz", "dzdd", "zzdd", "sddd", "sdss", "dsdd"]
MIX2O = ["zdzz", "zddd", "zzdd", "dsdd", "dsss", "sddd"]
def mixes(op):
    if op in ("ger", "geru", "her2", "syr2"): return MIX3O, 0
    if op in ("her", "syr"): return MIX2O, 0
    return (MIX2, 1) if op in ("herk", "syrk", "trmm", "trsm", "trmv", "trsv") else (MIX3, 2)
def mixed(rnd, per):
    out = []
    for op, fls in list(FL3.items()) + list(FL2.items()):
        keys, o = mixes(op)
        l3 = op in FL3
        lays = (["CC", "RC"] if len(keys[0]) == 4 else ["CCC", "RCR"]) if l3 else (["CF", "RB"] if len(keys[0]) == 4 else ["CFF", "RBF"])
        for key in keys:
            for fl in fls:
                for _ in range(per if len(fls) < 12 else max(1, per // 3)):
                    p = MProg(rnd)
                    p.vr, ty = 0, list(key)
                    if "s" in key:
                        p.vr, p.maxd = 2, 3
                        if key[o] == "d":      # the result holds the long values
                            inp = [i for i in range(len(key) - 1) if i != o and key[i] == "d"]
                            inp = [i for i in inp if i < len(key) - 2] or inp
                            if op in ("trmm", "trsm", "trmv", "trsv", "herk", "syrk", "her", "syr"):
                                inp = [o] if op[0] == "t" else [i for i in inp if i == len(key) - 2]
                            elif rnd.random() < .5: ty[o] = Big("d")
                            if inp:
                                i = rnd.choice(inp)
                                ty[i] = Big("d")
                    p.tag = "mixed"
                    (b3 if l3 else b2)(op, rnd, ty, rnd.choice(lays), fl, p)
                    p.calls = [(o2, key, l, a) for o2, t, l, a in p.calls]
                    out.append(p)
    return out
