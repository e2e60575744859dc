"""Programs for the structured product kernels."""
import itertools
from lib import *
from blas import herm_f, tri_f, inv_tri_f, scal_of
from util import LAY1, LAY2
LAY3 = [(t, l) for t in "dz" for l in ("CCC", "RRR", "CRC", "RCC", "CCR")] + [("s", "CCC"), ("c", "CCC")]
def dim(r): return r.choice([0, 1, 2, 2, 3, 4, 5, 6, 7])
def progs(rnd, per):
    out = []
    def P(): 
        p = Prog(rnd); out.append(p); return p
    def C_(p, t, m, n, l, a):
        nb = rnd.random() < .35
        C = p.mat(t, m, n, l, f=(lambda i, j: NAN) if nb else None)
        if not nb: a["beta"] = scal_of(p, t)
        return C
    for t, l in LAY3:
        for k in range(per):
            for u, ta, tb in itertools.product("UL", "NTC", "NTC"):
                p = P(); n, q = dim(rnd), dim(rnd); a = {}
                A = p.mat(t, *((n, q) if ta == "N" else (q, n)), l[0]); B = p.mat(t, *((q, n) if tb == "N" else (n, q)), l[1])
                C = C_(p, t, n, n, l[2], a)
                p.call("gemmtr", t, l, uplo=u, ta=ta, tb=tb, alpha=scal_of(p, t), A=A, B=B, C=C, **a)
            for s, u, tb in itertools.product("LR", "UL", "NTC"):
                for op in ("hemm2", "trmm_out"):
                    for dg in ("NU" if op == "trmm_out" else "N"):
                        p = P(); m, n = dim(rnd), dim(rnd); a = {}
                        q = m if s == "L" else n
                        A = p.mat(t, q, q, l[0], f=herm_f(p, t, u, q) if op == "hemm2" else tri_f(p, t, u, dg))
                        B = p.mat(t, *((m, n) if tb == "N" else (n, m)), l[1])
                        C = C_(p, t, m, n, l[2], a)
                        if op == "trmm_out": a["diag"] = dg
                        p.call(op, t, l, side=s, uplo=u, tb=tb, alpha=scal_of(p, t), A=A, B=B, C=C, **a)
            for u in "UL":
                for _ in range(3):
                    p = P(); n = dim(rnd); a = {}
                    A = p.mat(t, n, n, l[0], f=herm_f(p, t, u, n)); B = p.mat(t, n, n, l[1], f=herm_f(p, t, u, n))
                    C = C_(p, t, n, n, l[2], a)
                    p.call("mult_hehe", t, l, uplo=u, alpha=scal_of(p, t), A=A, B=B, C=C, **a)
    for t, l in LAY2:
        for k in range(per):
            for s, u, tr, dg in itertools.product("LR", "UL", "NTC", "NU"):
                p = P(); n = rnd.choice([0, 1, 2, 3, 4, 5, 6])
                ua = u if tr == "N" else ("L" if u == "U" else "U")
                A = p.mat(t, n, n, l[0], f=inv_tri_f(p, t, ua, dg)); B = p.mat(t, n, n, l[1], f=tri_f(p, t, u, "N"))
                p.call("trsm_tri", t, l, side=s, uplo=u, trans=tr, diag=dg, alpha=scal_of(p, t), A=A, B=B)
            for s, u, tr, dg in itertools.product("LR", "UL", "NTC", "NU"):
                ok = (s, u, tr) == ("L", "U", "N")
                for _ in range(4 if ok else 1):
                    p = P(); m, n = dim(rnd), dim(rnd)
                    q = m if s == "L" else n
                    nb = rnd.choice([1, 2, 3, 4, 32])
                    mx = rnd.choice([0, 1]) if not isc(t) else 0
                    A = p.mat(t, q, q, l[0], f=tri_f(p, t, u, dg)); B = p.mat(t, m, n, l[1])
                    w = max(min(nb, m), 0)
                    tw = t if not mx else {"d": "s", "z": "c", "s": "s", "c": "c"}[t]
                    W = p.mat(tw, w, n, l[1], pad=0, f=lambda i, j: NAN)
                    p.call("trmm_blocked_mixed", t, l, side=s, uplo=u, trans=tr, diag=dg, alpha=scal_of(p, t), A=A, B=B, W=W, nb=nb, mixed=mx,
                           x_={} if ok else {"thr": "runtime"})
    for t, l in LAY1:
        for k in range(per * 3):
            for u in "UL":
                p = P(); n = dim(rnd)
                p.call("lauum", t, l, uplo=u, A=p.mat(t, n, n, l, f=tri_f(p, t, u, "N")))
            for op, u in (("mult_uhu", "U"), ("mult_llh", "L")):
                p = P(); n = rnd.choice([0, 1, 2, 3, 5, 8, 9])
                p.call(op, t, l, A=p.mat(t, n, n, l, f=tri_f(p, t, u, "N")), nx=rnd.choice([1, 1, 2, 3, 4, 16]))
            p = P(); n = dim(rnd); p.call("ul_mult", t, l, A=p.mat(t, n, n, l))
            p = P(); n = rnd.choice([0, 1, 2, 3, 5, 8, 9]); p.call("lu_mult", t, l, A=p.mat(t, n, n, l), nx=rnd.choice([1, 1, 2, 3, 4, 16]))
    return out
