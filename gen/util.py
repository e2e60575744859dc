"""Programs for norms, copies, fills, NaN/Inf detection."""
from lib import *
from blas import herm_f, sym_f, tri_f
LAY1 = [(t, l) for t in "dz" for l in "CR"] + [("s", "C"), ("c", "C")]
LAY2 = [(t, l) for t in "dz" for l in ("CC", "RR", "CR", "RC")] + [("s", "CC"), ("c", "CC")]
LAYV = [(t, l) for t in "dz" for l in "FB"] + [("s", "F"), ("c", "F")]
PY = [(3, 4), (4, -3), (-6, 8), (5, 12), (0, 1), (0, -2), (0, 3), (1, 0), (-2, 0), (4, 0), (0, 0), (-5, 0)]
def pval(p, t):
    """entries whose modulus is an integer, so that sums of moduli are exact"""
    return p.rnd.choice(PY) if isc(t) else (p.rnd.randint(-5, 5), 0)
def dim(r): return r.choice([0, 1, 1, 2, 3, 4, 5, 6])
def filt(p, t, uplo, diag=None, herm=False):
    def f(i, j):
        if i == j:
            if diag == "U": return None
            v = pval(p, t)
            return (v[0], p.rnd.choice([0, 7])) if herm and isc(t) else v
        if uplo == "G": return pval(p, t)
        return pval(p, t) if ((i > j) if uplo == "L" else (i < j)) else None
    return f
def put_exc(p, t, v, ref, kind):
    """overwrite one entry of view v (referenced or not) with NaN/Inf"""
    cand = [(i, j) for i in range(v.m) for j in range(v.n) if ref(i, j)]
    if not cand: return
    i, j = p.rnd.choice(cand)
    name, tt, vals = p.bufs[[b[0] for b in p.bufs].index(v.buf)]
    vals[v.off + (i + j * v.ld if v.lay == "C" else i * v.ld + j)] = kind
def in_uplo(u, i, j):
    return {"G": True, "U": i <= j, "L": i >= j, "S": i < j, "s": i > j, "H": i <= j + 1, "h": j <= i + 1}[u]
def norms(rnd, per, exc=0.0, wk=None, ops=None):
    out = []
    for op in ops or ["lange", "lansy", "lanhe", "lantr", "infg", "infs", "infh", "inft"]:
        for t, l in LAY1:
            for norm in ("M1IF" if op[0] == "l" else "I"):
                for u in (["G"] if op in ("lange", "infg") else ["U", "L"]):
                    for d in (["N", "U"] if op in ("lantr", "inft") else [None]):
                        for k in range(per):
                            p = Prog(rnd)
                            m, n = dim(rnd), dim(rnd)
                            if k == 0 and per > 1 and rnd.random() < .5: m = 0
                            if op in ("lansy", "lanhe", "infs", "infh"): n = m
                            A = p.mat(t, m, n, l, f=filt(p, t, u, d, op in ("lanhe", "infh")))
                            if rnd.random() < exc:
                                ref = lambda i, j: in_uplo(u, i, j) and not (d == "U" and i == j)
                                for _ in range(rnd.choice([1, 1, 2])):
                                    put_exc(p, t, A, ref, rnd.choice([NAN, "I", "J"]))
                            a = dict(norm=norm, A=A)
                            if u != "G": a["uplo"] = u
                            if d: a["diag"] = d
                            o = op
                            if op[:3] == "inf":
                                o = "infnorm"; a["kind"] = op[3]
                                a["wk"] = rnd.choice(wk or [0, 1, 2])
                            p.call(o, t, l, **a)
                            out.append(p)
    return out
def moves(rnd, per):
    out = []
    for op in ["lacpy", "transpose"]:
        for t, l in LAY2:
            for u in ("ULG" if op == "lacpy" else [0, 1]):
                for k in range(per):
                    p = Prog(rnd)
                    m, n = dim(rnd), dim(rnd)
                    if op == "lacpy":
                        A = p.mat(t, m, n, l[0], f=lambda i, j: p.val(t) if in_uplo(u, i, j) else None)
                        B = p.mat(t, m + rnd.choice([0, 0, 2]), n + rnd.choice([0, 0, 1]), l[1])
                        p.call(op, t, l, uplo=u, A=A, B=B)
                    else:
                        if rnd.random() < .5: m, n = rnd.choice([(7, 5), (5, 7), (9, 9), (6, 13), (17, 4), (20, 18)])
                        A = p.mat(t, m, n, l[0]); B = p.mat(t, n, m, l[1], f=lambda i, j: NAN)
                        p.call(op, t, l, A=A, B=B, conj=u, nx=rnd.choice([2, 2, 3, 4, 16]))
                    out.append(p)
    for t, l in LAY1:
        for u in "ULG":
            for k in range(per):
                p = Prog(rnd)
                p.call("laset", t, l, uplo=u, alpha=p.val(t), beta=p.val(t), A=p.mat(t, dim(rnd), dim(rnd), l))
                out.append(p)
        for u in list("ULGSsHh") + ["B"]:
            for k in range(per):
                p = Prog(rnd)
                m, n = dim(rnd), dim(rnd)
                if u == "B": m, n = max(m, 1), max(n, 1)
                A = p.mat(t, m, n, l)
                b = rnd.choice([1, -1, 2, -2]); a = b * rnd.choice([-3, 0, 1, 2])
                x = dict(a=(a, 0), b=(b, 0), A=A)
                if u == "B": x.update(kl=rnd.randrange(m), ku=rnd.randrange(n))
                else: x["uplo"] = u
                p.call("lascl", t, l, **x)
                out.append(p)
    for t, l in LAYV:
        for k in range(per * 2):
            p = Prog(rnd)
            p.call("conjugate", t, l, x=p.vec(t, dim(rnd), l))
            out.append(p)
    return out
def larnv(rnd, per):
    out = []
    for t in "sdcz":
        for dist in (1, 2, 3, 4, 5):
            for k in range(per):
                p = Prog(rnd)
                p.call("larnv", t, "F", n=rnd.choice([0, 1, 7, 200, 200]), dist=dist, seed=rnd.randint(0, 10 ** 6))
                out.append(p)
    return out
def exc(rnd, per):
    """detection: NaN and infinities in referenced and unreferenced places"""
    out = []
    for t, l in LAY1:
        for u in list("ULGSsHh") + ["B"]:
            for k in range(per):
                p = Prog(rnd)
                m, n = dim(rnd), dim(rnd)
                kl, ku = rnd.choice([0, 1, 2, 5]), rnd.choice([0, 1, 2, 5])
                ref = (lambda i, j: i <= j + kl and j <= i + ku) if u == "B" else (lambda i, j: in_uplo(u, i, j))
                noise = rnd.random() < .7
                A = p.mat(t, m, n, l, f=lambda i, j: p.val(t) if ref(i, j) else (rnd.choice([NAN, "I"]) if noise else p.val(t)))
                for _ in range(rnd.choice([0, 1, 1, 2])):
                    put_exc(p, t, A, ref, rnd.choice([NAN, "I", "J"]))
                x = dict(A=A)
                if u == "B": x.update(kl=kl, ku=ku)
                else: x["uplo"] = u
                p.call("hasx", t, l, **x)
                out.append(p)
    for t, l in LAYV:
        for k in range(per * 3):
            p = Prog(rnd)
            n = dim(rnd)
            pr = rnd.choice([0, .2])
            p.call("hasxv", t, l, x=p.vec(t, n, l, f=lambda i: rnd.choice([NAN, "I", "J"]) if rnd.random() < pr else p.val(t)))
            out.append(p)
    return out

# ---------------------------------------------------------------- C16
import blas, blas1, scale
def exc_scales(rnd, per):
    """NaN / infinities among numbers of any magnitude"""
    it = []
    for t in "sdcz":
        E = scale.expos(t)
        for k in range(per):
            n = rnd.choice([0, 1, 2, 3, 3, 4, 5, 7])
            es = rnd.choice([E, [rnd.choice(E)], [0, 1, 2]])
            ks, w = [0] * n, []
            for i in range(n):
                a = scale.sval(rnd, t, rnd.choice(es), True)
                if isc(t):
                    b = scale.sval(rnd, t, rnd.choice(es), True)
                    if rnd.random() < .5 and "@" in a: b = "%d@%s" % (rnd.choice([q for q in (-1, 1, 3, -3, 5, -7, 9, 15) if abs(q).bit_length() <= abs(int(a.split("@")[0])).bit_length()]), a.split("@")[1])
                    else: a, b = rnd.choice([(a, "0"), ("0", a)])
                    a = a + "," + b
                w.append(a)
            for _ in range(rnd.choice([0, 1, 1, 1, 2, 3])):
                if not n: break
                i = rnd.randrange(n); q = rnd.choice("NNIJ")
                ks[i] = 1 if q == "N" else 2
                o = w[i].split(",")[0] if rnd.random() < .5 and "N" not in w[i] and "I" not in w[i] and "J" not in w[i] else "0"
                w[i] = (rnd.choice([q + "," + o, o + "," + q]) if isc(t) else q)
            it.append(("s_exc", t, dict(x=";".join(w) or "-", inc=rnd.choice([1, 1, 2]), x_=dict(k=ks))))
        for x in ["N", "I", "J", "1", "-3", "5@30", "1@-30"]:
            it.append(("strongzero", t, dict(x=x if not isc(t) else x + ",0", fin=0 if x in "NIJ" else 1)))
    rnd.shuffle(it)
    return scale.batch(rnd, it)
def taint(p, v, ref=lambda i, j: True, n=None):
    """put NaN/Inf at places of an operand"""
    for _ in range(n or p.rnd.choice([1, 1, 2, 4])):
        if isinstance(v, Vec):
            if not v.n: return
            vals = p.bufs[[b[0] for b in p.bufs].index(v.buf)][2]
            i = p.rnd.randrange(v.n)
            vals[v.off + i * v.inc] = p.rnd.choice([NAN, NAN, "I", "J"])
        else: put_exc(p, None, v, ref, p.rnd.choice([NAN, NAN, "I", "J"]))
def strong(rnd, per):
    """exceptional values in the output operand, with beta absent, zero, other"""
    out = []
    jobs = [(op, fl, lay, 3) for op, fls in blas.FL3.items() if op not in ("trmm", "trsm") for fl in fls for lay in blas.lays3(op)]
    jobs += [(op, fl, lay, 2) for op, fls in blas.FL2.items() if op not in ("trmv", "trsv") for fl in fls for lay in blas.lays2(op)]
    for op, fl, (t, lay), lev in jobs:
        if "G" in fl and op not in ("hemm", "symm"): continue
        for k in range(per):
            p = (blas.b3 if lev == 3 else blas.b2)(op, rnd, t, lay, fl)
            _, _, _, a = p.calls[0]
            if op not in ("ger", "geru", "her", "syr", "her2", "syr2"):
                m = k % 3
                if m == 0: a.pop("beta", None)
                elif m == 1: a["beta"] = (0, 0)
                else: a["beta"] = rnd.choice([(0, 0), (1, 0), (2, 0), (-1, 0)])
            v = a["A"] if op in ("ger", "geru", "her", "syr", "her2", "syr2") else a.get("C") or a["y"]
            # the builder fills the output with NaN when beta is absent
            vals = p.bufs[[b[0] for b in p.bufs].index(v.buf)][2]
            cells = [v.off + i * v.inc for i in range(v.n)] if isinstance(v, Vec) else \
                [v.off + (i + j * v.ld if v.lay == "C" else i * v.ld + j) for i in range(v.m) for j in range(v.n)]
            for q in cells:
                if not isinstance(vals[q], tuple) or abs(vals[q][0]) > 50: vals[q] = p.val(t)
                if isc(t) and abs(vals[q][1]) > 50: vals[q] = (vals[q][0], 0)
            uplo = a.get("uplo", "G") if op not in ("hemm", "symm", "hemv", "symv") else "G"
            taint(p, v, lambda i, j: in_uplo(uplo, i, j))
            a["x_"] = {"exc": 1}
            out.append(p)
    for t, l in blas1.combos1():
        for k in range(per * 2):
            p = Prog(rnd)
            x = p.vec(t, dim(rnd), l); taint(p, x)
            p.call("scal", t, l, alpha=rnd.choice([(0, 0), (0, 0), (1, 0), (2, 0)]), x=x, x_={"exc": 1})
            out.append(p)
            for op in ("asum", "nrm2", "iamax"):
                p = Prog(rnd)
                x = p.vec(t, rnd.choice([1, 2, 3, 5, 8]), l); taint(p, x)
                kw = {}
                if op == "iamax": kw["kind"] = rnd.choice(["def", "ec", "optec", "abs"])
                p.call(op, t, l, x=x, **kw)
                out.append(p)
    for t, l in blas1.combos2():
        for k in range(per * 2):
            p = Prog(rnd)
            n = rnd.choice([1, 2, 4, 6])
            x = p.vec(t, n, l[0]); y = p.vec(t, n, l[1])
            z = rnd.choice([x, y])
            vals = p.bufs[[b[0] for b in p.bufs].index(z.buf)][2]
            vals[z.off + rnd.randrange(n) * z.inc] = NAN
            p.call(rnd.choice(["dot", "dotu"]), t, l, x=x, y=y)
            out.append(p)
            p = Prog(rnd)
            x = p.vec(t, n, l[0]); y = p.vec(t, n, l[1]); taint(p, y)
            p.call("axpy", t, l, alpha=rnd.choice([(0, 0), (2, 0)]), x=x, y=y, x_={"exc": 1})
            out.append(p)
    return out
