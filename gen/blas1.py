"""Programs for the level 1 BLAS."""
from lib import *
def rs(p, t, k=3): return p.val(t, -k, k)
L2D = ["FF", "FB", "BF", "BB"]
def combos2(): return [(t, l) for t in "dz" for l in L2D] + [("s", "FF"), ("c", "FF")]
def combos1(): return [(t, l) for t in "dz" for l in "FB"] + [("s", "F"), ("c", "F")]
def length(r): return r.choice([0, 1, 1, 2, 3, 4, 5, 7, 9])
SQ = [(3, 4), (5, 12), (8, 15), (0, 7), (2, 0)]
def exact(rnd, per):
    out = []
    for op in ["copy", "swap", "axpy", "dot", "dotu", "rot", "rotm"]:
        for t, l in combos2():
            if op == "rotm" and isc(t): continue
            for k in range(per * (2 if op in ("rotm", "copy", "axpy") else 1)):
                p = Prog(rnd)
                n = 0 if k == 0 else length(rnd)
                ny = n + (rnd.choice([0, 0, 1, 2]) if op in ("copy", "axpy") else 0)
                x = p.vec(t, n, l[0])
                y = p.vec(t, ny, l[1])
                a = dict(x=x, y=y)
                if op == "axpy": a = dict(alpha=rnd.choice([(0, 0), (1, 0), (-1, 0), rs(p, t)]), **a)
                if op == "rot":
                    a["c"] = (rnd.randint(-3, 3), 0); a["s"] = rs(p, t)
                if op == "rotm":
                    a["flag"] = [-2, -1, 0, 1][k % 4]
                    for q in ("h11", "h21", "h12", "h22"):
                        a[q] = rs(p, t)
                p.call(op, t, l, **a)
                out.append(p)
    for op in ["scal", "asum", "nrm2", "iamax"]:
        for t, l in combos1():
            for k in range(per * (4 if op == "iamax" else 2)):
                p = Prog(rnd)
                n = 0 if k == 0 else length(rnd)
                if op == "nrm2":   # norms that are integers
                    base = [0] * n
                    if n:
                        a_, b_ = rnd.choice(SQ)
                        idx = list(range(n)); rnd.shuffle(idx)
                        base[idx[0]] = rnd.choice([-1, 1]) * a_
                        if n > 1: base[idx[1]] = rnd.choice([-1, 1]) * b_
                        elif a_ and b_: base[0] = (a_, b_) if isc(t) else a_
                    x = p.vec(t, n, l, f=lambda i: base[i] if isinstance(base[i], tuple) else ((0, base[i]) if isc(t) and rnd.random() < .4 else (base[i], 0)))
                    p.call("nrm2", t, l, x=x)
                elif op == "iamax":
                    K = rnd.choice([1, 2, 5])
                    x = p.vec(t, n, l, lo=-K, hi=K)
                    p.call("iamax", t, l, x=x, kind=["def", "ec", "nc", "optec", "optnc", "abs"][k % 6])
                elif op == "scal":
                    x = p.vec(t, n, l)
                    if rnd.random() < .4: p.call("scal", t, l, ralpha=(rnd.choice([0, 1, -1, 3]), 0), x=x)
                    else: p.call("scal", t, l, alpha=rnd.choice([(0, 0), (1, 0), rs(p, t)]), x=x)
                else:
                    p.call(op, t, l, x=p.vec(t, n, l))
                out.append(p)
    return out
def history(rnd, n):
    """several calls on interleaved strided parts of one array"""
    out = []
    for _ in range(n):
        p = Prog(rnd)
        t = rnd.choice("dz")
        N = rnd.choice([2, 3, 4, 5])
        inc = rnd.choice([2, 3])
        b = p.buf(t, [p.val(t) for _ in range(inc * N)])
        def v(): 
            o = rnd.randrange(inc)
            return o, lambda d: Vec(b, o, N, inc, d)
        for _ in range(4):
            o1, f1 = v(); o2, f2 = v()
            while o2 == o1: o2, f2 = v()
            d = rnd.choice(L2D)
            op = rnd.choice(["copy", "swap", "axpy", "rot", "dot", "scal", "dotu", "asum"])
            x, y = f1(d[0]), f2(d[1])
            if op == "scal": p.call(op, t, d[0], alpha=rs(p, t, 2), x=x)
            elif op == "asum": p.call(op, t, d[0], x=x)
            elif op == "axpy": p.call(op, t, d, alpha=rs(p, t, 2), x=x, y=y)
            elif op == "rot": p.call(op, t, d, x=x, y=y, c=(rnd.choice([0, 1, 2]), 0), s=rs(p, t, 1))
            else: p.call(op, t, d, x=x, y=y)
        out.append(p)
    return out
