"""Programs for reflectors, block reflectors and implicit unitary matrices.
Vectors and scalars are small integers (reflectors need not be unitary for
their defining formula to hold), implied ones and zeros are junk."""
import itertools
from lib import *
LV = [("d", "FC"), ("d", "BR"), ("z", "FC"), ("z", "FR"), ("s", "FC"), ("c", "FR")]
L2 = [("d", "CC"), ("d", "RR"), ("d", "CR"), ("z", "CC"), ("z", "RR"), ("z", "RC"), ("s", "CC"), ("c", "CC")]
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]

def vval(p, t):
    r = p.rnd
    if r.random() < .45: return (0, 0)
    if isc(t): return r.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1)])
    return (r.choice([1, -1, 1, -1, 2]), 0)
def tauv(p, t):
    r = p.rnd
    if isc(t): return r.choice([(0, 0), (1, 0), (0, 1), (1, -1), (0, -1), (-1, 0), (1, 1)])
    return (r.choice([0, 1, 1, -1, 2]), 0)
def refl_f(p, t, direc, storev, q, k):
    """entries of an array of k reflectors of length q, junk where not referenced"""
    def f(a, b):
        i, pos = (b, a) if storev == "C" else (a, b)
        if i >= k: return None
        u = i if direc == "F" else q - k + i
        if (pos > u) if direc == "F" else (pos < u): return vval(p, t)
        return None
    return f
def tauvec(p, t, k): return p.vec(t, k, "F", f=lambda i: tauv(p, t))
def kq(rnd, t):
    k = rnd.choice([0, 1, 2, 3, 4] + ([5] if t in "dz" else []))
    return k, k + rnd.choice([0, 1, 1, 2, 3])
def trs(t): return "NC" if isc(t) else "NTC"
def wks(rnd): return rnd.choice([0, 0, 1, 2])

def qmul(p, t, l, op, direc, storev, side, trans, fixed, **o):
    r = p.rnd
    k, q = kq(r, t)
    w = r.choice([0, 1, 2, 3, 5])
    V = p.mat(t, *((q, k) if storev == "C" else (k, q)), l[0], f=refl_f(p, t, direc, storev, q, k))
    C = p.mat(t, *((q, w) if side == "L" else (w, q)), l[1])
    a = dict(side=side, trans=trans)
    if not fixed: a.update(direc=direc, storev=storev)
    p.call(op, t, l, V=V, tau=tauvec(p, t, k), C=C, **a, **o)

def progs(rnd, per, only=None, wk=None):
    """only: subset of operations; wk: forced workspace mode"""
    out = []
    W = (lambda: rnd.choice(wk)) if wk else (lambda: wks(rnd))
    def P():
        p = Prog(rnd); out.append(p); return p
    def on(op): return only is None or op in only
    for _ in range(per):
        for t, l in LV:
            for s, v in itertools.product("LR", "CR"):
                for _ in range(2):
                    if not on("larf"): break
                    p = P(); m, n = rnd.choice([0, 1, 2, 3, 4]), rnd.choice([0, 1, 2, 3, 5])
                    x = p.vec(t, m if s == "L" else n, l[0]); C0 = p.vec(t, n if s == "L" else m, l[0])
                    p.call("larf", t, l, side=s, storev=v, x=x, tau=p.val(t), C0=C0, C1=p.mat(t, m, n, l[1]), wk=W())
                for d in "FB":
                    if not on("larf"): break
                    p = P(); m, n = rnd.choice([0, 1, 2, 3, 4]), rnd.choice([0, 1, 2, 3, 5])
                    q = m if s == "L" else n
                    x = p.vec(t, q, l[0], f=lambda i: None if i == (0 if d == "F" else q - 1) else p.val(t))
                    p.call("larfv", t, l, side=s, direc=d, storev=v, v=x, tau=p.val(t), C=p.mat(t, m, n, l[1]), wk=W())
        for t, l in L2:
            for d, v in itertools.product("FB", "CR"):
                if on("larft"):
                  for _ in range(3):
                    p = P(); k, q = kq(rnd, t)
                    ex = rnd.choice([0, 0, 1])
                    # extra columns (rows) of V beyond k are not used (Forward)
                    ex = ex if d == "F" else 0
                    kk = k + ex
                    V = p.mat(t, *((q, kk) if v == "C" else (kk, q)), l[0], f=refl_f(p, t, d, v, q, k))
                    e2 = rnd.choice([0, 1])
                    p.call("larft", t, l, direc=d, storev=v, V=V, tau=tauvec(p, t, k), T=p.mat(t, k + e2, k + e2, l[1], f=lambda i, j: None))
                if on("larfb"):
                  for s, tr in itertools.product("LR", trs(t)):
                    p = P(); k, q = kq(rnd, t); w = rnd.choice([0, 1, 2, 3, 5])
                    V = p.mat(t, *((q, k) if v == "C" else (k, q)), l[0], f=refl_f(p, t, d, v, q, k))
                    T = p.mat(t, k, k, l[0], f=lambda i, j: (p.val(t, -2, 2) if (i <= j) == (d == "F") or i == j else None))
                    C = p.mat(t, *((q, w) if s == "L" else (w, q)), l[1])
                    p.call("larfb", t, l, side=s, trans=tr, direc=d, storev=v, V=V, T=T, C=C, wk=W())
                for s, tr in itertools.product("LR", trs(t)):
                    nb = rnd.choice([1, 2, 3, 4, 32])
                    if on("unmq"): qmul(P(), t, l, "unmq", d, v, s, tr, False, nb=nb, wk=W())
                    if on("unmq_level2"): qmul(P(), t, l, "unmq_level2", d, v, s, tr, False, wk=W())
                    if on("householder_q_mul"): qmul(P(), t, l, "householder_q_mul", d, v, s, tr, False, nb=nb, variant=rnd.choice("2B"), wk=W())
            if not on("unm"): continue
            for op, d, v in (("unm2r", "F", "C"), ("unm2l", "B", "C"), ("unml2", "F", "R"), ("unmr2", "B", "R")):
                for s, tr in itertools.product("LR", trs(t)): qmul(P(), t, l, op, d, v, s, tr, True)
            for op, d, v in (("unmqr", "F", "C"), ("unmql", "B", "C"), ("unmlq", "F", "R"), ("unmrq", "B", "R")):
                for s, tr in itertools.product("LR", trs(t)): qmul(P(), t, l, op, d, v, s, tr, True, nb=rnd.choice([1, 2, 3, 32]))
        for t, l in L1:
            if not on("unmhr"): break
            for s, tr in itertools.product("LR", trs(t)):
                p = P(); n = rnd.choice([1, 2, 3, 4, 5, 6]); w = rnd.choice([0, 1, 2, 3, 4])
                lo = rnd.randrange(n); hi = rnd.randint(lo if rnd.random() < .1 else lo + 1, n)
                V = p.mat(t, n, n, l, f=lambda i, j: vval(p, t) if i > j + 1 and lo <= j < hi - 1 and i < hi else None)
                tau = p.vec(t, n - 1, "F", f=lambda i: tauv(p, t) if lo <= i < hi - 1 else None)
                p.call("unmhr", t, l, side=s, trans=tr, ilo=lo, ihi=hi, V=V, tau=tau, C=p.mat(t, *((n, w) if s == "L" else (w, n)), l), wk=W())
    return out
