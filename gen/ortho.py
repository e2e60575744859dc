"""Programs for QR/LQ/QL/RQ: exact generators of the unitary factor on integer
reflectors, and measured factorizations."""
import itertools
from lib import *
from house import refl_f, tauvec, vval
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]
KIND = dict(ung2r="FC", ungqr="FC", ung2l="BC", ungql="BC", ungl2="FR", unglq="FR", ungr2="BR", ungrq="BR")

def ung(p, t, l, op, d, v, fixed, **o):
    r = p.rnd
    k = r.choice([0, 1, 2, 3, 4] + ([5] if t in "dz" else []))
    w = k + r.choice([0, 0, 1, 2]); q = w + r.choice([0, 0, 1, 2, 3])
    rf = refl_f(p, t, d, v, q, k)
    def f(a, b):
        i, pos = (b, a) if v == "C" else (a, b)
        if d == "B": i -= w - k
        if i < 0: return None
        return rf(pos, i) if v == "C" else rf(i, pos)
    m, n = (q, w) if v == "C" else (w, q)
    a = {} if fixed else dict(direc=d, storev=v)
    p.call(op, t, l, A=p.mat(t, m, n, l, f=f), tau=tauvec(p, t, k), **a, **o)

def gens(rnd, per, wk=None):
    out = []
    W = (lambda: rnd.choice(wk)) if wk else (lambda: rnd.choice([0, 0, 1]))
    def P():
        p = Prog(rnd); out.append(p); return p
    for _ in range(per):
        for t, l in L1:
            for op, dv in KIND.items():
                for _ in range(2):
                    if op[3] == "2" or op[4] == "2": ung(P(), t, l, op, dv[0], dv[1], True, wk=W())
                    elif not wk: ung(P(), t, l, op, dv[0], dv[1], True, nb=rnd.choice([1, 2, 3, 32]))
            for d, v in itertools.product("FB", "CR"):
                for _ in range(2):
                    nb = rnd.choice([1, 2, 3, 4, 32])
                    ung(P(), t, l, "ungq", d, v, False, nb=nb, wk=W())
                    ung(P(), t, l, "ungq_level2", d, v, False, wk=W())
                    ung(P(), t, l, "gen_householder_q", d, v, False, nb=nb, variant=rnd.choice("2B"), wk=W())
            if wk: continue
            for _ in range(2):
                p = P(); n = rnd.choice([1, 2, 3, 4]); mm = rnd.choice([1, 2, 3, 4]); k = n + rnd.randint(0, mm)
                A = p.mat(t, n + mm, k, l, f=lambda i, j: None if j >= n else (vval(p, t) if i >= n else None))
                p.call("trge_ung2r", t, l, A=A, tau=tauvec(p, t, n))
    return out

FACT = [("geqr2", "q"), ("geqrf", "q"), ("geqrt3", "q"), ("householder_qr", "q"), ("gelq2", "l"), ("gelqf", "l"),
        ("gelqt", "l"), ("householder_lq", "l"), ("geql2", "L"), ("geqlf", "L"), ("householder_ql", "L"),
        ("gerq2", "R"), ("gerqf", "R"), ("householder_rq", "R"), ("trge_qr2", "q")]
def facts(rnd, per, wk=None, big=30):
    """(type, layout, args) of measured factorizations"""
    out = []
    for _ in range(per):
        for alg, fk in FACT:
            for t, l in L1:
                if wk and alg in ("geqrt3", "trge_qr2"): continue
                hi = rnd.choice([3, 6, 10, 10, big])
                m, n = rnd.randint(0, hi), rnd.randint(0, hi)
                if rnd.random() < .15: n = m
                if alg == "geqrt3" and m < n: m, n = n, m
                if alg == "trge_qr2": n = max(n, 1); m = n + rnd.randint(1, hi)
                nb = rnd.choice([1, 2, 3, 5, 8, 32])
                k = min(m, n); q = n if fk in "lR" else m
                a = dict(alg=alg, fk=fk, m=m, n=n, nb=nb, kind=rnd.randrange(7), seed=rnd.randrange(10**6),
                         wk=rnd.choice(wk) if wk else rnd.choice([0, 0, 1]), variant=rnd.choice("2B"), isw=rnd.choice([0, 0, 1]),
                         gen=rnd.choice("2B"), gnb=rnd.choice([1, 2, 3, 32]), w=rnd.randint(k, q))
                out.append(("n_fact", t, l, a))
    return out

def batch(rnd, items, size=40):
    out = []
    for i in range(0, len(items), size):
        p = Prog(rnd); out.append(p)
        for op, t, l, a in items[i:i + size]: p.call(op, t, l, **a)
    return out
