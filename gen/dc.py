"""Sorting, merging, secular equation."""
from lib import *

def items(rnd, per, big):
    out = []
    sd = lambda: rnd.randrange(10**6)
    for t in "ds":
        for kind in range(9):
            for n in [1, 2, 3, 3, 4] + [rnd.randint(3, rnd.choice([6, 12, big])) for _ in range(4 * per)]:
                out.append(("n_laed4", t, "", dict(n=n, kind=kind, seed=sd())))
        for kind in range(4):
            for _ in range(per): out.append(("n_laed6", t, "", dict(kind=kind, count=100, seed=sd())))
    return out

def seqs(rnd, n):
    """value sequences of length n"""
    r = rnd.randint
    yield [r(-3, 3) for _ in range(n)]
    yield [r(-n, n) for _ in range(n)]
    yield list(range(n))
    yield list(range(n, 0, -1))
    yield [4] * n
    yield [min(k, n - k) for k in range(n)]
    yield [r(0, 1) for _ in range(n)]
    w = list(range(n)); rnd.shuffle(w); yield w
    yield [k % 7 for k in range(n)]
    yield [(k * 37) % 101 for k in range(n)]
    if n > 2:
        w = [1] * n; w[r(0, n - 1)] = 0; w[r(0, n - 1)] = 2; yield w
        w = list(range(n)); i, j = r(0, n - 1), r(0, n - 1); w[i], w[j] = w[j], w[i]; yield w

def sorts(rnd, lens):
    out = []
    for n in lens:
        for w in seqs(rnd, n):
            p = Prog(rnd)
            for id in rnd.choice(["ID", "id", "iDX"]):
                t, d = rnd.choice([("d", "F"), ("d", "F"), ("s", "F"), ("d", "B")])
                x = p.vec(t, n, d, f=lambda i: w[i])
                p.call("lasrt", t, d, x=x, id=id)
            out.append(p)
    return out

def merges(rnd, cases):
    out = []
    for w1, w2 in cases:
        p = Prog(rnd)
        for d1 in (1, -1):
            for d2 in (1, -1):
                t = rnd.choice("ds")
                w = sorted(w1, reverse=d1 < 0) + sorted(w2, reverse=d2 < 0)
                x = p.vec(t, len(w), "F", f=lambda i: w[i])
                p.call("lamrg", t, "", x=x, ind=p.ints(len(w)), n1=len(w1), d1=d1, d2=d2)
        out.append(p)
    return out

def small(k, hi):
    """all sorted sequences of at most k values from 0..hi"""
    import itertools
    return [list(c) for n in range(k + 1) for c in itertools.combinations_with_replacement(range(hi + 1), n)]

def exhaustive_sorts(rnd, k, hi):
    import itertools
    out, p = [], None
    for n in range(k + 1):
        for w in itertools.product(range(hi + 1), repeat=n):
            if p is None or len(p.calls) >= 60: p = Prog(rnd); out.append(p)
            for id in "ID":
                x = p.vec("d", n, "F", inc=1, off=0, f=lambda i: w[i])
                p.call("lasrt", "d", "F", x=x, id=id)
    return out
