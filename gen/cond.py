"""Reductions to condensed form."""
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]

def rng(rnd, n):
    """an active range ilo <= ihi of a matrix of order n"""
    if n == 0: return 0, 0
    if rnd.random() < .5: return 0, n
    a = rnd.randint(0, n - 1); b = rnd.randint(a, n)
    return a, b

def items(rnd, per, big, wk=None):
    out = []
    sd = lambda: rnd.randrange(10**6)
    hi = lambda: rnd.choice([3, 6, 10, big])
    w = lambda: rnd.choice(wk) if wk else rnd.choice([0, 0, 1])
    inc = lambda: rnd.choice([1, 1, 2])
    for t, l in L1:
        for _ in range(per):
            for kind in range(7):
                for alg in ("gehd2", "gehrd", "gehrd", "hB", "h2"):
                    n = rnd.randint(0, hi()); ilo, ihi = rng(rnd, n)
                    out.append(("n_hess", t, l, dict(alg=alg, n=n, ilo=ilo, ihi=ihi, nb=rnd.choice([1, 2, 3, 5, 32]), nx=rnd.choice([1, 2, 3, 6, 128]), kind=kind, wk=w(), inc=inc(), seed=sd())))
                for alg in ("gebd2", "gebrd", "gebrd", "bB", "b2"):
                    m, n = rnd.randint(0, hi()), rnd.randint(0, hi())
                    if rnd.random() < .2: n = m
                    out.append(("n_bidiag", t, l, dict(alg=alg, m=m, n=n, nb=rnd.choice([1, 2, 3, 5, 32]), gnb=rnd.choice([1, 2, 32]), w=rnd.randint(min(m, n), m), h=rnd.randint(min(m, n), n), kind=kind, wk=w(), inc=inc(), seed=sd())))
                if wk: continue
                for u in "UL":
                    out.append(("n_trid", t, l, dict(uplo=u, n=rnd.randint(0, hi()), kind=kind, inc=inc(), seed=sd())))
                for alg in ("gghrd", "gghd3", "gghd3"):
                    n = rnd.randint(1, hi()); ilo, ihi = rng(rnd, n)
                    if ihi == ilo: ihi += 1
                    out.append(("n_gghd", t, l, dict(alg=alg, n=n, ilo=ilo, ihi=ihi, nb=rnd.choice([1, 2, 3, 4, 32]), wantq=rnd.choice([0, 1, 1]), wantz=rnd.choice([0, 1, 1]), kind=kind, seed=sd())))
                out.append(("n_hrq", t, l, dict(n=rnd.randint(0, hi()), kind=kind, seed=sd())))
    return out
