"""Eigenvalue iterations."""
from cond import L1, rng

def items(rnd, per, big, wk=None):
    out = []
    sd = lambda: rnd.randrange(10**6)
    w = lambda: rnd.choice(wk) if wk else rnd.choice([0, 0, 1])
    for t, l in L1:
        for _ in range(per):
            for kind in range(13):
                for alg in ("lahqr", "ms", "qim", "qid"):
                    multi = alg in ("ms", "qim")
                    n = rnd.choice([0, 1, 2, 3, 4, 5, 6, rnd.randint(3, 14), rnd.randint(10, big)])
                    a = dict(alg=alg, kind=kind, wk=w(), inc=rnd.choice([1, 1, 2]), zid=rnd.choice([0, 0, 1]),
                             wantt=rnd.choice([0, 1, 1]), wantz=rnd.choice([0, 1, 1]), seed=sd())
                    if multi and rnd.random() < .85:
                        n = rnd.randint(12, big)
                        a.update(nmin=rnd.choice([12, 12, 15, 20]), nibble=rnd.choice([0, 14, 100]), ns=rnd.choice([2, 2, 4, 6]), nw=rnd.choice([2, 3, 4, 6, 10]))
                    ilo, ihi = rng(rnd, n)
                    a.update(n=n, ilo=ilo, ihi=ihi)
                    out.append(("n_hqr", t, l, a))
        for _ in range(per):
            for kind in range(13):
                n = rnd.randint(9, big); ilo, ihi = rng(rnd, n)
                if ihi - ilo < 2: ilo, ihi = 0, n
                out.append(("n_aed", t, l, dict(n=n, ilo=ilo, ihi=ihi, nw=rnd.randint(2, 10), nmin=rnd.choice([12, 75]), tiny=rnd.choice([0, 1, 1]), kind=kind, wk=w(), wantt=rnd.choice([0, 1, 1]), wantz=rnd.choice([0, 1, 1]), seed=sd())))
                n = rnd.randint(12, big); ilo, ihi = rng(rnd, n)
                if ihi - ilo < 3: ilo, ihi = 0, n
                out.append(("n_sweep", t, l, dict(n=n, ilo=ilo, ihi=ihi, ns=rnd.choice([2, 2, 4, 6, 8]), kind=kind, wk=w(), wantt=rnd.choice([0, 1, 1]), wantz=rnd.choice([0, 1, 1]), seed=sd())))
    if not wk:
        for t in "sdcz":
            for _ in range(per * 3):
                for kind in range(6): out.append(("n_eig22", t, "-", dict(kind=kind, rnd=rnd.choice([0, 1]), seed=sd())))
    return out
