"""Regularized least squares."""
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]
VAR = "qesQESD"
DEFICIENT = (3, 4, 9)

def items(rnd, per, big):
    out = []
    for t, l in L1:
        for kind in range(11):
            for lam in range(8):
                if lam == 0 and kind in DEFICIENT: continue
                for var in VAR if per > 1 else rnd.sample(VAR, 3):
                    n = rnd.choice([0, 1, 1, 2, 3, 4, rnd.randint(1, big)])
                    m = n + rnd.choice([0, 0, 1, 2, rnd.randint(0, big)])
                    # without regularization the matrix has to have full rank: small random integers may not
                    if lam == 0 and kind == 1: m = n + 4
                    out.append(("n_tik", t, l, dict(m=m, n=n, k=rnd.choice([0, 1, 1, 2, 3, 7, 12]), kind=kind, bkind=rnd.choice([0, 1, 3, 6]), lam=lam, var=var, seed=rnd.randrange(10**6))))
    return out

def large(rnd, per):
    """wider than the blocks of the factorizations"""
    return [("n_tik", t, l, dict(m=rnd.randint(70, 80), n=rnd.choice([33, 40, 65]), k=rnd.choice([1, 3, 40]), kind=rnd.choice([0, 2, 8]), bkind=0, lam=rnd.randint(0, 7), var=v, seed=rnd.randrange(10**6)))
            for t, l in L1[:4] for v in "qes" for _ in range(per)]
