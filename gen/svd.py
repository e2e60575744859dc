"""Symmetric eigenvalue and singular value decompositions."""
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]

def items(rnd, per, big):
    out = []
    sd = lambda: rnd.randrange(10**6)
    for op in ("n_sym22", "n_svd22"):
        for t in "sd":
            out.append((op, t, "", dict(kind=0, count=0, seed=1)))
            for k in (1, 2):
                for _ in range(2): out.append((op, t, "", dict(kind=k, count=100 * per, seed=sd())))
    hi = lambda: rnd.choice([2, 4, 8, 12, big])
    for t, l in L1:
        for kind in range(12):
            for _ in range(per):
                n = rnd.randint(0, hi())
                out.append(("n_steqr", t, l, dict(n=n, nz=rnd.choice([n, n, n + 2, max(1, n - 1)]), wantz=rnd.choice([0, 1, 1]), kind=kind, ident=rnd.choice([0, 1]), inc=rnd.choice([1, 1, 2]), seed=sd())))
                n = rnd.randint(0, hi())
                out.append(("n_svdqr", t, l, dict(n=n, nu=rnd.choice([n, n, n + 2, max(1, n - 1)]), nv=rnd.choice([n, n, n + 1, max(1, n - 2)]), uplo=rnd.choice("UL"),
                            wantu=rnd.choice([0, 1, 1]), wantv=rnd.choice([0, 1, 1]), kind=kind, inc=rnd.choice([1, 1, 2]), seed=sd())))
        for kind in range(7):
            for _ in range(per):
                m, n = rnd.randint(0, hi()), rnd.randint(0, hi())
                if rnd.random() < .25: n = m
                out.append(("n_gesvd", t, l, dict(m=m, n=n, fullu=rnd.choice([0, 1]), fullv=rnd.choice([0, 1]), wantu=rnd.choice([0, 1, 1]), wantv=rnd.choice([0, 1, 1]), kind=kind, inc=rnd.choice([1, 1, 2]), seed=sd())))
    return out
