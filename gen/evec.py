"""Eigenvectors of Schur forms."""
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]

def items(rnd, per, big, op, wk=(0, 1)):
    out = []
    sd = lambda: rnd.randrange(10**6)
    for t, l in L1:
        for kind in range(12):
            for side in "LRB":
                for how in "ABS":
                    for _ in range(per):
                        top = 8 if op == "n_trevc3" and kind == 2 else big
                        n = rnd.choice([0, 1, 2, 3, 4, 5, rnd.randint(3, 9), rnd.randint(5, top)])
                        a = dict(n=n, kind=kind, side=side, how=how, pairs=rnd.choice([0, 1, 1, 2, 3]), pat=rnd.randint(0, 9), extra=rnd.choice([0, 0, 1, 3]) if how != "B" else 0, seed=sd())
                        if op == "n_trevc3": a.update(nb=rnd.choice([1, 2, 3, 4, 8, 64]), nbs=rnd.choice([1, 2, 3, 5, 64]), wk=rnd.choice(wk))
                        out.append((op, t, l, a))
    return out

def overflow(rnd):
    """a cluster the unblocked solver scales through and the blocked one does not"""
    return [(op, t, "C", dict(n=24, kind=12, side=side, how="A", pairs=0, pat=0, extra=0, seed=1, **x))
            for op, x in (("n_trevc", {}), ("n_trevc3", dict(nb=8, nbs=4, wk=0))) for t in "sc" for side in "LR"]
