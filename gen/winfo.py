"""Chains of combinations of workspace requirements."""
from lib import *
def reqs(k):
    # a contiguous matrix shape is a legal requirement too
    return ([(m, n, 0, 0) for m in range(k + 1) for n in range(k + 1)] + [(m, 1, 0, 1) for m in range(k + 1)]
            + [(m, 1, 1, 0) for m in range(1, k + 1)] + [(2, 3, 1, 0), (3, 1, 1, 1)])
def chains(rnd, k, deep, big):
    one = reqs(k)
    out = [[("=",) + a, (o,) + b] for a in one for b in one for o in "m+"] + [[("=",) + a, ("t", 0, 0, 0, 0)] for a in one]
    for _ in range(deep):
        ch = [("=",) + rnd.choice(one)]
        for _ in range(rnd.randint(2, 5)):
            o = rnd.choice("mm++t")
            ch.append(("t", 0, 0, 0, 0) if o == "t" else (o,) + (rnd.choice(one) if rnd.random() < .6 else
                      (rnd.randint(1, big), rnd.randint(1, big), 0, 0) if rnd.random() < .7 else (rnd.randint(1, big), 1, 0, 1)))
        out.append(ch)
    return out
def progs(rnd, k, deep, big, per=200):
    items, out = chains(rnd, k, deep, big), []
    for lo in range(0, len(items), per):
        p = Prog(rnd); out.append(p)
        for ch in items[lo:lo + per]:
            p.call("winfo", "d", None, seq=J("/".join(":".join(map(str, c)) for c in ch), [list(c) for c in ch]))
    return out
