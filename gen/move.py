"""Histories of block moves and swaps on (generalized) Schur forms."""
import itertools
from lib import *
L1 = [("d", "C"), ("d", "R"), ("z", "C"), ("z", "R"), ("s", "C"), ("c", "C")]

def starts(sh):
    r, k = [], 0
    for b in sh: r.append(k); k += int(b)
    return r, k

def swap_ok(sh, j, a, b):
    st, n = starts(sh); st = st + [n]
    return j + a + b <= n and j in st and j + a in st and j + a + b in st

def do_move(sh, i, j):
    st, n = starts(sh)
    at = lambda x: max(k for k in range(len(sh)) if st[k] <= x)
    l = list(sh); kf, kl = at(i), at(j); b = l.pop(kf); l.insert(kl, b)
    return "".join(l)

def do_swap(sh, j, a, b):
    st, n = starts(sh); st = st + [n]
    x, y, z = st.index(j), st.index(j + a), st.index(j + a + b)
    return sh[:x] + sh[y:z] + sh[x:y] + sh[z:]

def hist(rnd, sh, k):
    out = []
    for _ in range(k):
        _, n = starts(sh)
        sw = [(j, a, b) for j in range(n) for a in (1, 2) for b in (1, 2) if swap_ok(sh, j, a, b)]
        if sw and rnd.random() < .35:
            w = rnd.choice(sw); out.append("s%d.%d.%d" % w); sh = do_swap(sh, *w)
        else:
            i, j = rnd.randrange(n), rnd.randrange(n); out.append(f"m{i}.{j}"); sh = do_move(sh, i, j)
    return ",".join(out)

def items(rnd, full, nh, kinds=(0, 0, 2, 3, 4)):
    """every single move and swap on every form with at most `full` blocks, and nh random histories per type"""
    out = []
    def add(t, l, sh, mv, kind=None, **o):
        gen = o.pop("gen", rnd.choice([0, 1]))
        wq, wz = rnd.choice([(1, 1), (1, 1), (1, 1), (0, 0), (1, 0), (0, 1)])
        k = rnd.choice(kinds) if kind is None else kind
        if k == 2 and not gen: k = 0
        out.append(("s_move", t, l, dict(blocks=sh, moves=mv, gen=gen, wantq=wq, wantz=wz if gen else wq, kind=k, seed=rnd.randrange(10**6))))
    for k in range(1, full + 1):
        for sh in map("".join, itertools.product("12", repeat=k)):
            _, n = starts(sh)
            for g in (0, 1):
                for i, j in itertools.product(range(n), repeat=2):
                    t, l = rnd.choice([("d", "C"), ("d", "R"), ("s", "C")])
                    add(t, l, sh, f"m{i}.{j}", gen=g)
                for j, a, b in itertools.product(range(n), (1, 2), (1, 2)):
                    if swap_ok(sh, j, a, b):
                        t, l = rnd.choice([("d", "C"), ("d", "R"), ("s", "C")])
                        add(t, l, sh, f"s{j}.{a}.{b}", gen=g)
    for t, l in L1:
        for _ in range(nh):
            k = rnd.randint(1, 6)
            sh = "1" * k if t in "cz" else "".join(rnd.choice("12") for _ in range(k))
            mv = hist(rnd, sh, rnd.randint(1, 5))
            if t in "cz": mv = ",".join(m for m in mv.split(",") if m[0] == "m" or m.endswith(".1.1")) or "m0.0"
            add(t, l, sh, mv, kind=rnd.choice([None, None, None, 1]))
    return out
