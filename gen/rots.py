"""Programs for sequences of plane rotations.  Rotations are unit (a signed
permutation of two rows) except for a few arbitrary integer pairs, which keeps
every product an exact integer."""
import itertools
from lib import *
REALT = {"s": "s", "d": "d", "c": "s", "z": "d"}
LV = [("d", "CF"), ("d", "RF"), ("d", "CB"), ("z", "CF"), ("z", "RF"), ("z", "RB"), ("s", "CF"), ("c", "CF")]
LM = [("d", "CC"), ("d", "RR"), ("d", "CR"), ("z", "CC"), ("z", "RR"), ("z", "RC"), ("s", "CC"), ("c", "CC")]
def pairs(rnd, t, k, l, wild):
    c, s = {}, {}
    w = set(rnd.sample(range(max(k * l, 1)), min(wild, k * l))) if k * l else set()
    units = [(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if isc(t) else [])
    pid = rnd.choice([0, .2, .2, .5])
    for j in range(l):
        for i in range(k):
            if i + j * k in w:
                c[i, j] = rnd.choice([1, 1, -1, 2, 0]); s[i, j] = (rnd.choice([1, -1, 0, 1]), rnd.choice([1, -1, 0]) if isc(t) else 0)
            elif rnd.random() < pid: c[i, j], s[i, j] = rnd.choice([1, 1, -1]), (0, 0)
            else: c[i, j], s[i, j] = 0, rnd.choice(units)
    return c, s
def rots(rnd, per, big):
    out = []
    def one(t, l, op, side, dr, m, n, L, wild):
        p = Prog(rnd); out.append(p)
        k = max((m if side == "L" else n) - 1, 0)
        c, s = pairs(rnd, t, k, L, wild)
        A = p.mat(t, m, n, l[0])
        if op == "rot_sequence":
            p.call(op, t, l, side=side, direc=dr, c=p.vec(REALT[t], k, l[1], f=lambda i: c[i, 0]), s=p.vec(t, k, l[1], f=lambda i: s[i, 0]), A=A)
        else:
            p.call(op, t, l, side=side, direc=dr, C=p.mat(REALT[t], k, L, l[1], f=lambda i, j: c[i, j]), S=p.mat(t, k, L, l[1], f=lambda i, j: s[i, j]), A=A)
    def dims(side):
        k, o = rnd.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13]), rnd.choice([0, 1, 2, 3, 5])
        return (k, o) if side == "L" else (o, k)
    for _ in range(per):
        for t, l in LV:
            for sd, dr in itertools.product("LR", "FB"):
                for _ in range(3): one(t, l, "rot_sequence", sd, dr, *dims(sd), 1, rnd.choice([0, 3, 8]))
        for t, l in LM:
            for sd, dr in itertools.product("LR", "FB"):
                for L in (0, 1, 2, 2, 3, 3, 4, 5, 6):
                    one(t, l, "rot_sequence3", sd, dr, *dims(sd), L, rnd.choice([0, 3, 8]))
    for _ in range(big):   # more than one block of 256
        for t, l in LM:
            for sd, dr in itertools.product("LR", "FB"):
                k, o = rnd.choice([3, 4, 5, 6]), rnd.choice([257, 258, 300, 513])
                one(t, l, "rot_sequence3", sd, dr, *((k, o) if sd == "L" else (o, k)), rnd.choice([2, 3]), 2)
    return out
