"""Programs over the whole exponent range (scalars and short vectors)."""
from lib import *

RANGE = {  # smallest denormal, smallest normal, largest exponent, mantissa bits
    "s": (-149, -126, 127, 24), "c": (-149, -126, 127, 24),
    "d": (-1074, -1022, 1023, 53), "z": (-1074, -1022, 1023, 53)}

def expos(t):
    """exponents around every threshold an implementation may switch at"""
    den, mn, mx, p = RANGE[t]
    e = [den, den + 1, den + p // 2, mn - 1, mn, mn + 1, mn + p, mn + p + 1, mn // 2 - p // 2, mn // 2 - 1, mn // 2, mn // 2 + p // 2,
         -p, -1, 0, 0, 0, 1, p, mx // 2 - p // 2, mx // 2, mx // 2 + 1, mx // 2 + p // 2, mx - p - 1, mx - p, mx - 2, mx - 1, mx]
    # Blue's constants
    e += [(mn - 1) // 2 , (mx + 1 - p + 1) // 2, -((mn - p) // 2), -((mx + p - 1) // 2)]
    return e

def sval(r, t, e, small=False):
    """an integer mantissa m and exponent such that |m| 2^k is about 2^e"""
    den = RANGE[t][0]
    if r.random() < .04: return "0"
    m = r.choice([1, 1, 1, 3, 5, 7, 9, 11, 13, 15]) if small or r.random() < .7 else r.randint(2 ** 20, 2 ** 21 - 1)
    k = e - (m.bit_length() - 1)
    if k < den: m, k = 1, max(e, den)
    return "%d@%d" % (r.choice([1, -1]) * m, k)
def num(r, t, e):
    """value of magnitude about 2^e; complex parts may differ widely"""
    if not isc(t): return sval(r, t, e)
    e2 = r.choice([e, e, r.choice([x for x in expos(t) if x <= e])])
    a, b = sval(r, t, e), sval(r, t, e2)
    if r.random() < .15: b = "0"
    elif r.random() < .15: a = "0"
    return (a + "," + b) if r.random() < .5 else (b + "," + a)
def vecs(r, t, n, es):
    return ";".join(num(r, t, r.choice(es)) for _ in range(n)) or "-"

def prog(r, op, t, **a):
    p = Prog(r)
    p.call(op, t, "-", **a)
    return p

def batch(r, items, k=40):
    """several calls per program: these calls touch no caller memory"""
    out = []
    for i in range(0, len(items), k):
        p = Prog(r)
        for op, t, a in items[i:i + k]: p.call(op, t, "-", **a)
        out.append(p)
    return out

def pairs(t): return [(a, b) for a in expos(t) for b in expos(t)]

def rotg(r, per):
    it = []
    for t in "sdcz":
        for ea, eb in pairs(t):
            for _ in range(per if isc(t) else 1):
                it.append(("s_rotg", t, dict(a=num(r, t, ea), b=num(r, t, eb))))
        for x in ["0", "1", "-1", "3@0"]:
            for y in ["0", "1", "-1", "3@0", "-3@0"]:
                it.append(("s_rotg", t, dict(a=x, b=y)))
    return it
def rotg_mod(r, n):
    it = []
    for t in "sdcz":
        for _ in range(n):
            it.append(("s_rotg", t, dict(a=num(r, t, r.randint(-6, 6)), b=num(r, t, r.randint(-6, 6)))))
        for x in ["0", "1", "-1", "2"]:
            for y in ["0", "1", "-1", "2", "-2"]:
                it.append(("s_rotg", t, dict(a=x, b=y)))
    return it
def rotmg(r, n, emax=10):
    it = []
    for t in "sd":
        E = 10 if emax <= 10 else (30 if t == "s" else emax)
        for _ in range(n):
            d1 = sval(r, "d", r.randint(-E, E), True).lstrip("-")
            if d1 == "0": d1 = "1"
            d2 = sval(r, "d", r.randint(-E, E), True)
            if r.random() < .8: d2 = d2.lstrip("-")
            it.append(("s_rotmg", t, dict(d1=d1, d2=d2, a=sval(r, "d", r.randint(-8, 8), True), b=sval(r, "d", r.randint(-8, 8), True))))
    return it
def nrm(r, n):
    it = []
    for t in "sdcz":
        E = expos(t)
        for k in range(n):
            L = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 13])
            m = r.random()
            if m < .35: es = [r.choice(E)]
            elif m < .6: es = r.sample(E, 2)
            else: es = E
            q = r.random()
            scl, ssq = ("0", "1") if q < .3 else ("1", "0") if q < .5 else (sval(r, t, r.choice([-20, 0, 3])).lstrip("-"), sval(r, t, r.choice([-2, 0, 2])).lstrip("-")) if q < .7 \
                else (sval(r, t, r.choice([e for e in E if abs(e) < RANGE[t][2] - 4])).lstrip("-"), r.choice(["1", "3", "5@-1"]))
            it.append(("s_nrm", t, dict(x=vecs(r, t, L, es), inc=r.choice([1, 1, 2, 3]), scl=scl, ssq=ssq)))
    return it
def lapy(r, n):
    it = []
    for t in "sd":
        E = expos(t)
        for a, b in pairs(t):
            it.append(("s_lapy", t, dict(x=sval(r, t, a), y=sval(r, t, b), z=sval(r, t, r.choice(E)))))
    return it
def ladiv(r, n):
    it = []
    for t in "cz":
        for a, b in pairs(t):
            for _ in range(n):
                y = num(r, t, b)
                while set(y.replace("@", ",").split(",")[::1]) <= {"0"} or all(w.split("@")[0] == "0" for w in y.split(",")): y = num(r, t, b)
                it.append(("s_ladiv", t, dict(x=num(r, t, a), y=y)))
    return it
def iamax(r, n):
    it = []
    for t in "sdcz":
        den, mn, mx, p = RANGE[t]
        for k in range(n):
            L = r.choice([1, 2, 2, 3, 4, 6])
            es = r.choice([[mx], [mx, mx - 1], [mx, 0], [mx - 1], [mx - 2, mx - 1], [den, den + 1, den + 2], [den, mn, mx], expos(t), [0, 1]])
            q = [num(r, t, r.choice(es)) if r.random() < .4 or not isc(t) else sval(r, t, r.choice(es), True) + "," + sval(r, t, r.choice(es), True) for _ in range(L)]
            if L > 1 and r.random() < .3: q[-1] = q[0]
            it.append(("s_iamax", t, dict(x=";".join(q), inc=r.choice([1, 2]), nc=k % 2, two=r.choice([0, 0, 1]))))
    return it
def rscl(r, n):
    it = []
    for t in "sdcz":
        for a in expos(t):
            for _ in range(n):
                re = 1 if not isc(t) else r.choice([0, 0, 1])
                al = num(r, t, a)
                w = al.split(",")
                while (w[0].split("@")[0] == "0" and (re or len(w) < 2 or w[1].split("@")[0] == "0")):
                    al = num(r, t, a); w = al.split(",")
                it.append(("s_rscl", t, dict(x=vecs(r, t, 4, r.choice([expos(t), [a], [0]])), alpha=al, re=re, inc=r.choice([1, 2]))))
    return it
def rscl_grid(r, frac):
    it = []
    for t in "cz":
        for a, b in pairs(t) + [(a, None) for a in expos(t)] + [(None, a) for a in expos(t)]:
            if r.random() > frac: continue
            re = "0" if a is None else sval(r, t, a)
            im = "0" if b is None else sval(r, t, b)
            if re == "0" and im == "0": continue
            e = max(x for x in (a, b) if x is not None)
            it.append(("s_rscl", t, dict(x=vecs(r, t, 3, r.choice([expos(t), [max(e, RANGE[t][0])], [0]])), alpha=re + "," + im, re=0, inc=r.choice([1, 2]))))
    return it
def larfg(r, n, mod=False):
    it = []
    for t in "sdcz":
        E = expos(t)
        for k in range(n):
            L = r.choice([0, 1, 2, 3, 5, 8])
            es = [0, 1, -1, -3] if mod else ([r.choice(E)] if r.random() < .5 else r.sample(E, 3))
            z = r.random() < .1
            it.append(("s_larfg", t, dict(x=";".join(["0"] * L) or "-" if z else vecs(r, t, L, es), alpha=num(r, t, r.choice(es)) if r.random() < .9 else "0",
                                          dir=r.choice("FB"), sv=r.choice("CR"), one=r.choice([0, 0, 1]), inc=r.choice([1, 1, 2]))))
    return it
def lascl(r, n):
    it = []
    for t in "sdcz":
        for a, b in pairs(t):
            if r.random() > n: continue
            x = sval(r, t, a)
            while x == "0": x = sval(r, t, a)
            it.append(("s_lascl", t, dict(a=x, b=sval(r, t, b), x=vecs(r, t, 4, r.choice([expos(t), [0], [b]])))))
    return it
