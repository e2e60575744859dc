"""Calls in and around the set each routine accepts."""
from lib import *
from itertools import product
UL, ULG, ALLU = "UL", "ULG", "ULGHhSs"
# routine -> flags with the values tried, and operands with their shape in a
# valid call of sizes (m, n, k); perturbing the shapes gives the other calls
def tr(f, m, n): return (m, n) if f in "NJ" else (n, m)
def sq(side, m, n): return (m, m) if side == "L" else (n, n)
def sd(side, m, n): return m if side == "L" else n
OPX, UPX = "NTCJX", "ULGHhSsX"
SIDE, DIAG, DIR, ST, NORM = "LRB", "NU", "FBX", "CR", "M1IF2"
def st(s, L, k): return (L, k) if s == "C" else (k, L)
T = {
    "gemm": (dict(ta=OPX, tb=OPX), lambda f, m, n, k: dict(A=tr(f["ta"], m, k), B=tr(f["tb"], k, n), C=(m, n))),
    "gemmtr": (dict(uplo=UPX, ta=OPX, tb=OPX), lambda f, m, n, k: dict(A=tr(f["ta"], m, k), B=tr(f["tb"], k, m), C=(m, m))),
    "hemm": (dict(side=SIDE, uplo=UPX), lambda f, m, n, k: dict(A=sq(f["side"], m, n), B=(m, n), C=(m, n))),
    "herk": (dict(uplo=UPX, trans=OPX), lambda f, m, n, k: dict(A=tr(f["trans"], n, k), C=(n, n))),
    "her2k": (dict(uplo=UPX, trans=OPX), lambda f, m, n, k: dict(A=tr(f["trans"], n, k), B=tr(f["trans"], n, k), C=(n, n))),
    "trmm": (dict(side=SIDE, uplo=UPX, trans=OPX, diag=DIAG + "X"), lambda f, m, n, k: dict(A=sq(f["side"], m, n), B=(m, n))),
    "gemv": (dict(trans=OPX), lambda f, m, n, k: dict(A=tr(f["trans"], m, n), x=(n,), y=(m,))),
    "hemv": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(n, n), x=(n,), y=(n,))),
    "ger": ({}, lambda f, m, n, k: dict(A=(m, n), x=(m,), y=(n,))),
    "her": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(n, n), x=(n,))),
    "trmv": (dict(uplo=UPX, trans=OPX, diag=DIAG + "X"), lambda f, m, n, k: dict(A=(n, n), x=(n,))),
    "axpy": ({}, lambda f, m, n, k: dict(x=(n,), y=(n,))),
    "larf": (dict(side=SIDE, storev=ST + "X"), lambda f, m, n, k: dict(x=(sd(f["side"], m, n),), C0=(sd(f["side"], n, m),), C=(m, n))),
    "larfv": (dict(side=SIDE, direc=DIR, storev=ST + "X"), lambda f, m, n, k: dict(x=(sd(f["side"], m, n),), C=(m, n))),
    "larft": (dict(direc=DIR, storev=ST + "X"), lambda f, m, n, k: dict(V=st(f["storev"], k + m, k), T=(k, k), tau=(k,))),
    "larfb": (dict(side=SIDE, trans=OPX, direc=DIR, storev=ST + "X"), lambda f, m, n, k: dict(C=(k + m, n) if f["side"] == "L" else (m, k + n), V=st(f["storev"], k + sd(f["side"], m, n), k), T=(k, k))),
    "geqr2": ({}, lambda f, m, n, k: dict(A=(m, n), tau=(min(m, n),))),
    "geqrf": (dict(nb=[1, 2, 32]), lambda f, m, n, k: dict(A=(m, n), tau=(min(m, n),))),
    "gelqt": ({}, lambda f, m, n, k: dict(A=(m, n), T=(m, k + 1))),
    "ungq": (dict(direc=DIR, storev=ST, nb=[1, 2, 32]), lambda f, m, n, k: dict(A=st(f["storev"], k + m + n, k + m), tau=(k,))),
    "unmq": (dict(side=SIDE, trans=OPX, direc=DIR, storev=ST, nb=[1, 2, 32]), lambda f, m, n, k: dict(C=(k + m, n) if f["side"] == "L" else (m, k + n), V=st(f["storev"], k + sd(f["side"], m, n), k), tau=(k,))),
    "gebd2": ({}, lambda f, m, n, k: dict(A=(m, n), tauv=(min(m, n),), tauw=(min(m, n),))),
    "gebrd": (dict(nb=[1, 2, 32]), lambda f, m, n, k: dict(A=(m, n), tauv=(min(m, n),), tauw=(min(m, n),))),
    "gehrd": (dict(ilo=[0, 1, 2, 3], ihi=[0, 1, 2, 3, 4]), lambda f, m, n, k: dict(A=(n, n), tau=(max(n - 1, 0),))),
    "hetd2": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(n, n), tau=(max(n - 1, 0),))),
    "getrf0": ({}, lambda f, m, n, k: dict(A=(m, n), piv=(min(m, n),))),
    "getri_uili": ({}, lambda f, m, n, k: dict(A=(n, n))),
    "potf2": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(n, n))),
    "potrf_blocked": (dict(uplo=UPX, nb=[1, 2, 32]), lambda f, m, n, k: dict(A=(n, n))),
    "potrs": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(n, n), B=(n, m))),
    "pttrf": ({}, lambda f, m, n, k: dict(d=(n + 1,), e=(n,))),
    "trtri": (dict(uplo=UPX, diag=DIAG + "X"), lambda f, m, n, k: dict(A=(n, n))),
    "hetrf": (dict(uplo=UPX, nb=[2, 32]), lambda f, m, n, k: dict(A=(n, n), piv=(n + 2,))),
    "hemm2": (dict(side=SIDE, uplo=UPX, tb=OPX), lambda f, m, n, k: dict(A=sq(f["side"], m, n), B=tr(f["tb"], m, n), C=(m, n))),
    "lacpy": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(m, n), B=(m, n))),
    "laset": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(m, n))),
    "lascl": (dict(uplo=UPX, b=[0, 1, 1, 2], a=[0, 1, 1, 2]), lambda f, m, n, k: dict(A=(m, n))),
    "lasclb": (dict(kl=[-1, 0, 1, 2], ku=[-1, 0, 1, 2], b=[0, 1, 1, 1, 2], a=[0, 1, 1, 2]), lambda f, m, n, k: dict(A=(m, n))),
    "lange": (dict(norm=NORM), lambda f, m, n, k: dict(A=(m, n))),
    "lansy": (dict(norm=NORM, uplo=UPX), lambda f, m, n, k: dict(A=(n, n))),
    "lantr": (dict(norm=NORM, uplo=UPX, diag=DIAG + "X"), lambda f, m, n, k: dict(A=(m, n))),
    "hasnan": (dict(uplo=UPX), lambda f, m, n, k: dict(A=(m, n))),
    "transpose": (dict(nx=[0, 1, 2, 3, 32]), lambda f, m, n, k: dict(A=(m, n), B=(n, m))),
    "rot_sequence": (dict(side=SIDE, direc=DIR), lambda f, m, n, k: dict(A=(m, n), c=(max(sd(f["side"], m, n) - 1, 0),), s=(max(sd(f["side"], m, n) - 1, 0),))),
    "lahqr": (dict(wz=[0, 1]), lambda f, m, n, k: dict(A=(n, n), w=(n,), Z=(n, n))),
    "gghrd": (dict(ilo=[0, 1, 2, 3], ihi=[0, 1, 2, 3, 4]), lambda f, m, n, k: dict(A=(n, n), B=(n, n), Q=(n, n), Z=(n, n))),
    "schur_swap": (dict(j0=[0, 0, 1, 2, 5], n1=[0, 1, 2, 1, 2, 3], n2=[0, 1, 2, 1, 2, 3]), lambda f, m, n, k: dict(A=(n + m, n + m), Q=(n + m, n + m))),
    "tkhnv": (dict(var="QSE"), lambda f, m, n, k: dict(A=(n + m, n), b=(n + m, k))),
}
for new, old in [("symm", "hemm"), ("syrk", "herk"), ("syr2k", "her2k"), ("trsm", "trmm"), ("symv", "hemv"), ("geru", "ger"), ("syr", "her"),
                 ("her2", "hemv"), ("syr2", "hemv"), ("trsv", "trmv"), ("copy", "axpy"), ("swap", "axpy"), ("dot", "axpy"), ("dotu", "axpy"),
                 ("rot", "axpy"), ("rotm", "axpy"), ("gelq2", "geqr2"), ("geql2", "geqr2"), ("gerq2", "geqr2"), ("gelqf", "geqrf"), ("geqlf", "geqrf"),
                 ("gerqf", "geqrf"), ("ungq_level2", "ungq"), ("unmq_level2", "unmq"), ("gehd2", "gehrd"), ("getrfr", "getrf0"),
                 ("getri_uxli", "getri_uili"), ("lu_mult", "getri_uili"), ("ul_mult", "getri_uili"), ("mult_llh", "getri_uili"), ("mult_uhu", "getri_uili"),
                 ("potrf2", "potf2"), ("potrf", "potf2"), ("potri", "potf2"), ("lauum", "potf2"), ("potrf_rl", "potrf_blocked"),
                 ("lanhe", "lansy"), ("hasinf", "hasnan"), ("conjtranspose", "transpose")]:
    T[new] = T[old]
REAL = {"rotm", "tkhnv"}
def calls(rnd, r, count, top):
    flags, shape = T[r]
    names = list(flags)
    combos = list(product(*[list(flags[x]) for x in names]))
    good = [c for c in combos if not any(isinstance(v, str) and v in "XBJ2" for v in c)] or combos
    out, seen = [], set()
    sizes = [(m, n, k) for m in range(top + 1) for n in range(top + 1) for k in range(top + 1)]
    for i in range(count * 12):
        if len(out) >= count: break
        # mostly acceptable flags, but every flag combination gets its turn
        c = combos[i % len(combos)] if i % 3 == 0 else rnd.choice(good)
        f = dict(zip(names, c))
        dims = {k: list(v) for k, v in shape(f, *rnd.choice(sizes)).items()}
        how = rnd.random()
        if how > .35:
            for _ in range(1 if how < .8 else 2):
                key = rnd.choice(list(dims))
                if r == "hetrf" and key == "piv": continue
                j = rnd.randrange(len(dims[key]))
                dims[key][j] = max(0, dims[key][j] + rnd.choice([-1, 1, 1, 2]))
        # no routine says what more reflectors than fit would mean, or blocks of size 0
        if "V" in dims and "tau" in dims and dims["tau"][0] > max(dims["V"]): continue
        if "V" in dims and dims["V"][0 if f["storev"] == "C" else 1] < dims["V"][1 if f["storev"] == "C" else 0]: continue
        if r == "gelqt" and dims["T"][1] == 0: continue
        if r == "hetrf": dims["piv"] = [max(dims["piv"][0], max(dims["A"]))]
        item = tuple(sorted((k, tuple(v)) for k, v in dims.items())) + c
        if item in seen: continue
        seen.add(item)
        out.append(dict(f, **{k: J(",".join(map(str, v)), v) for k, v in dims.items()}))
    return out
def progs(rnd, count, top, per=60, only=None):
    out = []
    for r in T:
        if only and r not in only: continue
        its = calls(rnd, r, count, top)
        for lo in range(0, len(its), per):
            p = Prog(rnd); out.append(p)
            for a in its[lo:lo + per]:
                t = "d" if r in REAL else rnd.choice("dz")
                p.call("pre", t, rnd.choice("CR"), r=r, **a)
    rnd.shuffle(out)
    return out


# ---- pointer-based interfaces: flags, and for each operand the leading
# dimension a valid call needs as a function of the flags and sizes
LAY = "CRX"
def span(f, m, n): return n if f.get("layout") == "R" else m
def spanop(f, op, m, n): return span(f, m, n) if op == "N" else span(f, n, m)
def side(f, m, n): return m if f["side"] == "L" else n
INC = [-2, -1, 0, 1, 2]
LT = {}
for r in "asum nrm2 scal iamax".split(): LT[r] = (dict(incx=INC), "n", {})
for r in "axpy copy swap dot dotu rot".split(): LT[r] = (dict(incx=INC, incy=INC), "n", {})
LT["rotm"] = (dict(incx=INC, incy=INC, flag=[-3, -2, -1, 0, 1, 2]), "n", {})
LT["gemv"] = (dict(layout=LAY, trans="NTCX", incx=INC, incy=INC), "mn", dict(lda=lambda f, m, n, k: span(f, m, n)))
for r in "ger geru".split(): LT[r] = (dict(layout=LAY, incx=INC, incy=INC), "mn", dict(lda=lambda f, m, n, k: span(f, m, n)))
for r in "hemv symv her2 syr2".split(): LT[r] = (dict(layout=LAY, uplo="ULGX", incx=INC, incy=INC), "n", dict(lda=lambda f, m, n, k: n))
for r in "her syr".split(): LT[r] = (dict(layout=LAY, uplo="ULGX", incx=INC), "n", dict(lda=lambda f, m, n, k: n))
for r in "trmv trsv".split(): LT[r] = (dict(layout=LAY, uplo="ULGX", trans="NTCX", diag="NUX", incx=INC), "n", dict(lda=lambda f, m, n, k: n))
LT["gemm"] = (dict(layout=LAY[:2], ta="NTCX", tb="NTCX"), "mnk", dict(lda=lambda f, m, n, k: spanop(f, f["ta"], m, k), ldb=lambda f, m, n, k: spanop(f, f["tb"], k, n), ldc=lambda f, m, n, k: span(f, m, n)))
for r in "hemm symm".split(): LT[r] = (dict(layout=LAY, side="LRX", uplo="ULGX"), "mn", dict(lda=lambda f, m, n, k: side(f, m, n), ldb=lambda f, m, n, k: span(f, m, n), ldc=lambda f, m, n, k: span(f, m, n)))
for r in "herk syrk".split(): LT[r] = (dict(layout=LAY, uplo="ULGX", trans="NTCX"), "nk", dict(lda=lambda f, m, n, k: spanop(f, f["trans"], n, k), ldc=lambda f, m, n, k: n))
for r in "her2k syr2k".split(): LT[r] = (dict(layout=LAY, uplo="ULGX", trans="NTCX"), "nk", dict(lda=lambda f, m, n, k: spanop(f, f["trans"], n, k), ldb=lambda f, m, n, k: spanop(f, f["trans"], n, k), ldc=lambda f, m, n, k: n))
for r in "trmm trsm".split(): LT[r] = (dict(layout=LAY, side="LRX", uplo="ULGX", trans="NTCX", diag="NUX"), "mn", dict(lda=lambda f, m, n, k: side(f, m, n), ldb=lambda f, m, n, k: span(f, m, n)))
LT["geqr2"] = ({}, "mn", dict(lda=lambda f, m, n, k: m))
LT["ung2r"] = ({}, "mnk", dict(lda=lambda f, m, n, k: m))
for r in "unm2r unmqr".split(): LT[r] = (dict(side="LRX", trans="NTCX"), "mnk", dict(lda=lambda f, m, n, k: side(f, m, n), ldc=lambda f, m, n, k: m))
LT["lacpy"] = (dict(uplo="ULGX"), "mn", dict(lda=lambda f, m, n, k: m, ldb=lambda f, m, n, k: m))
LT["laset"] = (dict(uplo="ULGX"), "mn", dict(lda=lambda f, m, n, k: m))
LT["lange"] = (dict(norm=NORM), "mn", dict(lda=lambda f, m, n, k: m))
for r in "lanhe lansy".split(): LT[r] = (dict(norm=NORM, uplo="ULGX"), "n", dict(lda=lambda f, m, n, k: n))
LT["lantr"] = (dict(norm=NORM, uplo="ULGX", diag="NUX"), "mn", dict(lda=lambda f, m, n, k: m))
LT["larf"] = (dict(side="LRX", incx=INC), "mn", dict(ldc=lambda f, m, n, k: m))
LT["larft"] = (dict(direc=DIR, storev="CRX"), "nk", dict(lda=lambda f, m, n, k: n if f["storev"] == "C" else k, ldc=lambda f, m, n, k: k))
LT["larfb"] = (dict(side="LRX", trans="NTCX", direc=DIR, storev="CRX"), "mnk", dict(lda=lambda f, m, n, k: side(f, m, n) if f["storev"] == "C" else k, ldb=lambda f, m, n, k: k, ldc=lambda f, m, n, k: m))
LT["lascl"] = (dict(mt="GLUHBQZX", kl=[0, 1, 2, 3], ku=[0, 1, 2, 3]), "mn", dict(lda=lambda f, m, n, k: dict(B=f["kl"] + 1, Q=f["ku"] + 1, Z=2 * f["kl"] + f["ku"] + 1).get(f["mt"], m)))
LT["potrf"] = (dict(uplo="ULGX"), "n", dict(lda=lambda f, m, n, k: n))
LT["potrs"] = (dict(uplo="ULGX"), "mn", dict(lda=lambda f, m, n, k: n, ldb=lambda f, m, n, k: n))
LT["colmat"] = ({}, "mn", dict(lda=lambda f, m, n, k: m))
LT["rowmat"] = ({}, "mn", dict(lda=lambda f, m, n, k: n))
LT["bandmat"] = (dict(kl=[0, 1, 2, 3], ku=[0, 1, 2, 3]), "mn", {})
BAD = {"layout": "X", "trans": "X", "ta": "X", "tb": "X", "uplo": "X", "side": "X", "diag": "X", "norm": "2", "direc": "X", "storev": "X", "mt": "X"}
def lcalls(rnd, r, count, top):
    flags, dims, lds = LT[r]
    out, seen = [], set()
    for i in range(count * 10):
        if len(out) >= count: break
        f = {k: rnd.choice([x for x in v if x != BAD.get(k) and (k[:3] != "inc" or x > 0)]) for k, v in flags.items()}
        d = {k: rnd.randint(0 if rnd.random() < .3 else 1, top) for k in "mnk"}
        if r in ("unm2r", "unmqr", "larfb") and rnd.random() < .8: d["k"] = min(d["k"], side(f, d["m"], d["n"]))
        if r == "ung2r" and rnd.random() < .7: d["n"] = min(d["m"], d["n"]); d["k"] = min(d["k"], d["n"])
        a = {k: max(0, fn(f, d["m"], d["n"], d["k"])) for k, fn in lds.items()}
        # each argument gets its turn at being wrong, alone or with another
        for _ in range(rnd.choice([0, 1, 1, 1, 2])):
            k = rnd.choice(list(flags) + list(a)) if flags or a else None
            if k in flags: f[k] = rnd.choice(list(flags[k]))
            elif k: a[k] = max(0, a[k] + rnd.choice([-1, -1, 1, 2]))
        if r in ("larft", "larfb", "unmqr"):
            long = d["n"] if r == "larft" else side(f, d["m"], d["n"]) if f["side"] in "LR" else min(d["m"], d["n"])
            if d["k"] > long and long > 0: continue
        it = dict(f, **{k: d[k] for k in dims}, **a)
        key = tuple(sorted(map(str, it.items())))
        if key in seen: continue
        seen.add(key); out.append(it)
    return out
def lprogs(rnd, count, top, per=100, only=None):
    out = []
    for r in LT:
        if only and r not in only: continue
        its = lcalls(rnd, r, count, top)
        for lo in range(0, len(its), per):
            p = Prog(rnd); out.append(p)
            for a in its[lo:lo + per]: p.call("lpre", "d" if r == "rotm" else rnd.choice("dz"), "-", r=r, **a)
    rnd.shuffle(out)
    return out
