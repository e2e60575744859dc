"""Programs whose operands have different scalar types: real with complex, and
narrow with wide reals.  Wide operands hold integers that a narrow type cannot
represent, so a value that is narrowed on its way is noticed."""
import itertools, os
from lib import *
from blas import MProg, Big, mixed as blas23, mixes, FL3, FL2, herm_f, tri_f, inv_tri_f, scal_of
N = dict(s="S", d="D", c="vf::C", z="Z")

# operation -> (number of operands, keys (types of the operands, alpha/tau, beta), layouts)
V2 = ["FF", "BF"]; M2 = ["CC", "RC"]; VM = ["FC", "BR"]; M3 = ["CCC", "RCR"]
RE = ["sddd", "dsdd"]
REFL = ["dzdd", "sddd", "dsdd", "sdsd"]
MUL = ["sddd", "dsdd"]   # the workspace of unm* has the type of V and tau
K3 = ["dzzzz", "zdzzz", "ddzzd", "zzzdd", "sdddd", "dsddd", "sddss", "ssddd", "dddss", "ddsdd"]
OPS = {
    "axpy": (2, ["dzzz", "dzdd", "sddd", "dsdd", "ddss"], V2), "dot": (2, ["dzzz", "zdzz", "sddd", "dsdd"], V2),
    "dotu": (2, ["dzzz", "zdzz", "sddd", "dsdd"], V2), "copy": (2, ["dzzz", "sddd", "dsdd", "sczz"], V2),
    "swap": (2, ["sddd", "dsdd"], V2), "rot": (2, ["zzdd", "ddss", "ccss", "sddd"], V2), "scal": (2, ["zzdd", "ddss", "ssdd"], V2),
    "lacpy": (2, ["dzzz", "sddd", "dsdd"], M2), "transpose": (2, ["dzzz", "sddd", "dsdd"], M2),
    "laset": (2, ["zzdd", "ddss", "ddsd", "ssdd"], M2), "lascl": (2, ["zzdd", "ddss", "ssdd", "ddsd"], M2),
    "rot_sequence": (3, ["ddzzz", "ssddd", "ddsdd"], ["FFC", "BBR"]), "rot_sequence3": (3, ["ddzzz", "ssddd", "ddsdd"], M3),
    "larf": (2, ["dzdd", "zzdd", "sddd", "dsdd", "sdsd"], VM), "larfv": (2, ["dzdd", "zzdd", "sddd", "dsdd", "sdsd"], VM),
    "larft": (2, ["dzdd", "sddd"], M2), "larfb": (2, REFL, M2),
    "unm2r": (2, MUL, M2), "unm2l": (2, ["dsdd"], M2), "unml2": (2, MUL, M2), "unmr2": (2, ["dsdd"], M2),
    "unmqr": (2, MUL, M2), "unmql": (2, MUL, M2), "unmlq": (2, MUL, M2), "unmrq": (2, MUL, M2),
    "unmq": (2, MUL, M2), "unmq_level2": (2, MUL, M2),
    "gemmtr": (3, K3, M3), "hemm2": (3, K3, M3), "trmm_out": (3, K3, M3), "mult_hehe": (3, K3, M3),
    "trsm_tri": (2, ["dzzz", "dzdd", "sddd"], M2),
}
def registrations():
    L = []
    for op in list(FL3) + list(FL2):
        keys, _ = mixes(op)
        l3 = op in FL3
        for k in keys:
            n = len(k)
            for lay in ((["CC", "RC"] if n == 4 else ["CCC", "RCR"]) if l3 else (["CF", "RB"] if n == 4 else ["CFF", "RBF"])):
                L.append((op, k, lay))
    A = L; B = [(op, k, lay) for op, (n, keys, lays) in OPS.items() for k in keys for lay in lays]
    return A, B

def lapack(rnd, per):
    out = []
    def P(key):
        p = MProg(rnd); out.append(p)
        p.vr = 2 if "s" in key else 0
        p.maxd = 4
        return p
    big = lambda t: Big("d") if t == "d" else t
    def dim(): return rnd.choice([0, 1, 2, 2, 3, 4])
    for op, (nop, keys, lays) in OPS.items():
        for key, _ in itertools.product(keys, range(per)):
            l = rnd.choice(lays)
            nar = "s" in key
            if op in ("axpy", "dot", "dotu", "copy", "swap", "rot"):
                for _ in range(3):
                    p = P(key); n = rnd.choice([0, 1, 2, 3, 5])
                    tx, ty, ta = key[0], key[1], key[2]
                    w = rnd.randrange(2)
                    if nar and op in ("copy", "axpy", "rot", "dot", "dotu"):
                        # the operand that holds long values
                        if op == "copy" and key[1] == "d" and key[0] == "d": tx = big(tx)
                        elif op == "axpy" and ty == "d" and ta == "d": ta = big(ta)
                        elif op == "axpy" and ty == "d": tx = big(tx) if w else tx; ty = big(ty)
                        elif op in ("dot", "dotu"):
                            if tx == "d": tx = big(tx)
                            else: ty = big(ty)
                        elif op == "rot" and key == "ddss": tx, ty = big(tx), big(ty)
                        elif op == "rot" and key == "sddd": ty = big(ty)
                    if op == "copy" and key == "sczz": tx, ty = "s", "c"
                    x, y = p.vec(tx, n, l[0]), p.vec(ty, n, l[1])
                    a = dict(x=x, y=y)
                    if op == "axpy": a["alpha"] = p.val(ta)
                    if op == "rot":
                        a["c"] = p.rnd.choice([(0, 0), (1, 0), (-1, 0)]) if key == "sddd" else (rnd.randint(-2, 2), 0)
                        a["s"] = (0, 0) if key == "sddd" else p.val(ta)
                        if key == "sddd" and a["c"] == (0, 0): a["c"] = (1, 0)
                    p.call(op, key, l, **a)
            elif op == "scal":
                p = P(key); n = rnd.choice([0, 1, 2, 3, 5])
                p.call(op, key, l, alpha=p.val(key[2]), x=p.vec(big(key[0]) if key == "ddss" else key[0], n, l[0]))
            elif op == "lacpy":
                p = P(key); m, n = dim(), dim()
                A = p.mat(key[0], m, n, l[0]); B = p.mat(key[1], m + rnd.choice([0, 2]), n + rnd.choice([0, 1]), l[1])
                p.call(op, key, l, uplo=rnd.choice("ULG"), A=A, B=B)
            elif op == "transpose":
                p = P(key); m, n = rnd.choice([(2, 3), (7, 5), (5, 7), (9, 9), (0, 3), (17, 4)])
                A = p.mat(key[0], m, n, l[0]); B = p.mat(key[1], n, m, l[1], f=lambda i, j: NAN)
                p.call(op, key, l, A=A, B=B, conj=rnd.choice([0, 1]), nx=rnd.choice([2, 3, 16]))
            elif op == "laset":
                p = P(key)
                p.call(op, key, l, uplo=rnd.choice("ULG"), alpha=p.val(big(key[2]) if key == "ddsd" else key[2]), beta=p.val(big(key[3]) if key == "ddsd" else key[3]) if key[2:] != "sd" else p.val(big("d")),
                       A=p.mat(key[0], dim(), dim(), l[0]))
                if key == "ddsd": p.calls[-1][3]["alpha"] = p.val("s")
            elif op == "lascl":
                p = P(key); m, n = dim(), dim()
                A = p.mat(big(key[0]) if key[0] == "d" else key[0], m, n, l[0])
                b = rnd.choice([1, -1, 2, -2]); a = b * rnd.choice([-3, 0, 1, 2])
                p.call(op, key, l, a=(a, 0), b=(b, 0), A=A, uplo=rnd.choice("ULGSsHh"))
            elif op in ("rot_sequence", "rot_sequence3"):
                for sd, dr in itertools.product("LR", "FB"):
                    p = P(key); k = rnd.choice([1, 2, 3, 5, 8]); o = rnd.choice([0, 1, 2, 3, 5])
                    m, n = (k + 1, o) if sd == "L" else (o, k + 1)
                    L = 1 if op == "rot_sequence" else rnd.choice([1, 2, 3, 4])
                    c, s = {}, {}
                    units = [(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if isc(key[1]) else [])
                    for i, j in itertools.product(range(k), range(L)):
                        c[i, j], s[i, j] = (rnd.choice([1, -1]), (0, 0)) if rnd.random() < .4 else (0, rnd.choice(units))
                    A = p.mat(big(key[2]) if key == "ssddd" else key[2], m, n, l[2])
                    if op == "rot_sequence":
                        p.call(op, key, l, side=sd, direc=dr, c=p.vec(key[0], k, l[0], f=lambda i: c[i, 0]), s=p.vec(key[1], k, l[1], f=lambda i: s[i, 0]), A=A)
                    else:
                        p.call(op, key, l, side=sd, direc=dr, C=p.mat(key[0], k, L, l[0], f=lambda i, j: c[i, j]), S=p.mat(key[1], k, L, l[1], f=lambda i, j: s[i, j]), A=A)
            elif op in ("larf", "larfv"):
                tv, tc, tt = key[:3]
                for s, v in itertools.product("LR", "CR"):
                    p = P(key)
                    p.vr = 1 if nar else 2
                    m, n = rnd.choice([0, 1, 2, 3, 4]), rnd.choice([0, 1, 2, 3, 4])
                    q = m if s == "L" else n
                    TC = big(tc)  if nar else tc
                    if op == "larf":
                        C0 = p.vec(TC, n if s == "L" else m, l[0]); x = p.vec(tv, q, l[0])
                        p.call(op, key, l, side=s, storev=v, x=x, tau=p.val(tt), C0=C0, C1=p.mat(TC, m, n, l[1]))
                    else:
                        d = rnd.choice("FB")
                        x = p.vec(tv, q, l[0], f=lambda i: None if i == (0 if d == "F" else q - 1) else p.val(tv))
                        p.call(op, key, l, side=s, direc=d, storev=v, v=x, tau=p.val(tt), C=p.mat(TC, m, n, l[1]))
            elif op in ("larft", "larfb") or op[:2] == "un":
                fix = {"unm2r": "FC", "unm2l": "BC", "unml2": "FR", "unmr2": "BR", "unmqr": "FC", "unmql": "BC", "unmlq": "FR", "unmrq": "BR"}
                for d, v in itertools.product("FB", "CR") if op not in fix else [fix[op]] * 2:
                    p = P(key); p.vr = 1
                    tv, tc, tt = key[:3]
                    k = rnd.choice([0, 1, 2, 2]) if op != "larft" else rnd.choice([1, 2, 3])
                    q = k + rnd.choice([0, 1, 2]); w = rnd.choice([0, 1, 2, 3])
                    def f(a, b):
                        i, pos = (b, a) if v == "C" else (a, b)
                        u = i if d == "F" else q - k + i
                        return p.val(tv) if ((pos > u) if d == "F" else (pos < u)) else None
                    V = p.mat(tv, *((q, k) if v == "C" else (k, q)), l[0], f=f)
                    s = rnd.choice("LR")
                    TC = big(tc) if nar else tc
                    if op == "larft":
                        p.call(op, key, l, direc=d, storev=v, V=V, tau=p.vec(tt, k, "F"), T=p.mat(tc, k, k, l[1], f=lambda i, j: None))
                        continue
                    C = p.mat(TC, *((q, w) if s == "L" else (w, q)), l[1])
                    a = dict(side=s, trans=rnd.choice("NC"), V=V, C=C)
                    if op == "larfb":
                        a["T"] = p.mat(tt, k, k, l[0], f=lambda i, j: (p.val(tt) if (i <= j) == (d == "F") or i == j else None))
                    else: a["tau"] = p.vec(tt, k, "F")
                    if op not in fix: a.update(direc=d, storev=v)
                    if op in ("unmqr", "unmql", "unmlq", "unmrq", "unmq"): a["nb"] = rnd.choice([1, 2, 32])
                    p.call(op, key, l, **a)
            elif op in ("gemmtr", "hemm2", "trmm_out", "mult_hehe"):
                for s, u, tb in itertools.product("LR", "UL", "NTC"):
                    p = P(key); p.maxd = 3
                    T = list(key)
                    if nar and key[2] == "d":
                        inp = [i for i in (0, 1) if T[i] == "d"]
                        if inp: i = rnd.choice(inp); T[i] = Big("d")
                        if rnd.random() < .5: T[2] = Big("d")
                    m, n, k = (rnd.choice([0, 1, 2, 3, 3]) for _ in range(3))
                    a = dict(uplo=u, alpha=scal_of(p, T[3]), beta=scal_of(p, T[4]))
                    if op == "gemmtr":
                        ta = rnd.choice("NTC")
                        a.update(ta=ta, tb=tb, A=p.mat(T[0], *((n, k) if ta == "N" else (k, n)), l[0]), B=p.mat(T[1], *((k, n) if tb == "N" else (n, k)), l[1]), C=p.mat(T[2], n, n, l[2]))
                    elif op == "mult_hehe":
                        a.update(A=p.mat(T[0], n, n, l[0], f=herm_f(p, T[0], u, n)), B=p.mat(T[1], n, n, l[1], f=herm_f(p, T[1], u, n)), C=p.mat(T[2], n, n, l[2]))
                    else:
                        q = m if s == "L" else n
                        if op == "trmm_out": a["diag"] = rnd.choice("NU")
                        a.update(side=s, tb=tb, A=p.mat(T[0], q, q, l[0], f=herm_f(p, T[0], u, q) if op == "hemm2" else tri_f(p, T[0], u, a["diag"])),
                                 B=p.mat(T[1], *((m, n) if tb == "N" else (n, m)), l[1]), C=p.mat(T[2], m, n, l[2]))
                    p.call(op, key, l, **a)
            elif op == "trsm_tri":
                for s, u, tr, dg in itertools.product("LR", "UL", "NTC", "NU"):
                    if rnd.random() < .6: continue
                    p = P(key); n = rnd.choice([0, 1, 2, 3])
                    ua = u if tr == "N" else ("L" if u == "U" else "U")
                    A = p.mat(key[0], n, n, l[0], f=inv_tri_f(p, key[0], ua, dg)); B = p.mat(big(key[1]) if nar else key[1], n, n, l[1], f=tri_f(p, big(key[1]) if nar else key[1], u, "N"))
                    p.call(op, key, l, side=s, uplo=u, trans=tr, diag=dg, alpha=scal_of(p, key[2]), A=A, B=B)
            else: raise KeyError(op)
    return out
def progs(rnd, per):
    return blas23(rnd, per) + lapack(rnd, 2 * per)
if __name__ == "__main__":   # the registrations of drv/mixed.cpp
    A, B = registrations()
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../drv/mixed.cpp")
    s = open(f).read()
    i = s.index("// ---- generated by gen/mixed.py")
    g = lambda L: "".join("X%d(%s_, %s, %s, %s)\n" % (len(k) - 2, op, k, ", ".join(N[x] for x in k), ", ".join(l)) for op, k, l in L)
    s = s[:i] + "// ---- generated by gen/mixed.py\n#if PART == 1\n" + g(A) + "#else\n" + g(B) + "#endif\n"
    open(f, "w").write(s)
