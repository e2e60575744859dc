"""Programs for the pointer-based interfaces: the calls of the native checks
restricted to what these interfaces can express."""
import itertools, os
from lib import *
import blas, blas1, util, house, ortho, fac
API = {0: "legacy C++", 1: "C", 2: "CBLAS"}
INC = "/verif/.cache/include"
def headers(repo="/repo"):
    """the C headers as the build system would generate them"""
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache", "include")
    os.makedirs(d, exist_ok=True)
    for n, k, v in (("tlapack.h", "@TLAPACK_DEFINES@", "#define TLAPACK_SIZE_T size_t\n#define TLAPACK_INT_T int64_t\n"),
                    ("tlapack_cblas.h", "@TLAPACK_CBLAS_DEFINES@", "#define CBLAS_INT int64_t\n")):
        s = open(os.path.join(repo, "include", n + ".in")).read().replace(k, v)
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)
    return d
def flags(api):
    return ["-I" + headers(), "-DAPI=%d" % api] + (["-DBUILD_CBLAS"] if api == 2 else [])

V3 = [("d", "CFF"), ("d", "RFF"), ("d", "CBF"), ("d", "RFB"), ("d", "RBB"), ("z", "CFF"), ("z", "RFF"), ("z", "CBF"), ("z", "RFB"), ("z", "RBB"), ("s", "CFF"), ("s", "RBB"), ("c", "CFF"), ("c", "RBB")]
V2 = [("d", "CF"), ("d", "RF"), ("d", "CB"), ("d", "RB"), ("z", "CF"), ("z", "RF"), ("z", "CB"), ("z", "RB"), ("s", "CF"), ("s", "RB"), ("c", "CF"), ("c", "RB")]
M3 = [(t, l * 3) for t in "sdcz" for l in "CR"]
M2 = [(t, l * 2) for t in "sdcz" for l in "CR"]
def noop(op, t, a):
    """quick returns of the pointer interface keep the imaginary parts on the
    diagonal of a Hermitian matrix (as the reference BLAS does)"""
    if not isc(t): return False
    if op in ("her", "her2"): return a["alpha"] == (0, 0)
    k = a["A"].m if a.get("trans") == "C" else a["A"].n
    return op in ("herk", "her2k") and a.get("beta") == (1, 0) and (a["alpha"] == (0, 0) or k == 0)
def blas23(rnd, api, per):
    out = []
    for op, fls in blas.FL3.items():
        for fl in fls:
            if api == 2 and "G" in [x for x in fl if isinstance(x, str)]: continue
            for t, lay in (M2 if op in ("herk", "syrk", "trmm", "trsm") else M3):
                for _ in range(per if len(fls) < 12 else max(1, per // 2)):
                    p = blas.b3(op, rnd, t, lay, fl)
                    a = p.calls[-1][3]
                    if noop(op, t, a): continue
                    if not isc(t) and a.get("trans") in ("C", "T") and rnd.random() < .4: a["ltrans"] = "T" if a["trans"] == "C" else "C"
                    out.append(p)
    for op, fls in blas.FL2.items():
        for fl in fls:
            if "J" in fl: continue
            for t, lay in (V2 if op in ("her", "syr", "trmv", "trsv") else V3):
                if api and op == "syr" and isc(t): continue
                for _ in range(per):
                    p = blas.b2(op, rnd, t, lay, fl)
                    a = p.calls[-1][3]
                    if noop(op, t, a): continue
                    if op == "gemv" and a["A"].m * a["A"].n == 0: continue
                    out.append(p)
    return out
def blas1p(rnd, per):
    out = []
    for p in blas1.exact(rnd, per) + blas1.history(rnd, per * 20):
        ok = all(not (op in ("scal", "asum", "nrm2", "iamax") and "B" in l) for op, t, l, a in p.calls)
        for op, t, l, a in p.calls:
            if op == "iamax": a["kind"] = "def"
            if op in ("copy", "axpy") and a["y"].n != a["x"].n:
                # the pointer interface has one length; the tail of y is another element
                if l[1] == "B" and a["x"].n: a["y"].off += (a["y"].n - a["x"].n) * a["y"].inc
                a["y"].n = a["x"].n
        if ok: out.append(p)
    return out
def twins(rnd, api, per):
    it = []
    r = rnd
    for t in "sdcz":
        for _ in range(6 * per):
            g = lambda: p_val(r, t)
            it.append(("l_rotg", t, "-", dict(ga=g(), gb=g())))
        if t in "sd":
            for _ in range(10 * per):
                it.append(("l_rotmg", t, "-", dict(d1=(r.choice([1, 2, 5, 100000]), 0), **{k: (r.choice([-3, -1, 0, 1, 2, 5, 1000, 100000]), 0) for k in ("d2", "ga", "gb")})))
        if api == 0:
            for dist in (1, 2, 3) + ((4, 5) if isc(t) else ()):
                it.append(("l_larnv", t, "F", dict(n=r.choice([0, 1, 5, 30]), dist=dist, seed=r.randint(0, 10**6))))
            for _ in range(3 * per):
                it.append(("l_geqr2", t, "C", dict(m=r.randint(0, 7), n=r.randint(0, 7), pad=r.choice([0, 0, 2]), seed=r.randrange(10**6))))
    return ortho.batch(rnd, it, 40)
def p_val(r, t):
    v = lambda: r.choice([-3, -1, 0, 0, 1, 2, 4, 5, 12])
    return (v(), v()) if isc(t) else (v(), 0)
def lapack(rnd, per):
    out = []
    # norms, fills, copies
    for p in util.norms(rnd, per) + util.moves(rnd, per):
        op, t, l, a = p.calls[-1]
        if op not in ("lange", "lansy", "lanhe", "lantr", "laset", "lacpy", "lascl") or "R" in l: continue
        if op == "lascl" and a.get("uplo") not in ("U", "L", "G", "H"): continue
        if op == "lacpy":
            a["B"] = View(a["B"].buf, a["B"].off, a["A"].m, a["A"].n, a["B"].ld, "C")
        if op in ("laset", "lacpy"): a["mt"] = rnd.choice([0, 1])
        out.append(p)
    for p in house.progs(rnd, max(1, per // 2), only={"larf", "larft", "larfb"}):
        op, t, l, a = p.calls[-1]
        if op == "larf" or (op != "larfv" and l != "CC") or (op == "larfv" and l[1] != "C"): continue
        if op == "larfv":
            if a["direc"] != "F" or a["storev"] != "C" or a["v"].d != l[0]: continue
        if op == "larft":
            k = a["tau"].n
            q = a["V"].m if a["storev"] == "C" else a["V"].n
            if k < 1 or q == 0: continue
            a["T"] = View(a["T"].buf, a["T"].off, k, k, a["T"].ld, "C")
            a["tau"].inc == 1 or None
        out.append(p)
    L = [("d", "CC"), ("z", "CC"), ("s", "CC"), ("c", "CC")]
    for _ in range(per):
        for t, l in L:
            for s, tr in itertools.product("LR", house.trs(t)):
                for op in ("unm2r", "unmqr"):
                    p = Prog(rnd); out.append(p)
                    house.qmul(p, t, l, op, "F", "C", s, tr, True)
            for _ in range(3):
                p = Prog(rnd); out.append(p)
                ortho.ung(p, t, "C", "ung2r", "F", "C", True)
            for d in "FB":
                for _ in range(2):
                    p = Prog(rnd); out.append(p)
                    p.call("l_larfg", t, d, alpha=p.val(t), x=p.vec(t, rnd.choice([0, 1, 2, 5]), d), ptr=rnd.choice([0, 1]))
                    p = Prog(rnd); out.append(p)
                    p.call("l_lassq", t, d, x=p.vec(t, rnd.choice([0, 1, 2, 5]), d), s0=(rnd.choice([0, 1, 2]), 0), q0=(rnd.choice([0, 1, 7]), 0))
            for mt in "BQZ":
                p = Prog(rnd); out.append(p)
                m, n = rnd.randint(1, 5), rnd.randint(1, 5)
                k1, k2 = rnd.randint(0, m - 1), rnd.randint(0, n - 1)
                if mt != "Z": k1 = k2 = min(k1, k2)
                rows = k1 + 1 if mt != "Z" else 2 * k1 + k2 + 1
                b = rnd.choice([1, -1, 2]); x = b * rnd.choice([-3, 0, 1, 2])
                p.call("l_lasclb", t, "C", mt=mt, m=m, n=n, kl=k1, ku=k2, a=(x, 0), b=(b, 0), A=p.mat(t, rows, n, "C"))
    for p in fac.chol(rnd, per):
        op, t, l, a = p.calls[-1]
        if op not in ("potrf", "potrs") or "R" in l or (op == "potrf" and a["alg"] != "blocked"): continue
        if op == "potrf": a["nb"] = 32
        out.append(p)
    # the vector arguments of these routines are contiguous
    return [compact(p) for p in out]
def compact(p):
    op, t, l, a = p.calls[-1]
    v = a.get("tau")
    if isinstance(v, Vec) and v.inc != 1:
        for i, (name, tt, vals) in enumerate(p.bufs):
            if name == v.buf:
                p.bufs[i] = (name, tt, [vals[v.off + k * v.inc] for k in range(v.n)] + [p.junk(tt)])
        v.off, v.inc = 0, 1
    return p
