"""One function per property: which programs, which models, which drivers."""
import json, os, random, re
import engine

class Stop(Exception):
    """nothing more can be explored"""

class Run:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.rnd = random.Random("%s-%d" % (pid, seed))
        s.bad, s.level, s.assumptions = [], "model_checking", []
        s.c = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        s.ops = {}
        s.distinct = 0
        s.worst = {}
    def thorough(s): return s.tier == "thorough"
    def k(s, quick, thorough): return thorough if s.thorough() else quick
    def machine(s, tus, progs, tmo=20, module="Trace", exe=None):
        exe = exe or engine.build(tus)
        r = engine.run_machine(exe, progs, tmo=tmo, module=module)
        s.c["states"] += r.states
        s.c["transitions"] += r.events
        s.c["traces_validated_against_impl"] += r.programs
        s.distinct += len(r.distinct)
        for w, x in r.worst.items(): s.worst[w] = max(x, s.worst.get(w, -1))
        for o, n in r.ops.items(): s.ops[o] = s.ops.get(o, 0) + n
        if progs: s.c["samples"].append(progs[s.rnd.randrange(len(progs))].text(0)[:600])
        s.bad += r.bad
        return r
    def build(s, tus, flags, what):
        """a variant of the driver; what compiles without the flags must compile with them"""
        try: return engine.build(tus, flags)
        except engine.BuildFailed as e:
            engine.build(tus)
            s.bad.append(dict(why="the library cannot be instantiated with " + what, line=str(e), prog=None))
            raise Stop()
    def model(s, module, workers=8, timeout=800, extra=(), cfg=None, **consts):
        """explore the specification itself: every invariant of MODULE.cfg on all reachable states"""
        cfg = open(os.path.join(engine.VERIF, "spec", (cfg or module) + ".cfg")).read()
        for k, v in consts.items(): cfg = re.sub(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=).*$" % k, r"\g<1> %s" % v, cfg)
        path = os.path.join(engine.scratch(), module + ".cfg")
        open(path, "w").write(cfg)
        rc, out = engine.tlc(module, cfg=path, workers=workers, timeout=timeout, heap="8g", extra=extra)
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if "-simulate" in extra:
            m = re.search(r"number of states generated: (\d+)()", out)
            if rc != 0 or not m or "Error" in out: raise engine.CheckError("model %s: %s" % (module, out[-3000:]))
            s.c["transitions"] += int(m.group(1))
            s.c.setdefault("models", {})[module + " (random walks)"] = dict(generated=int(m.group(1)), constants={k: str(v) for k, v in consts.items()})
            return out
        if rc != 0 or not m or "No error has been found" not in out:
            raise engine.CheckError("model %s: %s" % (module, out[-3000:]))
        s.c["states"] += int(m.group(2)); s.c["transitions"] += int(m.group(1))
        s.c.setdefault("models", {})[module] = dict(generated=int(m.group(1)), distinct=int(m.group(2)), constants={k: str(v) for k, v in consts.items()})
        return out
    def coverage(s):
        c = dict(s.c)
        c["events_per_action"] = s.ops
        c["distinct_events"] = s.distinct
        c["samples"] = c["samples"][:3]
        if s.worst: c["largest_measurements"] = s.worst
        return c

def matches(k, b):
    return all(w in (b.get("why", "") + " " + b.get("line", "")) for w in k["match"])

PROPS = {}
def prop(f):
    PROPS[f.__name__] = f
    return f

import blas, blas1, scale, util, kern, rots, house, ortho, fac, move, svd, cond, hqr, hqz, dc, evec, tik, legacy, views, winfo, pre, mixed

@prop
def C01(r):
    p = blas.blas23(r.rnd, r.k(4, 40)) + blas.chain23(r.rnd, r.k(300, 4000))
    r.machine(["blas3.cpp", "blas2.cpp"], p)

@prop
def C02(r):
    p = blas1.exact(r.rnd, r.k(6, 60)) + blas1.history(r.rnd, r.k(150, 2000))
    p += scale.batch(r.rnd, scale.rotg_mod(r.rnd, r.k(60, 1000)) + scale.rotmg(r.rnd, r.k(150, 3000)) + scale.rotmg(r.rnd, r.k(150, 3000), 60) + scale.iamax(r.rnd, r.k(150, 3000)))
    r.machine(["blas1.cpp", "scale.cpp"], p)

@prop
def C20(r):
    q = r.rnd
    it = scale.rotg(q, r.k(1, 6)) + scale.nrm(q, r.k(250, 4000)) + scale.lapy(q, 1) + scale.ladiv(q, r.k(1, 8)) \
        + scale.rscl(q, r.k(6, 80)) + scale.rscl_grid(q, r.k(.6, 1)) + scale.larfg(q, r.k(250, 4000)) + scale.lascl(q, r.k(.3, 1)) + scale.rotmg(q, r.k(100, 1000), 60)
    q.shuffle(it)
    r.machine(["scale.cpp"], scale.batch(q, it))

@prop
def C17(r):
    q = r.rnd
    r.machine(["util.cpp"], util.norms(q, r.k(4, 40)) + util.moves(q, r.k(6, 60)) + util.larnv(q, r.k(3, 30)))

@prop
def C16(r):
    q = r.rnd
    p = util.exc(q, r.k(8, 80)) + util.norms(q, r.k(3, 30), exc=.6) + util.exc_scales(q, r.k(400, 5000)) + util.strong(q, r.k(3, 30))
    r.machine(["util.cpp", "scale.cpp", "blas1.cpp", "blas2.cpp", "blas3.cpp"], p)

@prop
def C18(r):
    r.machine(["kern.cpp"], kern.progs(r.rnd, r.k(2, 30)))

@prop
def C19(r):
    r.machine(["rots.cpp"], rots.rots(r.rnd, r.k(4, 60), r.k(1, 6)))

@prop
def C09(r):
    r.machine(["house.cpp"], house.progs(r.rnd, r.k(3, 40)))

@prop
def C10(r):
    q = r.rnd
    it = [x for x in scale.larfg(q, r.k(60, 1000), mod=True)]
    r.machine(["ortho.cpp"], ortho.gens(q, r.k(3, 40)) + ortho.batch(q, ortho.facts(q, r.k(6, 60), big=r.k(30, 80))))
    r.machine(["scale.cpp"], scale.batch(q, it))

@prop
def C08(r):
    q = r.rnd
    r.machine(["fac.cpp"], fac.lu(q, r.k(8, 100)) + fac.inverses(q, r.k(3, 40)) + ortho.batch(q, fac.lu_num(q, r.k(6, 60), r.k(40, 90))))

@prop
def C07(r):
    q = r.rnd
    r.machine(["fac.cpp"], fac.chol(q, r.k(3, 40)) + ortho.batch(q, fac.chol_num(q, r.k(5, 60), r.k(40, 90))))

@prop
def C14(r):
    q = r.rnd
    r.model("MCReorder", MaxBlocks=r.k(4, 6))
    r.machine(["move.cpp"], ortho.batch(q, move.items(q, r.k(3, 4), r.k(60, 1500))))

@prop
def C15(r):
    q = r.rnd
    r.machine(["svd.cpp"], ortho.batch(q, svd.items(q, r.k(4, 60), r.k(30, 70))))

@prop
def C11(r):
    q = r.rnd
    r.machine(["cond.cpp"], ortho.batch(q, cond.items(q, r.k(1, 14), r.k(30, 70))))

@prop
def C12(r):
    it = hqr.items(r.rnd, r.k(2, 30), r.k(26, 48))
    r.machine(["hqr.cpp"], ortho.batch(r.rnd, it, 20))

@prop
def C13(r):
    it = hqz.items(r.rnd, r.k(2, 30), r.k(26, 48))
    r.machine(["hqz.cpp"], ortho.batch(r.rnd, it, 20))

@prop
def C22(r):
    q = r.rnd
    progs = dc.exhaustive_sorts(q, r.k(4, 5), r.k(2, 3)) + dc.sorts(q, r.k([5, 19, 20, 21, 22, 23, 41, 64, 97], [6, 18, 19, 20, 21, 22, 23, 24, 25, 30, 40, 41, 42, 43, 63, 64, 65, 97, 128, 200, 300]))
    runs = dc.small(*r.k((2, 2), (3, 3)))
    cases = [(a, b) for a in runs for b in runs]
    for _ in range(r.k(20, 400)):
        cases.append(([q.randint(-5, 5) for _ in range(q.randint(0, 12))], [q.randint(-5, 5) for _ in range(q.randint(0, 12))]))
    r.machine(["dc.cpp"], progs + dc.merges(q, cases) + ortho.batch(q, dc.items(q, r.k(3, 40), r.k(30, 90)), 30))

@prop
def C23(r):
    q = r.rnd
    for tu, op in (("evec1.cpp", "n_trevc"), ("evec3.cpp", "n_trevc3")):
        it = evec.items(q, r.k(1, 12), r.k(12, 24), op)
        ov = [x for x in evec.overflow(q) if x[0] == op]
        r.machine([tu], ortho.batch(q, it, 30) + ortho.batch(q, ov, 1))

@prop
def C24(r):
    q = r.rnd
    r.machine(["tik.cpp"], ortho.batch(q, tik.items(q, r.k(1, 8), r.k(16, 24)) + tik.large(q, r.k(1, 6)), 20))

@prop
def C21(r):
    q = r.rnd
    for api in (0, 1, 2):
        exe = engine.build(["legacy.cpp"] + (["cwrap.cpp"] if api else []), legacy.flags(api))
        p = legacy.blas23(q, api, r.k(2, 24)) + legacy.blas1p(q, r.k(3, 30)) + legacy.twins(q, api, r.k(2, 30))
        if api == 0: p += legacy.lapack(q, r.k(2, 24))
        r.machine(None, p, exe=exe)

@prop
def C04(r):
    q = r.rnd
    two = views.parse(r.model("MCViews", Big=0, Depth=2, Emit="TRUE", Deep="FALSE"))
    one = views.parse(r.model("MCViews", Big=1, Depth=1, Emit="TRUE", Deep="FALSE"))
    deep = views.parse(r.model("MCViews", cfg="MCViewsSim", extra=("-simulate", "num=%d" % r.k(20, 400), "-depth", "9", "-seed", str(q.randint(1, 10**6))), Depth=r.k(6, 8)))
    pick = lambda l, n: l if len(l) <= n else q.sample(l, n)
    r.machine(["views.cpp"], views.render(q, one + pick(two, r.k(20000, 10**9)) + pick(deep, r.k(15000, 200000))) + views.bands(q, r.k(4, 6)))

@prop
def C05(r):
    q = r.rnd
    r.model("MCWork", MaxDim=r.k(3, 4))
    wk = [1, 2]
    tw = lambda its: ortho.batch(q, [(o, t, l, dict(a, twin=1)) for o, t, l, a in its], 4)
    k = r.k(1, 12)
    p = winfo.progs(q, *r.k((3, 300, 9), (4, 8000, 12))) + house.progs(q, k, wk=wk)
    p += ortho.gens(q, k, wk=wk) + tw(ortho.facts(q, r.k(2, 24), wk=wk, big=r.k(20, 60)))
    p += fac.inverses(q, k, wk=wk) + tw(fac.lu_num(q, k, r.k(20, 60), wk=wk) + [x for x in fac.chol_num(q, r.k(2, 24), r.k(20, 60), wk=wk) if x[0] == "n_ldl"])
    p += util.norms(q, k, wk=wk, ops=["infg", "infs", "infh", "inft"])
    p += tw(cond.items(q, k, r.k(20, 60), wk=wk)) + tw(hqr.items(q, k, r.k(26, 48), wk=wk)) + tw(evec.items(q, k, r.k(12, 24), "n_trevc3", wk=[1]))
    q.shuffle(p)
    r.machine(["winfo.cpp", "house.cpp", "ortho.cpp", "fac.cpp", "util.cpp", "cond.cpp", "hqr.cpp", "evec3.cpp"], p)

@prop
def C03(r):
    q = r.rnd
    k = r.k(2, 30)
    keep = lambda progs, ops: [x for x in progs if x.calls[0][0] in ops.split()]
    p = keep(blas.blas23(q, k), "trmm trsm trmv trsv hemm symm her2k syr2k herk syrk hemv symv her syr her2 syr2")
    p += keep(util.norms(q, k) + util.moves(q, k), "lantr infnorm lansy lanhe lacpy laset lascl")
    p += keep(kern.progs(q, r.k(1, 20)), "trmm_out trsm_tri gemmtr hemm2 lauum mult_uhu mult_llh ul_mult lu_mult trmm_blocked_mixed")
    p += keep(house.progs(q, r.k(1, 20)), "larfb unmq unmq_level2 householder_q_mul larft unmhr")
    p += fac.chol(q, r.k(1, 20)) + keep(fac.inverses(q, k), "trtri")
    tw = lambda its: ortho.batch(q, [(o, t, l, dict(a, twin=2, pz=q.choice([1, 1, 2]))) for o, t, l, a in its], 8)
    n = r.k(1, 20)
    p += tw(fac.chol_num(q, 2 * n, r.k(24, 60)) + [x for x in fac.lu_num(q, 2 * n, r.k(20, 60)) if x[0] == "n_trtri"])
    p += tw([x for x in cond.items(q, 2 * n, r.k(20, 60)) if x[0] == "n_trid"] + [x for x in ortho.facts(q, 3 * n, big=20) if x[3]["alg"] == "trge_qr2"])
    ev = evec.items(q, n, r.k(12, 24), "n_trevc")
    p += tw(ev if r.thorough() else q.sample(ev, 200))
    tus = ["blas2.cpp", "blas3.cpp", "util.cpp", "kern.cpp", "house.cpp", "fac.cpp", "cond.cpp", "ortho.cpp"]
    q.shuffle(p)
    r.machine(tus + ["evec1.cpp"], p)
    ev = evec.items(q, n, r.k(12, 24), "n_trevc3")
    r.machine(["evec3.cpp"], tw(ev if r.thorough() else q.sample(ev, 250)))

@prop
def C06(r):
    exe = engine.build(["pre.cpp", "lpre.cpp"], ["-DNDEBUG"])
    p = pre.progs(r.rnd, r.k(150, 1500), r.k(2, 3)) + pre.lprogs(r.rnd, r.k(120, 3000), r.k(3, 4))
    r.rnd.shuffle(p)
    r.machine(None, p, exe=exe)

def eigen_views(r, pick):
    q = r.rnd
    e = dict(Lays='{"c", "r"}', Dirs='{"c", "r"}')
    two = views.parse(r.model("MCViews", Big=0, Depth=2, Emit="TRUE", Deep="FALSE", **e))
    one = views.parse(r.model("MCViews", Big=1, Depth=1, Emit="TRUE", Deep="FALSE", **e))
    deep = views.parse(r.model("MCViews", cfg="MCViewsSim", extra=("-simulate", "num=%d" % r.k(10, 400), "-depth", "9", "-seed", str(q.randint(1, 10**6))), Depth=r.k(6, 8), **e))
    return views.render(q, one + pick(two, r.k(8000, 10**9)) + pick(deep, r.k(6000, 200000)))

def broad(r, types, only=lambda op: True):
    """programs for every part of the library, for the scalar types TYPES"""
    q = r.rnd
    n = r.k(1, 12)
    P = lambda l: [p for p in l if p.calls[0][1] in types and only(p.calls[0][0])]
    I = lambda l: [x for x in l if x[1] in types and only(x[0])]
    B = lambda l, m=8: ortho.batch(q, I(l), m)
    p = P(blas.blas23(q, 2 * n) + blas.chain23(q, 80 * n) + blas1.exact(q, 2 * n) + blas1.history(q, 40 * n))
    p += P(util.norms(q, n) + util.moves(q, 2 * n) + util.strong(q, n) + util.exc(q, n) + kern.progs(q, n) + rots.rots(q, n, 1) + house.progs(q, n))
    p += P(ortho.gens(q, n) + fac.lu(q, 2 * n) + fac.inverses(q, n) + fac.chol(q, n) + dc.sorts(q, [5, 19, 21, 41, 64]))
    p += B(ortho.facts(q, 2 * n, big=r.k(20, 60)) + fac.lu_num(q, 2 * n, r.k(20, 60)) + fac.chol_num(q, 2 * n, r.k(20, 60)))
    p += B(cond.items(q, n, r.k(20, 60)) + hqr.items(q, n, r.k(20, 40)) + hqz.items(q, n, r.k(16, 40)) + svd.items(q, 2 * n, r.k(20, 50)))
    p += B(move.items(q, r.k(2, 3), 60 * n) + tik.items(q, n, r.k(12, 24)) + dc.items(q, 2 * n, r.k(24, 60)))
    p += B(q.sample(evec.items(q, n, r.k(10, 20), "n_trevc"), 120 * n) + q.sample(evec.items(q, n, r.k(10, 20), "n_trevc3"), 120 * n))
    return p
BROAD = ["blas1.cpp", "blas2.cpp", "blas3.cpp", "util.cpp", "kern.cpp", "rots.cpp", "house.cpp", "ortho.cpp", "fac.cpp", "cond.cpp", "hqr.cpp", "hqz.cpp", "svd.cpp", "move.cpp", "tik.cpp", "dc.cpp", "evec1.cpp", "evec3.cpp"]

@prop
def C25(r):
    q = r.rnd
    exe = r.build(BROAD + ["scale.cpp"], LDB, "scalars of extended precision")
    p = broad(r, "dz")
    save = dict(scale.RANGE)
    def rng(den, mn, mx): scale.RANGE["d"] = scale.RANGE["z"] = (den, mn, mx, 64)
    k = r.k(1, 10)
    rng(-16445, -16381, 16383)
    it = scale.rotg(q, k) + scale.nrm(q, 150 * k) + scale.lapy(q, 1)
    rng(-16445, -16381, 16379)
    it += scale.larfg(q, 150 * k)
    rng(-4063, -4000, 4000)      # the oracle has no wider range than the type itself
    it += scale.ladiv(q, k) + scale.rscl(q, 2 * k) + scale.rscl_grid(q, .3) + scale.lascl(q, .2) + scale.rotmg(q, 60 * k, 60) + scale.iamax(q, 60 * k)
    scale.RANGE.update(save)
    p += scale.batch(q, [x for x in it if x[1] in "dz"])
    q.shuffle(p)
    r.machine(None, p, exe=exe)

@prop
def C26(r):
    q = r.rnd
    pick = lambda l, n: l if len(l) <= n else q.sample(l, n)
    exe = r.build(BROAD, EIG, "Eigen arrays")
    p = broad(r, "sdcz")
    q.shuffle(p)
    r.machine(None, p, exe=exe)
    exe = r.build(["views.cpp"], EIG, "Eigen arrays")
    r.machine(None, eigen_views(r, pick), exe=exe)

@prop
def C27(r):
    q = r.rnd
    p = mixed.progs(q, r.k(3, 40))
    q.shuffle(p)
    r.machine(["mixed.cpp", "mixed2.cpp"], p)

LDB = ["-DVF_LD"]
EIG = ["-DVF_EIGEN"]
TU_FLAGS = {"legacy.cpp": [legacy.flags(k) for k in (0, 1, 2)], "cwrap.cpp": [legacy.flags(1), legacy.flags(2)], "pre.cpp": [["-DNDEBUG"]], "lpre.cpp": [["-DNDEBUG"]]}
for _t in BROAD: TU_FLAGS[_t] = TU_FLAGS.get(_t, [None]) + [LDB, EIG]
TU_FLAGS["main.cpp"] = [None, ["-DNDEBUG"], LDB, EIG]
TU_FLAGS["scale.cpp"] = [None, LDB]
TU_FLAGS["views.cpp"] = [None, EIG]
