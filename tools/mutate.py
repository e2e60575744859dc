#!/usr/bin/env python3
"""mutation campaign over /repo's headers (development aid, not part of any check)
   mutate.py gen  OUT.json PERFILE SEED [regex]    sample mutants
   mutate.py run  IN.json RESULTS.jsonl K N        worker K of N: runs the quick checks on each mutant in a
                                                   private mount namespace (needs root)"""
import json, os, random, re, subprocess, sys, shutil, time
VERIF = "/verif"; REPO = "/repo"
# header (regex on the path below include/tlapack) -> properties, most specific first
MAP = [
 (r"legacy_api/", "C21"),
 (r"blas/(asum|axpy|copy|dot|dotu|iamax|nrm2|rot|scal|swap)\.hpp", "C02 C16"), (r"blas/(rotg|lartg|rotm|rotmg)\.hpp", "C02 C20"),
 (r"blas/", "C01 C03 C16"),
 (r"plugins/(legacyArray|stdvector)|LegacyMatrix|LegacyVector|LegacyBanded", "C04 C17"),
 (r"base/(workspace|arrayTraits)", "C04 C05"), (r"base/", "C04 C16 C06 C20"),
 (r"lapack/(gemmtr|hemm2|mult_|trmm_|trsm_tri|ul_mult|lauum|lu_mult)", "C18 C03 C06"),
 (r"lapack/(rot_sequence)", "C19 C06"), (r"lapack/(hessenberg_rq|inv_house3)", "C11 C13 C19"),
 (r"lapack/(rscl|ladiv|lapy|lassq|lascl)", "C20 C16"), (r"lapack/larfg", "C20 C10"),
 (r"lapack/(hasnan|hasinf)", "C16"), (r"lapack/(lange|lanhe|lansy|lantr|infnorm)", "C17 C16 C03 C06"),
 (r"lapack/(conjugate|lacpy|laset|larnv|transpose)", "C17 C03 C06"),
 (r"lapack/(larf|larfb|larft|unm|householder_q_mul)", "C09 C05 C06 C10"),
 (r"lapack/(ung|gen_householder|ge(qr|ql|lq|rq)|householder_|trge|gelqt|geqrt3)", "C10 C05 C06 C09"),
 (r"lapack/(getr|trtri)", "C08 C03 C06"), (r"lapack/(pot|pbt|pttr|hetr|hetf)", "C07 C03 C05 C06"),
 (r"lapack/(gehrd|gehd2|lahr2|gebrd|gebd2|labrd|bidiag|hetd2|gghrd|gghd3|hessenberg|unghr|unmhr|ungbr|ungtr)", "C11 C05 C03 C06"),
 (r"lapack/(lahqr|multishift_qr|aggressive_early_deflation\.|qr_iter|move_bulge)", "C12 C05"),
 (r"lapack/(lahqz|multishift_qz|aggressive_early_deflation_gen)", "C13"),
 (r"lapack/(schur_|generalized_schur|lasy2)", "C14 C12 C13 C06"),
 (r"lapack/(steqr|svd|singularv|lae2|laev2|gesvd)", "C15 C22"), (r"lapack/(laed|lamrg|lasrt)", "C22"),
 (r"lapack/trevc", "C23 C03"), (r"lapack/(tik|tkhnv)", "C24 C06"),
 (r"lapack/", "C10 C12"),
]
def props(f):
    for r, p in MAP:
        if re.search(r, f): return p.split()
OPS = [(r"<=", ["<"]), (r"(?<![<\-])<(?![<=\w:a-zA-Z])", ["<="]), (r">=", [">"]), (r" > ", [" >= ", " < "]), (r" < ", [" <= ", " > "]),
 (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]),
 (r" \+ (?!1\b)", [" - "]), (r" - (?!1\b)", [" + "]), (r" \* ", [" / "]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\bconj\(", ["("]), (r"\breal\(", ["imag("]),
 (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]), (r"\bone\b", ["zero", "-one"]), (r"-one\b", ["one"]), (r"\bzero\b", ["one"]),
 (r"\bCONJ_TRANS\b", ["TRANSPOSE", "NO_TRANS"]), (r"\bNO_TRANS\b", ["CONJ_TRANS"]), (r"Op::ConjTrans", ["Op::Trans", "Op::NoTrans"]), (r"Op::NoTrans", ["Op::ConjTrans"]),
 (r"\bUPPER_TRIANGLE\b", ["LOWER_TRIANGLE"]), (r"\bLOWER_TRIANGLE\b", ["UPPER_TRIANGLE"]), (r"Uplo::Upper", ["Uplo::Lower"]), (r"Uplo::Lower", ["Uplo::Upper"]),
 (r"\bLEFT_SIDE\b", ["RIGHT_SIDE"]), (r"\bRIGHT_SIDE\b", ["LEFT_SIDE"]), (r"\bFORWARD\b", ["BACKWARD"]), (r"\bNON_UNIT_DIAG\b", ["UNIT_DIAG"]), (r"\bUNIT_DIAG\b", ["NON_UNIT_DIAG"]),
 (r"\bnonunit\b", ["true", "false"]), (r"\babs1\(", ["abs("]), (r"\babs\(", ["("]), (r"\bi, j\b", ["j, i"]), (r"\bcol\(", ["row("]), (r"\bn\b", ["m"]), (r"\bm\b", ["n"]),
 (r"\bnb\b", ["1"]), (r"\bib\b", ["nb"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bilo\b", ["0"]), (r"\bihi\b", ["n"]), (r"\beps\b", ["(1000 * eps)"]), (r"range\{0, ", ["range{1, "]),
]
def code_lines(s):
    """indices of lines inside function bodies, without comments, checks, declarations of templates"""
    out, com, tem = [], False, False
    for i, l in enumerate(s):
        t = l.strip()
        if com:
            if "*/" in t: com = False
            continue
        if t.startswith("/*"):
            com = "*/" not in t; continue
        if not l.startswith("    ") or t.startswith(("//", "#", "*", "using", "template", "assert", "static_assert", "TLAPACK_", "class ", "typename ", "tlapack_error", "enable_if", "disable_if", "const size_type", "size_type<", "[[", "}", "else", "for (idx_t j = 0; j < n; ++j)x")): continue
        if "TLAPACK_" in t and not re.search(r"TLAPACK_\w+\(", t): continue
        out.append(i)
    return out
def mutants(path, rnd, k):
    s = open(path).read().split("\n")
    cand = []
    for i in code_lines(s):
        l = s[i]
        body = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, body):
                for r in reps: cand.append((i, body[:m.start()] + r + body[m.end():], pat))
        t = body.strip()
        if t.endswith(";") and t.count("(") == t.count(")") and not re.match(r"(return|auto|const|break|continue|int|idx_t|T|real_t|using|bool|TA)\b", t) and i > 0 and s[i-1].rstrip().endswith((";", "{", "}", ")")):
            for _ in range(3): cand.append((i, l[:len(l) - len(l.lstrip())] + ";", "DELETE"))
    # choose by operator first, so that frequent operators do not dominate
    out = []; seen = set()
    byop = {}
    for c in cand: byop.setdefault(c[2], []).append(c)
    while byop and len(out) < k:
        op = rnd.choice(sorted(byop)); c = byop[op].pop(rnd.randrange(len(byop[op])))
        if not byop[op]: del byop[op]
        if (c[0], c[1]) in seen: continue
        seen.add((c[0], c[1])); out.append(c)
    return [dict(line=c[0], old=s[c[0]], new=c[1]) for c in out]
def gen(out, k, seed, rx="."):
    rnd = random.Random(int(seed)); ms = []
    base = REPO + "/include/tlapack"
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO + "/include/tlapack")
            if not re.search(rx, p) or re.search(r"starpu|eigen|gnuquad|mpreal|mdspan|debugutils|concepts|starpu|base/types|legacy_api/base/types", p): continue
            n = int(k)
            for m in mutants(os.path.join(d, f), rnd, n): ms.append(dict(file="include/tlapack/" + p, props=(['C06'] if 'tlapack_check' in m['old'] and 'legacy_api' not in p else []) + [q for q in props(p) if q != 'C06' or 'tlapack_check' not in m['old']], **m))
    rnd.shuffle(ms)
    json.dump(ms, open(out, "w"), indent=0); print(len(ms))
def run(inp, res, K, N):
    K, N = int(K), int(N)
    if os.environ.get("MUT_NS") != "1":
        w = "/tmp/mut/w%d" % K
        os.makedirs(w, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", "build", "--exclude", ".git", REPO + "/", w + "/repo/"], check=True)
        os.makedirs(w + "/cache", exist_ok=True); os.makedirs(w + "/evidence", exist_ok=True)
        if not os.listdir(w + "/cache"): subprocess.run("cp -a %s/.cache/. %s/cache/" % (VERIF, w), shell=True)
        os.environ["MUT_NS"] = "1"
        os.execvp("unshare", ["unshare", "-m", "--propagation", "private", "bash", "-c",
          "mount --bind %s/repo /repo && mount --bind %s/cache /verif/.cache && mount --bind %s/evidence /verif/evidence && exec python3 /verif/tools/mutate.py run %s %s %d %d" % (w, w, w, inp, res, K, N)])
    ms = json.load(open(inp))
    done = set()
    if os.path.exists(res): done = {json.loads(l)["id"] for l in open(res)}
    for k, m in enumerate(ms):
        if k % N != K or k in done: continue
        p = REPO + "/" + m["file"]; src = open(p).read(); s = src.split("\n")
        if s[m["line"]] != m["old"]: continue
        s[m["line"]] = m["new"]; open(p, "w").write("\n".join(s))
        stamp = time.time(); r = []; verdict = "SURVIVED"
        for q in m["props"]:
            try:
                o = subprocess.run(["python3", "-B", VERIF + "/check.py", q, "quick"], cwd=VERIF, capture_output=True, text=True, timeout=420, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                rc, t = o.returncode, o.stdout
            except subprocess.TimeoutExpired: rc, t = "timeout", ""
            r.append((q, rc))
            if rc == 1: verdict = "caught"; break
            if rc == 2 and "cannot compile" in t: verdict = "nocompile"; break
            if rc not in (0, 1): verdict = "NOANSWER"; r.append(t[-300:]); break
        open(p, "w").write(src)
        for f in os.listdir(VERIF + "/.cache"):
            g = VERIF + "/.cache/" + f
            try:
                if os.path.getmtime(g) > stamp: os.unlink(g)
            except OSError: pass
        with open(res, "a") as f: f.write(json.dumps(dict(id=k, file=m["file"], line=m["line"] + 1, old=m["old"].strip(), new=m["new"].strip(), verdict=verdict, runs=r, t=round(time.time() - stamp))) + "\n")
if __name__ == "__main__":
    dict(gen=gen, run=run)[sys.argv[1]](*sys.argv[2:])
