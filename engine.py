"""Build, execute, validate.

  build(tus)           compile driver translation units against /repo, cached by
                       a hash of their preprocessed text
  run_machine(...)     execute programs in the driver and validate every
                       recorded call against spec/Trace.tla with TLC
  tlc(...)             run TLC on some module/config
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CACHE = os.path.join(VERIF, ".cache")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "g++"
FLAGS = ["-std=c++20", "-O0", "-w", "-I" + REPO + "/include", "-I" + VERIF + "/drv",
         "-DTLAPACK_CHECK_INPUT"]
NPROC = int(os.environ.get("VF_NPROC") or min(8, os.cpu_count() or 8))

class CheckError(Exception):
    pass

# ------------------------------------------------------------------ building
def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def eigen():
    """Eigen 3.4.0 needs upstream commit 9210e71f to work with tlapack (README.md):
    Eigen::internal::size is renamed, it clashes with std::size"""
    d = os.path.join(CACHE, "eigen3")
    if not os.path.isdir(d):
        if not os.path.isdir("/usr/include/eigen3/Eigen"): raise CheckError("Eigen is not installed")
        t = "%s.%d.tmp" % (d, os.getpid()) + str(time.time_ns())
        os.makedirs(t)
        shutil.copytree("/usr/include/eigen3/Eigen", t + "/Eigen")
        for f in ("Core/IndexedView.h", "plugins/IndexedViewMethods.h", "Core/util/Meta.h"):
            p = os.path.join(t, "Eigen/src", f)
            x = open(p).read()
            x = x.replace("internal::size(", "internal::index_list_size(").replace("Index size(const T", "Index index_list_size(const T")
            open(p, "w").write(x)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return d

def compile_tu(tu, flags=None):
    """returns the path of the object file for driver TU (a path under drv/)"""
    flags = FLAGS + (flags or [])
    if "-DVF_EIGEN" in flags: flags = flags + ["-I" + eigen()]
    src = tu if tu.startswith("/") else os.path.join(VERIF, "drv", tu)
    p = _run([CXX, *flags, "-E", "-P", src])
    if p.returncode:
        raise BuildFailed(tu, p.stderr)
    h = hashlib.sha256((" ".join([CXX] + flags) + "\0" + p.stdout).encode()).hexdigest()[:32]
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, h + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        open(tmp + ".ii", "w").write(p.stdout)      # compile exactly the text that was hashed
        q = _run([CXX, *flags, "-fpreprocessed", "-c", tmp + ".ii", "-o", tmp])
        os.unlink(tmp + ".ii")
        if q.returncode:
            raise BuildFailed(tu, q.stderr)
        os.replace(tmp, obj)
    return obj

class Undefined(CheckError):
    def __init__(s, event, out):
        super().__init__("TLC could not evaluate event %d: %s" % (event, out[-1500:]))
        s.event = event

class BuildFailed(CheckError):
    def __init__(s, tu, err):
        super().__init__("cannot compile %s:\n%s" % (tu, err[-3000:]))

def build(tus, flags=None, libs=None):
    tus = ["main.cpp"] + [t for t in tus if t != "main.cpp"]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda t: compile_tu(t, [f for f in flags or [] if f in ("-DNDEBUG", "-DVF_LD", "-DVF_EIGEN")] if t == "main.cpp" else flags), tus))
    return link(objs, libs)

def link(objs, libs=None):
    h = hashlib.sha256(" ".join(objs + (libs or [])).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, h + ".exe")
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        q = _run([CXX, *objs, "-o", tmp, *(libs or [])])
        if q.returncode:
            raise CheckError("link: " + q.stderr[-2000:])
        os.replace(tmp, exe)
    return exe

# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, cwd=None, workers=1, timeout=600, heap="2g", extra=()):
    cwd = cwd or os.path.join(VERIF, "spec")
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap,
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    try:
        p = _run(cmd, cwd=cwd, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

# ------------------------------------------------------------------ machine runs
class Result:
    def __init__(s):
        s.events = s.programs = s.states = 0
        s.ops = {}
        s.bad = []      # list of dict(prog=Prog, call=k, why=str, line=str)
        s.distinct = set()
        s.worst = {}    # (op, measurement) -> largest value seen

def _drive(exe, progs, out_path, tmo):
    """run programs (list of (pid, Prog)); write ndjson; returns (index, crashes)
    index: list of (pid, call or None) per ndjson line"""
    index, crashes = [], []
    todo = list(progs)
    with open(out_path, "w") as out:
        while todo:
            text = "".join(p.text(pid) for pid, p in todo)
            q = subprocess.run([exe, str(tmo)], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if q.returncode == 3:
                raise CheckError("driver: " + q.stderr.decode()[-2000:])
            got = {}
            partial = None
            for ln in q.stdout.decode().split("\n"):
                if not ln: continue
                f = ln.split(" ", 2)
                if len(f) < 3 or not f[2].endswith("}"):
                    partial = (int(f[0]), int(f[1]))
                    continue
                got[(int(f[0]), int(f[1]))] = f[2]
            nxt = []
            died = False
            for pos, (pid, p) in enumerate(todo):
                recs = [got.get((pid, k)) for k in range(len(p.calls))]
                if None in recs and not died:
                    died = True
                    if q.returncode == 0:
                        raise CheckError("driver lost output of program %s" % pid)
                    k = recs.index(None)
                    why = {-14: "did not terminate", -6: "aborted (assertion)", -11: "segmentation fault",
                           -8: "arithmetic exception"}.get(q.returncode, "died with status %d" % q.returncode)
                    crashes.append(dict(prog=p, call=k, why=p.calls[k][0] + " " + why,
                                        line=p.call_js(k) + "}", stderr=q.stderr.decode()[-500:]))
                    recs = recs[:k]
                    nxt = todo[pos + 1:]
                    out.write(p.load_js() + "\n"); index.append((pid, None))
                    for k, r in enumerate(recs):
                        out.write(p.call_js(k) + "," + r[1:] + "\n"); index.append((pid, k))
                    break
                out.write(p.load_js() + "\n"); index.append((pid, None))
                for k, r in enumerate(recs):
                    out.write(p.call_js(k) + "," + r[1:] + "\n"); index.append((pid, k))
            todo = nxt
            if not died and q.returncode != 0:
                raise CheckError("driver exit %d: %s" % (q.returncode, q.stderr.decode()[-1000:]))
    return index, crashes

def _validate(path, n, module="Trace", timeout=800):
    rc, out = tlc(module, env={"TRACE": path}, timeout=timeout)
    if rc != 0:
        # the recorded values have no meaning in the specification (an operator was
        # applied outside its domain): name the event that TLC could not evaluate
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if ls and "Error:" in out and "OutOfMemory" not in out and "StackOverflow" not in out:
            raise Undefined(int(ls[-1]), out)
    m = re.search(r'<<\s*"BAD",\s*\{([^}]*)\}\s*>>', out)
    c = re.search(r'<<\s*"CHECKED",\s*(\d+)\s*>>', out)
    if rc != 0 or not m or not c or int(c.group(1)) != n:
        keep = os.path.join(VERIF, "evidence", "tlc_failure.txt")
        try: open(keep, "w").write(path + "\n" + out[-20000:])
        except OSError: pass
        shutil.copy(path, "/tmp/vf_last_failed_trace.ndjson") if os.environ.get("VF_KEEP") else None
        raise CheckError("TLC did not accept or reject %s (rc %d): %s" % (path, rc, out[-1500:]))
    bad = [int(x) for x in m.group(1).replace("\n", " ").split(",") if x.strip()]
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return bad, int(st.group(2)) if st else 0

def run_machine(exe, progs, shards=NPROC, tmo=20, module="Trace"):
    """execute programs and validate; returns Result"""
    res = Result()
    res.programs = len(progs)
    shards = max(1, min(shards, len(progs)))
    ids = list(enumerate(progs))
    # interleave so that shards are balanced
    parts = [ids[i::shards] for i in range(shards)]
    def work(k):
        path = os.path.join(scratch(), "t%d_%d.ndjson" % (k, time.monotonic_ns()))
        index, crashes = _drive(exe, parts[k], path, tmo)
        undefined = []
        for _ in range(6):
            try:
                bad, states = ([], 0) if not index else _validate(path, len(index), module)
                break
            except Undefined as u:
                lines = open(path).read().split("\n")
                pid, call = index[u.event - 1]
                if call is None or os.environ.get("VF_STRICT"): raise
                p = dict(parts[k])[pid]
                undefined.append(dict(prog=p, call=call, line=lines[u.event - 1],
                                      why=p.calls[call][0] + " left values the specification gives no meaning to"))
                keep = [i for i in range(len(index)) if index[i][0] != pid]
                index = [index[i] for i in keep]
                with open(path, "w") as f: f.writelines(lines[i] + "\n" for i in keep)
        else:
            bad, states, index = [], 0, []
        crashes = crashes + undefined
        if bad:   # report a rejection only if a re-run repeats it
            bad2, _ = _validate(path, len(index), module)
            if bad2 != bad:
                raise CheckError("TLC verdicts differ between runs")
        lines = open(path).read().split("\n")
        byid = dict(parts[k])
        out = []
        for b in bad:
            pid, call = index[b - 1]
            p = byid[pid]
            out.append(dict(prog=p, call=call, why=p.calls[call][0] + " is not a step of the specification",
                            line=lines[b - 1]))
        ops = {}
        worst = {}
        distinct = set()
        for (pid, call), ln in zip(index, lines):
            if call is None: continue
            op = byid[pid].calls[call][0]
            ops[op] = ops.get(op, 0) + 1
            distinct.add(hash(ln))
            k = ln.rfind('"ret":{')
            if k >= 0:
                for key, v in json.loads(ln[k + 6:-1]).items():
                    vs = v if isinstance(v, list) else [v]
                    for x in vs:
                        if isinstance(x, int) and x > worst.get(op + "." + key, -1): worst[op + "." + key] = x
        os.unlink(path)
        return len(index), states, out + crashes, ops, distinct, worst
    with cf.ThreadPoolExecutor(shards) as ex:
        for n, states, bad, ops, distinct, worst in ex.map(work, range(shards)):
            res.events += n
            res.states += states
            res.bad += bad
            res.distinct |= distinct
            for w, x in worst.items(): res.worst[w] = max(x, res.worst.get(w, -1))
            for o, c in ops.items():
                res.ops[o] = res.ops.get(o, 0) + c
    return res
