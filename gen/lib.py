"""Program builder for the conformance drivers.

A program is a list of buffers followed by library calls; it is rendered twice:
as driver text (what to execute) and as JSON (what the specification is told
was executed).  Nothing here computes expected results.
"""
import json, random

NAN = "N"
def isc(t): return t in "cz"

class View:
    """matrix view: buffer, offset, rows, columns, leading dimension, layout"""
    def __init__(s, buf, off, m, n, ld, lay):
        s.buf, s.off, s.m, s.n, s.ld, s.lay = buf, off, m, n, ld, lay
    def text(s): return f"{s.buf}:{s.off}:{s.m}:{s.n}:{s.ld}"
    def js(s):
        rs, cs = (1, s.ld) if s.lay == "C" else (s.ld, 1)
        return [s.buf, s.off, s.m, s.n, rs, cs]
    def sub(s, i, j, m, n):
        rs, cs = (1, s.ld) if s.lay == "C" else (s.ld, 1)
        return View(s.buf, s.off + i * rs + j * cs if m and n else s.off, m, n, s.ld, s.lay)

class Vec:
    """vector view: buffer, offset of lowest address, length, increment, direction"""
    def __init__(s, buf, off, n, inc=1, d="F"):
        s.buf, s.off, s.n, s.inc, s.d = buf, off, n, inc, d
    def text(s): return f"{s.buf}:{s.off}:{s.n}:{s.inc}"
    def js(s):
        if s.d == "B":
            return [s.buf, s.off + max(s.n - 1, 0) * s.inc, s.n, 1, -s.inc, 0]
        return [s.buf, s.off, s.n, 1, s.inc, 0]

class J:
    """an argument whose JSON differs from its text"""
    def __init__(s, text, js): s.t, s.j = text, js
    def text(s): return s.t
    def js(s): return s.j

def vtext(v, t):
    if v == NAN or v in ("I", "J"): return v
    if isinstance(v, tuple):
        return f"{v[0]},{v[1]}" if isc(t) else str(v[0])
    return str(v)
def vjs(v):
    if v == NAN: return [0, 0, 1]
    if v == "I": return [0, 0, 2]
    if v == "J": return [0, 0, 3]
    if isinstance(v, tuple): return [v[0], v[1]]
    return [v, 0]

class Prog:
    def __init__(s, rnd=None):
        s.rnd = rnd or random.Random(0)
        s.bufs, s.calls, s.nb, s.den = [], [], 0, 1
        s.tag = ""
        s.maxd = 6
    # -------------------------------------------------- buffers
    def buf(s, t, vals, name=None):
        name = name or "b%d" % s.nb
        s.nb += 1
        s.bufs.append((name, t, list(vals)))
        return name
    def val(s, t, lo=-3, hi=3):
        r = s.rnd
        return (r.randint(lo, hi), r.randint(lo, hi)) if isc(t) else (r.randint(lo, hi), 0)
    def junk(s, t):
        """contents of memory no routine may look at"""
        r = s.rnd
        return NAN if r.random() < 0.5 else (r.randint(100, 999), r.randint(100, 999) if isc(t) else 0)
    def mat(s, t, m, n, lay="C", f=None, pad=None, off=None, lo=-3, hi=3):
        """fresh buffer holding an m x n matrix; f(i,j) gives entries (None: junk)"""
        r = s.rnd
        e = m if lay == "C" else n
        o = n if lay == "C" else m
        pad = r.choice([0, 0, 1, 3]) if pad is None else pad
        off = r.choice([0, 0, 2]) if off is None else off
        ld = max(e + pad, 1)
        data = [s.junk(t) for _ in range(off + ld * o + r.choice([0, 2]))]
        for i in range(m):
            for j in range(n):
                v = f(i, j) if f else s.val(t, lo, hi)
                if v is None: v = s.junk(t)
                if isinstance(v, int): v = (v, 0)
                data[off + (i + j * ld if lay == "C" else i * ld + j)] = v
        return View(s.buf(t, data), off, m, n, ld, lay)
    def vec(s, t, n, d="F", inc=None, f=None, off=None, lo=-3, hi=3):
        r = s.rnd
        inc = r.choice([1, 1, 2, 3]) if inc is None else inc
        off = r.choice([0, 0, 1, 2]) if off is None else off
        data = [s.junk(t) for _ in range(off + max(n - 1, 0) * inc + (1 if n else 0) + r.choice([0, 1, 2]))]
        for i in range(n):
            v = f(i) if f else s.val(t, lo, hi)
            if v is None: v = s.junk(t)
            if isinstance(v, int): v = (v, 0)
            p = i if d == "F" else n - 1 - i
            data[off + p * inc] = v
        return Vec(s.buf(t, data), off, n, inc, d)
    def ints(s, n, vals=None):
        """int64 buffer (pivots etc.)"""
        b = s.buf("i", [(v, 0) for v in (vals or [7777] * n)])
        return Vec(b, 0, n, 1, "F")
    # -------------------------------------------------- calls
    def call(s, op, t, lay, /, **args):
        s.calls.append((op, t, lay or "-", args))
    # -------------------------------------------------- rendering
    def text(s, pid):
        out = [f"P {pid}"]
        if s.den != 1: out.append(f"D {s.den}")
        for name, t, vals in s.bufs:
            out.append(f"B {name} {t} {len(vals)} " + " ".join(vtext(v, t) for v in vals))
        for op, t, lay, args in s.calls:
            w = []
            for k, v in args.items():
                if k == "x_": continue
                if isinstance(v, (View, Vec, J)): w.append(f"{k}={v.text()}")
                elif isinstance(v, tuple): w.append(f"{k}={v[0]},{v[1]}")
                else: w.append(f"{k}={v}")
            out.append(f"C {op}_ {t} {lay} " + " ".join(w))
        return "\n".join(out) + "\n"
    def load_js(s):
        return json.dumps({"op": "load", "post": {n: [vjs(v) for v in vals] for n, t, vals in s.bufs}},
                          separators=(",", ":"))
    def call_js(s, k):
        """JSON of call k without the closing brace, to be joined with the driver's report"""
        op, t, lay, args = s.calls[k]
        a = {}
        for key, v in args.items():
            if key == "x_": continue
            if isinstance(v, (View, Vec, J)): a[key] = v.js()
            elif isinstance(v, tuple): a[key] = list(v)
            else: a[key] = v
        e = {"op": op, "t": t, "den": s.den, "a": a, "x": args.get("x_", {})}
        return json.dumps(e, separators=(",", ":"))[:-1]

def rot(lst, k): return lst[k % len(lst)]

class Pool:
    """Round-robin over option tuples so that every option occurs often even in
    small case counts."""
    def __init__(s, rnd, *axes):
        s.rnd = rnd
        s.axes = [list(a) for a in axes]
        s.q = [[] for _ in axes]
    def next(s):
        out = []
        for k, ax in enumerate(s.axes):
            if not s.q[k]:
                s.q[k] = ax[:]
                s.rnd.shuffle(s.q[k])
            out.append(s.q[k].pop())
        return out
