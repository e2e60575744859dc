"""Paths of view operations.  The paths themselves are behaviours of
spec/MCViews.tla (TLC prints them); this module only renders them."""
import json, re
from lib import *
def render(rnd, items, per=40):
    """items: (base, path, refused) as printed by TLC"""
    out = []
    for lo in range(0, len(items), per):
        p = Prog(rnd); out.append(p)
        size = 48
        b = p.buf("d", [(x + 1, 0) for x in range(size)])
        for base, path, refused in items[lo:lo + per]:
            path = [list(o) for o in path]
            ops, consted = [], False
            for o in path:
                if o[0] not in ("rm", "rv") and rnd.random() < .25:
                    ops.append(("!" + o[0], o)); consted = True
                else: ops.append((o[0], o))
                if rnd.random() < .05: ops.append(("!id", ["id"]))
            wr = 0 if consted else int(rnd.random() < .7)
            it = rnd.choice([0, 0, 1]) if base[0] == "M" else rnd.choice([0, 2, 2])
            if base[0] == "V" and base[1] == "F" and base[4] == 1 and all(o[0] == "vs" for o in path) and rnd.random() < .5: it = 3
            js = [o for _, o in ops]
            txt = "/".join(",".join([n] + [str(x) for x in o[1:]]) for n, o in ops) or "-"
            if base[0] == "M": need = base[2] + base[5] * (base[4] if base[1] in "Cc" else base[3])
            else: need = base[2] + base[3] * base[4]
            assert need <= size
            kw = dict(x_={"thr": "domain"}) if refused else {}
            p.call("view", "d", None, base=J(":".join(map(str, base)), base), path=J(txt, js), buf=b, wr=wr, it=it, **kw)
    return out
def parse(out):
    r = []
    for ln in out.split("\n"):
        if ln.startswith('"{'):
            d = json.loads(json.loads(ln))
            r.append((d["b"], d["p"], d["r"]))
    return r
def bands(rnd, big):
    out = []
    p = None
    for m in range(0, big + 1):
        for n in range(0, big + 1):
            for kl in range(0, max(m, 1)):
                for ku in range(0, max(n, 1)):
                    if p is None or len(p.calls) > 30:
                        p = Prog(rnd); out.append(p)
                        b = p.buf("d", [(x + 1, 0) for x in range(big * (2 * big + 1) + 4)])
                    p.call("band", "d", None, m=m, n=n, kl=kl, ku=ku, off=rnd.choice([0, 1, 3]), buf=b, it=rnd.choice([0, 1]))
    for k in ("MC", "MR", "VF", "VB", "SC", "SR", "SV"):
        for m in (0, 1, 2, 5):
            for n in (0, 1, 3):
                if k[0] == "S": m, n = {"SC": (3, 2), "SR": (2, 3), "SV": (5, 1)}[k]
                if k[0] == "V": n = 1
                p = Prog(rnd); out.append(p)
                p.call("create", "d", None, kind=k, m=m, n=n, had=rnd.choice([0, 0, 1, 20]))
    return out
