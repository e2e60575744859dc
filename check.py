#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import importlib, json, os, random, sys, time, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF, os.path.join(VERIF, "gen")]
import engine

def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k.get("property") == pid and k.get("status") == "finding": out.append(k)
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage={}, assumptions=[], wall_s=0.0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep = os.path.join(VERIF, "evidence", "replay_%s.txt" % pid)
    if os.path.exists(rep): os.unlink(rep)
    run = props.Run(pid, tier, seed)
    try: props.PROPS[pid](run)
    except props.Stop: pass
    bad, known = [], []
    kf = load_known(pid)
    for b in run.bad:
        hit = next((k for k in kf if props.matches(k, b)), None)
        (known if hit else bad).append((hit, b))
    for k in kf:
        if any(h is k for h, _ in known):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = run.coverage()
    ev.update(coverage=cov, level=run.level, assumptions=run.assumptions, violations=len(bad),
              wall_s=round(time.time() - t0, 2))
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if bad:
        with open(rep, "w") as f:
            for _, b in bad[:60]:
                f.write("# %s\n# %s\n" % (b["why"], b.get("line", "")[:4000]))
                if b.get("prog") is not None: f.write(b["prog"].text(0))
                f.write("\n")
        for _, b in bad[:8]:
            print("  rejected:", b["why"], "|", b.get("line", "")[:300])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s held: %s (%.1fs)" % (pid, json.dumps({k: v for k, v in cov.items() if not isinstance(v, (list, dict))}), time.time() - t0))
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except engine.CheckError as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
