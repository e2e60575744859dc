#!/usr/bin/env python3
"""setup_cmd: compile every driver translation unit into the object cache."""
import concurrent.futures as cf, glob, os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF, os.path.join(VERIF, "gen")]
import engine, props
def main():
    tus = sorted(set(os.path.basename(p) for p in glob.glob(os.path.join(VERIF, "drv", "*.cpp"))))
    big = sorted(tus, key=lambda t: -os.path.getsize(os.path.join(VERIF, "drv", t)))
    errs = []
    with cf.ThreadPoolExecutor(engine.NPROC) as ex:
        jobs = [(t, f) for t in big for f in props.TU_FLAGS.get(t, [None])]
        for t, f in [(t, ex.submit(engine.compile_tu, t, f)) for t, f in jobs]:
            try: f.result()
            except engine.BuildFailed as e: errs.append(str(e))
    for e in errs: print("setup:", e)
    print("setup: %d translation units" % len(tus))
main()
