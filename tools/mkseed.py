#!/usr/bin/env python3
"""mkseed.py ID PROP FILE NTH <<< JSON {old,new,needs,breaks,demo}: writes /verif/seeded/ID (patch, demo, meta).
   Used as a library by ad-hoc scripts:  mk(id, prop, [(file, old, new, nth)], needs, breaks, demo_cpp, flags)."""
import os, subprocess, json, tempfile, shutil
def mk(id, prop, edits, needs, breaks, demo, flags="-std=c++17 -O1", runs=None):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed."); diff = ""
    files = {}
    for f, old, new, nth in edits:
        s = files.get(f) or open("/repo/" + f).read()
        parts = s.split(old)
        assert len(parts) > nth + 1, (id, f, "not found", len(parts) - 1)
        files[f] = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    for f, s in files.items():
        for side, txt in (("a", open("/repo/" + f).read()), ("b", s)):
            p = f"{tmp}/{side}/{f}"; os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(txt)
        diff += subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=tmp, capture_output=True, text=True).stdout
    shutil.rmtree(tmp)
    lines = []
    for l in diff.splitlines():
        if l.startswith("--- ") or l.startswith("+++ "): l = l.split("\t")[0]
        lines.append(l)
    open(d + "/patch.diff", "w").write("\n".join(lines) + "\n")
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it does not
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -r "$T"' EXIT
g++ %s -w -I "$PWD/include" "$H/demo.cpp" -o "$T/demo" || exit 4
timeout 120 "$T/demo"
''' % flags)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
