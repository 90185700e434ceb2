#!/usr/bin/env python3
"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a list of replacements (development aid).

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new[, occurrence])], needs, breaks,
demo (C++ source; main returns 0 when the behaviour is right), optional sh (whole demo.sh), files {name: text}.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# Compiles the library sources of the current directory (/repo) with demo.cpp and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
src=$(pwd)/src
for f in Boundary FastMarchingMethod Heap Hole InputOutput LevelSet Mesh Sensitivity %(extra)s; do
    g++ -std=c++11 -O1 -w %(inc)s -I "$src" -c "$src/$f.cpp" -o "$d/$f.o" & done
g++ -std=c++11 -O1 -w %(inc)s -I "$src" -c "$here/demo.cpp" -o "$d/demo.o" &
wait
g++ "$d"/*.o -o "$d/demo" || exit 98
mkdir "$d/run" && cd "$d/run" && timeout 120 "$d/demo"
"""
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = os.path.join(V, "seeded", s["id"])
    t = tempfile.mkdtemp(dir="/tmp")
    shutil.copytree("/repo/src", t + "/a/src"); shutil.copytree("/repo/src", t + "/b/src")
    for e in s["edits"]:
        p = t + "/b/src/" + e[0]; x = open(p).read(); n = e[3] if len(e) > 3 else 1
        if x.count(e[1]) < n: sys.exit("%s: text not found in %s: %s" % (s["id"], e[0], e[1]))
        if len(e) < 4 and x.count(e[1]) > 1: sys.exit("%s: text not unique in %s: %s" % (s["id"], e[0], e[1]))
        i = -1
        for _ in range(n): i = x.index(e[1], i + 1)
        open(p, "w").write(x[:i] + e[2] + x[i + len(e[1]):])
    r = subprocess.run(["diff", "-ru", "a/src", "b/src"], cwd=t, capture_output=True, text=True).stdout
    r = "".join(l if not l.startswith("diff ") else l.replace("diff -ru", "diff --git").replace(" a/src", " a/src") for l in r.splitlines(True))
    shutil.rmtree(t)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(r)
    if "demo" in s: open(d + "/demo.cpp", "w").write(s["demo"])
    for k, v in s.get("files", {}).items(): open(d + "/" + k, "w").write(v)
    open(d + "/demo.sh", "w").write(s.get("sh") or DEMO % dict(extra=s.get("extra", ""), inc=s.get("inc", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
