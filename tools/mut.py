#!/usr/bin/env python3
"""mut.py FILE OLD NEW CHECK...: run checks against a scratch copy of /repo with one replacement (development aid)."""
import os, shutil, subprocess, sys, tempfile
f, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    shutil.copytree("/repo/src", d + "/src")
    p = d + "/src/" + f
    s = open(p).read()
    if s.count(old) < 1:
        sys.exit("old text not found")
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks:
        r = subprocess.run([sys.executable, "/verif/bin/check.py", c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        t = r.stdout.strip().splitlines()
        print(c, "rc", r.returncode, (t[-2][:160] if len(t) > 1 else ""), flush=True)
finally:
    shutil.rmtree(d)
