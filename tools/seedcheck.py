#!/usr/bin/env python3
"""seedcheck.py ID[:CHECK,CHECK]...: confirm planted bugs in scratch copies of /repo (bind-mounted over /repo in a private
mount namespace): demo passes on the clean copy, patch applies, builds, stable tests pass, demo fails, checks catch it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open("/opt/vp/BASELINE.json"))
def one(arg):
    id, _, cs = arg.partition(":")
    sd = os.path.join(V, "seeded", id); meta = json.load(open(sd + "/meta.json"))
    checks = [c for c in cs.split(",") if c] or [meta["property"]]
    c = "/tmp/sc-" + id
    shutil.rmtree(c, ignore_errors=True); shutil.copytree("/repo", c, symlinks=True)
    e = "/tmp/sd-" + id; shutil.rmtree(e, ignore_errors=True); shutil.copytree(sd, e)
    for f in ("patch.diff", "meta.json"): os.remove(e + "/" + f)
    script = r'''
mount --bind %(c)s /repo || exit 1
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || echo CLEANBUILDFAIL
sh %(e)s/demo.sh >/tmp/sc-%(id)s.d0 2>&1; echo demo-clean $?
git apply --check %(sd)s/patch.diff && git apply %(sd)s/patch.diff || echo APPLYFAIL
bash /opt/vp/test.sh /tmp/sc-%(id)s.json >/tmp/sc-%(id)s.t 2>&1; echo test $?
sh %(e)s/demo.sh >/tmp/sc-%(id)s.d1 2>&1; echo demo-bug $?
for k in %(ks)s; do python3 %(v)s/bin/check.py $k >/tmp/sc-%(id)s.$k 2>&1; echo check $k $?; done
''' % dict(c=c, e=e, sd=sd, id=id, ks=" ".join(checks), v=V)
    r = subprocess.run(["unshare", "-m", "bash", "-c", script], capture_output=True, text=True)
    out = r.stdout.split("\n")
    t = "?"
    try:
        j = json.load(open("/tmp/sc-%s.json" % id)); t = "%d passed, %d failed" % (len(j["passed"]), len(j["failed"]))
    except Exception as x: t = repr(x)
    why = ""
    for k in checks:
        try:
            L = open("/tmp/sc-%s.%s" % (id, k)).read().strip().split("\n"); why += " | " + (L[-2] if len(L) > 1 else L[-1])[:150]
        except OSError: pass
    print(id, meta["property"], "; ".join(x for x in out if x), ";", t, why, r.stderr.strip()[:300], flush=True)
    shutil.rmtree(c, ignore_errors=True); shutil.rmtree(e, ignore_errors=True)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex: list(ex.map(one, sys.argv[1:]))
