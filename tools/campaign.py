#!/usr/bin/env python3
"""campaign.py OUT.jsonl N SEED [FILE...]: mutation campaign (development aid).

Random one-place mutants of /repo/src; those that pass the stable tests are run through the drivers. A mutant whose
traces all equal the clean ones is "same"; otherwise the checks whose traces differ are run until one reports a violation.
Works on scratch copies (bind-mounted over /repo in private mount namespaces).
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import check
from registry import CHECKS
W = "/tmp/camp"
FILES = ["Boundary.cpp", "FastMarchingMethod.cpp", "Heap.cpp", "Hole.cpp", "InputOutput.cpp", "LevelSet.cpp", "Mesh.cpp", "Sensitivity.cpp", "Optimise.cpp", "MersenneTwister.h"]
OPS = [(r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r"(?<=[\w\)\]])<(?=[\w\(])", ["<="]),
       (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" & ", [" | "]), (r" \| ", [" & "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r"(?<=\w)\+(?=\w)", ["-"]), (r"(?<=\w)-(?=\w)", ["+"]), (r" \* ", [" / "]), (r"\*(?=[\w\(])", ["/", "+"]), (r" / ", [" * "]),
       (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r" \*= ", [" = "]), (r" /= ", [" *= ", " = "]),
       (r"\b0\.5\b", ["1.0", "0.25"]), (r"\b1\.0\b", ["2.0", "0.0"]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b3\b", ["2"]), (r"\b4\b", ["3"]),
       (r"\b1e-6\b", ["1e-4", "0", "1e-9"]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\bwidth\b", ["height"]), (r"\bheight\b", ["width"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"std::abs\(", ["("]), (r"!(?=[\w\(])", [""]), (r"\bpositive", ["negative"]), (r"\bnegative", ["positive"]),
       (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"\bINSIDE\b", ["OUTSIDE"]), (r"\bOUTSIDE\b", ["INSIDE"]), (r"\bstart\b", ["end"]), (r"\bend\b(?!\()", ["start"]),
       (r"\bisActive\b", ["isMasked"]), (r"\bisMasked\b", ["isActive", "isDomain"]), (r"\bisDomain\b", ["isMasked"]), (r"\bx\+1\b", ["x"]), (r"\by\+1\b", ["y"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"])]
def mutants(rng, files):
    res = []
    for f in files:
        s = open("/repo/src/" + f).read()
        comment = []
        out, i = [], 0
        code = re.sub(r"/\*.*?\*/|//[^\n]*|^#[^\n]*(\\\n[^\n]*)*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), s, flags=re.S | re.M)
        start = code.index("namespace slsm")
        skip = [m.span() for m in re.finditer(r'"[^"\n]*"|slsm_log_err[^\n]*|#ifdef PYBIND.*?#endif', s, re.S)]
        def ok(a): return a > start and not any(x <= a < y for x, y in skip)
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if ok(m.start()):
                    for r in reps: res.append((f, m.start(), m.end(), r))
        # deleted statements
        for m in re.finditer(r"^ {8,}([\w\.\[\]\(\)\->, \+\*]+ (=|\+=|-=|\*=|/=) [^;\n]*;|[\w\.\[\]]+(\+\+|--);|[\w\.]+\([^;\n]*\);|continue;|break;|return;)$", code, re.M):
            if ok(m.start(1)) and not re.match(r"(unsigned|double|int|bool|const|std|auto|return [\w])", m.group(1)): res.append((f, m.start(1), m.end(1), ";"))
    rng.shuffle(res)
    return res
def rare(rng, ms):
    """The same mutants, in force only under a condition a bug may need."""
    cnt = "[]{ static unsigned c = 0; return ++c %% %d == 0; }()"
    res = []
    for f, a, b, r in ms:
        s = open("/repo/src/" + f).read()
        lo, hi = s.rfind("\n", 0, a) + 1, s.find("\n", b)
        line, mut = s[lo:hi], s[lo:a] + r + s[b:hi]
        fn = re.findall(r"^    [^\n{]*?\w+::\w+\([^{]*?\{", s[:a], re.S | re.M)
        sig = fn[-1] if fn else ""
        mesh = "levelSet.mesh." if "levelSet" in sig else "" if f == "Mesh.cpp" else "mesh."
        trig = [cnt % 61]
        if f in ("Boundary.cpp", "LevelSet.cpp", "FastMarchingMethod.cpp", "Mesh.cpp", "InputOutput.cpp"):
            trig += [t.replace("M.", mesh) for t in ("M.width > 8", "M.width > 2*M.height", "M.height > M.width + 1", "M.nNodes > 120", "M.width == 3", "M.height % 3 == 0")]
        if f == "LevelSet.cpp": trig += ["bandWidth > 5", "bandWidth == 3", "isFixedDomain", "moveLimit < 0.3", "nMines > 8", "nNarrowBand == mesh.nNodes", "[&]{ for (unsigned q=0;q<mesh.nNodes;q++) if (mesh.nodes[q].isMasked) return true; return false; }()"]
        if f == "Boundary.cpp" and mesh == "levelSet.mesh.": trig += ["levelSet.moveLimit < 0.3", "nPoints > 20", "levelSet.nMines == 0"]
        if f == "FastMarchingMethod.cpp": trig += ["isVelocity", "[&]{ for (unsigned q=0;q<mesh.nNodes;q++) if (mesh.nodes[q].isMasked) return true; return false; }()"]
        if f == "Heap.cpp": trig += ["heapLength > 9", "listLength > 20", "maxLength < 4"]
        if f == "Optimise.cpp": trig += ["nPoints > 6", "nConstraints > 1", "isMax", "nConstraints < nConstraintsInitial", "maxDisplacement < 0.3"]
        # Conditions on what the place itself works with.
        body = s[s.rfind(sig, 0, a) + len(sig) if sig else 0:a] + line
        def has(w): return re.search(r"\b%s\b" % w, body + sig)
        near = [cnt % 7, cnt % 503]
        for w, c in (("node", mesh + "nodes[node].coord.x > " + mesh + "nodes[node].coord.y"), ("node", mesh + "nodes[node].isDomain"), ("node", mesh + "nodes[node].isMasked"),
                     ("node", mesh + "nodes[node].coord.x == 5"), ("node", mesh + "nodes[node].coord.y > 9"), ("coord", "coord.x > 7.3"), ("coord", "coord.x == coord.y"), ("coord", "coord.y < 0.2"), ("point", "point.x > point.y + 4"),
                     ("lsf", "std::abs(lsf) < 0.05"), ("lsf1", "std::abs(lsf1) < 0.05"), ("lsf1", "std::abs(lsf1 - lsf2) > 1.5"), ("i", "i > 40"), ("i", "i == 0"), ("i", "i % 16 == 15"), ("j", "j == 3"), ("x", "x > 10"), ("y", "y == 1"),
                     ("d", "d < 0.02"), ("timeStep", "timeStep < 0.05"), ("temperature", "temperature > 0.2"), ("neighbour", "neighbour == 0"), ("isTarget", "isTarget"), ("velocity", "velocity.size() > 200"), ("vertices", "vertices.size() > 5"), ("holes", "holes.size() > 3")):
            if has(w): near.append(c)
        t = rng.choice(trig if rng.random() < 0.35 else near)
        def st(l): return re.match(r"^(\s+)([\w\.\[\]\(\)\->, \+\*]+ (?:=|\+=|-=|\*=|/=) [^;{}]*;|[\w\.\[\]\(\)]+(?:\+\+|--);|;)$", l)
        def co(l): return re.match(r"^(\s*(?:else )?if )\((.*)\)( [^;{}()]*;|)$", l)
        x, y = st(line), st(mut)
        decl = r"\s*(unsigned|double|int|bool|const|std|auto|return|Coord|Boundary\w*) "
        if x and y and not re.match(decl, line): res.append((f, lo, hi, "%sif (%s) { %s } else { %s }" % (x.group(1), t, y.group(2), x.group(2)))); continue
        x, y = co(line), co(mut)
        if x and y and line.count("(") == line.count(")") and x.group(3) == y.group(3):
            res.append((f, lo, hi, "%s((%s) ? (%s) : (%s))%s" % (x.group(1), t, y.group(2), x.group(2), x.group(3)))); continue
        x = re.match(r"^(\s+(?:double|unsigned int|int) \w+ = )([^;]*);$", line); y = re.match(r"^(\s+(?:double|unsigned int|int) \w+ = )([^;]*);$", mut)
        if x and y and x.group(1) == y.group(1): res.append((f, lo, hi, "%s(%s) ? (%s) : (%s);" % (x.group(1), t, y.group(2), x.group(2))))
    return res
OWN = {"update": "C08 C24", "mask": "C14 C07", "reinitialise": "C04 C05 C07", "computeVelocities": "C06 C18", "initialiseVelocities": "C06", "computeGradients": "C21 C22", "computeGradient": "C21",
       "gradHJWENO": "C21", "computeAreaFractions": "C11", "cutArea": "C11", "isClockwise": "C11", "polygonArea": "C11", "initialise": "C15", "closestDomainBoundary": "C15", "initialiseNarrowBand": "C07",
       "LevelSet": "C23 C15", "pointToLineDistance": "C15", "isInsidePolygon": "C15 C14", "isLeftOfLine": "C15 C14", "discretise": "C09 C10 C13", "computeNormalVectors": "C12", "computePerimeter": "C10",
       "computeMeshStatus": "C09", "isAdded": "C09", "initialisePoint": "C13 C09", "segmentLength": "C10", "computePointLengths": "C10", "finaliseVelocity": "C06", "computeSensitivity": "C19", "itoCorrection": "C19"}
OWNF = {"FastMarchingMethod.cpp": "C05 C04 C06", "Heap.cpp": "C03", "Hole.cpp": "C15", "InputOutput.cpp": "C16 C23", "Mesh.cpp": "C01 C02", "Sensitivity.cpp": "C19", "Optimise.cpp": "C20 C23", "MersenneTwister.h": "C17"}
def owners(m):
    s = open("/repo/src/" + m[0]).read()[:m[1]]
    fn = re.findall(r"^    (?:[\w:&<>\*]+ )*(?:static )?\w+::(\w+)\(", s, re.M)
    return (OWN.get(fn[-1] if fn else "", OWNF.get(m[0], ""))).split(), fn[-1] if fn else ""
lock = threading.Lock()
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **k)
EXES = {}     # driver tuple -> ids
for k, c in CHECKS.items(): EXES.setdefault((tuple(c["driver"]), bool(c.get("stub"))), []).append(k)
def prepare():
    """Clean objects for both kinds of library and all drivers."""
    os.makedirs(W + "/o", exist_ok=True)
    jobs = []
    for d in set(d for ds, _ in EXES for d in ds) | {"main.cpp"}:
        jobs.append(["g++", *check.FLAGS, "-I/repo/src", "-I" + check.HARN, "-I" + check.HARN + "/stub", "-c", check.HARN + "/" + d, "-o", W + "/o/" + d[:-4] + ".o"])
    for l in check.LIBSRC + ["Optimise"]:
        jobs.append(["g++", *check.FLAGS, "-I/repo/src", "-I" + check.HARN + "/stub", "-c", "/repo/src/" + l + ".cpp", "-o", W + "/o/" + l + ".o"])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(sh, jobs): assert r.returncode == 0, r.stderr
def link(objs, out, hdr=None):
    exes = {}
    for (ds, stub), ids in EXES.items():
        exe = out + "/drv_" + ds[0][:-4]
        lib = check.LIBSRC + (["Optimise"] if stub else [])
        r = sh(["g++", *check.FLAGS, *[objs.get(l, W + "/o/" + l + ".o") for l in lib + ["main"] + [d[:-4] for d in ds]], "-o", exe])
        if r.returncode: return None
        for i in ids: exes[i] = exe
    return exes
def drive(exe, pid, out, limit):
    t = out + "/" + pid + ".nd"; s = out + "/s" + pid; os.makedirs(s, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0", UBSAN_OPTIONS="exitcode=77")
    try: rc = sh([exe, pid, "1", "quick", t, s], env=env, timeout=limit, cwd=s).returncode
    except subprocess.TimeoutExpired: rc = "timeout"
    h = hashlib.sha1(open(t, "rb").read()).hexdigest() if os.path.exists(t) else ""
    shutil.rmtree(s, ignore_errors=True)
    if os.path.exists(t): os.remove(t)
    return "%s:%s" % (rc, h)
def patch(m, dst):
    f, a, b, r = m
    s = open("/repo/src/" + f).read()
    open(dst + "/src/" + f, "w").write(s[:a] + r + s[b:])
    line = s.count("\n", 0, a) + 1
    return "%s:%d: %s -> %r" % (f, line, s.split("\n")[line - 1].strip()[:110], r), s.split("\n")[line - 1]
def one(args):
    k, m, base = args
    d = W + "/m%d" % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        text, _ = patch(m, d + "/repo")
        hdr = m[0].endswith(".h")
        objs = {}
        if hdr:
            js = [["g++", *check.FLAGS, "-I" + d + "/repo/src", "-I" + check.HARN, "-I" + check.HARN + "/stub", "-c", check.HARN + "/" + x + ".cpp", "-o", d + "/" + x + ".o"] for x in ("c17", "c18", "c22", "main")]
            js += [["g++", *check.FLAGS, "-I" + d + "/repo/src", "-c", d + "/repo/src/LevelSet.cpp", "-o", d + "/LevelSet.o"]]
        else:
            l = m[0][:-4]
            js = [["g++", *check.FLAGS, "-I" + d + "/repo/src", "-I" + check.HARN + "/stub", "-c", d + "/repo/src/" + m[0], "-o", d + "/" + l + ".o"]]
        for j in js:
            if sh(j).returncode: return dict(m=text, r="nocompile")
            objs[os.path.basename(j[-1])[:-2]] = j[-1]
        if m[0] != "Optimise.cpp":
            t = sh(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && timeout 100 bash /opt/vp/test.sh %s/t.json" % (d, d)])
            try: j = json.load(open(d + "/t.json"))
            except Exception: return dict(m=text, r="testfail")
            if len(j["passed"]) < 17: return dict(m=text, r="testfail")
        exes = link(objs, d)
        if not exes: return dict(m=text, r="nolink")
        ids = ["C20", "C23"] if m[0] == "Optimise.cpp" else sorted(exes)
        if hdr: ids = ["C17", "C18", "C22"]
        own, fn = owners(m)
        text = fn + " " + text
        res, same = [], True
        for i in [i for i in own if i in ids] + [i for i in ids if i not in own and (i != "C17" or hdr)]:
            if i != "C17" and drive(exes[i], i, d, 60) == base[i]: continue
            same = False
            if len(res) >= 6: break
            c = sh([sys.executable, V + "/bin/check.py", i], env=dict(os.environ, VERIF_REPO=d + "/repo"))
            res.append("%s=%d" % (i, c.returncode))
            if c.returncode == 1: return dict(m=text, r="caught" if i in own else "caught-other", by=res, why=[x for x in c.stdout.split("\n") if x][-2][:200] if c.stdout.count("\n") > 1 else "")
        return dict(m=text, r="same" if same else "missed", by=res)
    except Exception as e:
        return dict(m=str(m), r="error", why=repr(e)[:300])
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    ms = mutants(rng, sys.argv[4:] or FILES)
    if os.environ.get("RARE"): ms = rare(rng, ms)
    ms = ms[:n]
    prepare()
    exes = link({}, W + "/o")
    ids = sorted(exes)
    with ThreadPoolExecutor(4) as ex: base = dict(zip(ids, ex.map(lambda i: drive(exes[i], i, W + "/o", 100), ids)))
    with ThreadPoolExecutor(4) as ex: base2 = dict(zip(ids, ex.map(lambda i: drive(exes[i], i, W + "/o", 100), ids)))
    print("not repeatable:", [i for i in ids if base[i] != base2[i]], len(ms), "mutants", flush=True)
    with open(out, "a") as o, ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for r in ex.map(one, [(k, m, base) for k, m in enumerate(ms)]):
            o.write(json.dumps(r) + "\n"); o.flush()
if __name__ == "__main__": main()
