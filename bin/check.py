#!/usr/bin/env python3
"""check.py ID: decide one property of /repo.

1. TLC checks the design specification(s) of the property exhaustively (small constants).
2. The driver (compiled with sanitizers from /repo's current working tree) executes the real
   code and records an ndjson trace.
3. TLC validates the trace against the trace specification, which reuses the operators and
   actions of the design specification: one step per record, invariants after every step.

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Other: error of the check.
"""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC, HARN = os.path.join(VERIF, "spec"), os.path.join(VERIF, "harness")
BUILD, REPLAY = os.path.join(VERIF, ".build"), os.path.join(VERIF, "replays")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIBSRC = ["Boundary", "FastMarchingMethod", "Heap", "Hole", "InputOutput", "LevelSet", "Mesh", "Sensitivity"]
FLAGS = ["-std=c++11", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=vla-bound,enum,bool",
         "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-DSLSM_TRACE", "-w"]
WORKERS = os.cpu_count() or 4

sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS  # noqa: E402


class Broken(Exception):
    """The check itself failed (exit 2)."""


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------------------- build
def build(cfg, work):
    srcs = [os.path.join(REPO, "src", s + ".cpp") for s in LIBSRC + cfg.get("lib", [])]
    srcs += [os.path.join(HARN, "main.cpp")] + [os.path.join(HARN, d) for d in cfg["driver"]]
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + HARN]
    if cfg.get("stub"):
        inc.append("-I" + os.path.join(HARN, "stub"))
    jobs = []
    for s in srcs:
        o = os.path.join(work, os.path.basename(s)[:-4] + ".o")
        jobs.append((["g++", *FLAGS, *inc, "-c", s, "-o", o], o))

    def run(j):
        return subprocess.run(j[0], capture_output=True, text=True)
    with ThreadPoolExecutor(WORKERS) as ex:
        for j, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode:
                raise Broken("compile failed: %s\n%s" % (" ".join(j[0]), r.stderr[-4000:]))
    exe = os.path.join(work, "drv")
    r = subprocess.run(["g++", *FLAGS, *[j[1] for j in jobs], "-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise Broken("link failed\n" + r.stderr[-4000:])
    return exe


# ----------------------------------------------------------------------------- driver
def plans(cfg, work, seed, tier):
    """Behaviours of a specification (TLC prints them) for the driver to perform on the real code."""
    res, n = [], 0
    for e in cfg["plans"]:
        if e.get("thorough") and tier != "thorough":
            continue
        t = tlc(e["module"], e["cfg"], work, workers=1, limit=600, heap="4g")
        if t["rc"] != 0:
            raise Broken("planning specification %s (%s)\n%s" % (e["module"], e["cfg"], t["out"][-2000:]))
        found = sorted(set(re.findall(r'^"PLAN (.*)"$', t["out"], re.M)))
        if len(found) < e.get("min", 1):
            raise Broken("planning specification %s produced only %d behaviours" % (e["module"], len(found)))
        n += len(found)
        take = e["take"].get(tier)
        if take and take < len(found):
            found = random.Random(seed).sample(found, take)
        res += found
    path = os.path.join(work, "plans.txt")
    with open(path, "w") as f:
        for p in res:
            steps = re.findall(r"<<([^<>]*)>>", p.replace('\\"', ""))
            f.write(" ; ".join(x.replace(",", " ") for x in steps) + "\n")
    return path, n, len(res)


def drive(pid, exe, work, seed, tier, limit):
    trace = os.path.join(work, "trace.ndjson")
    scratch = tempfile.mkdtemp(prefix="scratch", dir=work)
    env = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", SLSM_PLANS=os.path.join(work, "plans.txt"))
    t0 = time.time()
    try:
        r = subprocess.run([exe, pid, str(seed), tier, trace, scratch], capture_output=True, text=True,
                           errors="replace", env=env, timeout=limit, cwd=scratch)
        rc, err, out = r.returncode, r.stderr, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, err, out = "timeout", str(e.stderr)[-2000:], ""
    shutil.rmtree(scratch, ignore_errors=True)
    if rc == 90:
        raise Broken("driver: " + err[-2000:])
    cur = ""
    if rc != 0 and os.path.exists(trace + ".cur"):
        cur = open(trace + ".cur").read().strip()
    cases = 0
    m = re.search(r"CASES (\d+)", out)
    if m:
        cases = int(m.group(1))
    return dict(rc=rc, err=err, cur=cur, trace=trace, cases=cases, wall=time.time() - t0)


# ----------------------------------------------------------------------------- TLC
def tlc(module, config, work, env=None, workers=WORKERS, limit=600, extra=(), heap="6g"):
    """Run TLC in a private metadir; returns dict(rc, out, states, distinct)."""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, config), *extra,
           os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, timeout=limit, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out after %ds on %s" % (limit, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(rc=r.returncode, out=r.stdout + r.stderr, states=gen, distinct=dist, wall=time.time() - t0)


def design(entry, work):
    t = tlc(entry["module"], entry.get("cfg", entry["module"] + ".cfg"), work, workers=entry.get("workers", 4),
            limit=entry.get("limit", 800), heap=entry.get("heap", "4g"), env=entry.get("env"))
    if entry.get("refuted"):
        # A design known to be wrong: TLC has to find the violation (guards against a vacuous invariant).
        if "Invariant %s is violated" % entry["refuted"] not in t["out"] and "property %s" % entry["refuted"] not in t["out"]:
            raise Broken("design specification %s (%s) should violate %s\n%s" % (entry["module"], entry.get("cfg"), entry["refuted"], t["out"][-2000:]))
        return t
    if t["rc"] != 0:
        raise Broken("design specification %s does not hold (exit %d)\n%s" % (entry["module"], t["rc"], t["out"][-3000:]))
    if t["distinct"] < entry.get("min_states", 2):
        raise Broken("design specification %s explored only %d states" % (entry["module"], t["distinct"]))
    return t


def chunks_of(trace, starts_only, n=64):
    """[lo, hi] line ranges; with starts_only a chunk begins at a record with "new": true."""
    lines, starts, samples = 0, [], []
    with open(trace) as f:
        for i, l in enumerate(f, 1):
            lines = i
            if not starts_only or '"new":true' in l:
                starts.append(i)
    if not lines:
        raise Broken("empty trace")
    if starts_only and (not starts or starts[0] != 1):
        raise Broken("trace does not begin with a new record")
    step = max(1, len(starts) // n)
    firsts = starts[::step]
    res = []
    for a, b in zip(firsts, firsts[1:] + [lines + 1]):
        res.append([a, b - 1])
    return res, lines


def validate(cfg, work, trace, heap="8g"):
    ch, lines = chunks_of(trace, cfg.get("history", False))
    cf = os.path.join(work, "chunks.ndjson")
    with open(cf, "w") as f:
        for a, b in ch:
            f.write(json.dumps([a, b]) + "\n")
    t = tlc(cfg["trace"], cfg.get("tracecfg", cfg["trace"] + ".cfg"), work, env={"TRACE": trace, "CHUNKS": cf}, limit=cfg.get("tlc_limit", 700),
            heap=heap)
    t["lines"] = lines
    t["reject"] = None
    if t["rc"] == 0:
        # every record of every chunk must have been consumed (one state each plus one initial state per chunk)
        want = lines + len(ch)
        if t["distinct"] != want and not cfg.get("branching"):
            raise Broken("trace specification consumed %d states, expected %d\n%s" % (t["distinct"], want, t["out"][-1500:]))
        return t
    out = t["out"]
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    m = re.search(r"Invariant (\w+) is violated", out) or re.search(r"Action property (\w+) is violated", out)
    if m and ls:
        t["reject"] = dict(line=int(ls[-1]), clause=m.group(1))
    elif "Deadlock reached" in out and ls:
        t["reject"] = dict(line=int(ls[-1]) + 1, clause="no specification action explains this record")
    elif t["rc"] in (75, 76, 77) and "java.lang.OutOfMemoryError" not in out:
        # The record lies outside the domain of the specification's operators (an index that does not exist,
        # a value beyond the integers of TLC): nothing the specification allows looks like that.
        t["reject"] = dict(line=int(ls[-1]) + 1 if ls else 0, clause="the specification is not defined on this record")
    else:
        raise Broken("TLC failed on the trace (exit %d)\n%s" % (t["rc"], out[-4000:]))
    return t


def nth_line(path, n):
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i == n:
                return l.strip()
    return ""


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


# ----------------------------------------------------------------------------- main
def report(pid, kind, detail, seed, tier, extra):
    os.makedirs(REPLAY, exist_ok=True)
    h = hashlib.sha1((pid + kind + json.dumps(detail, sort_keys=True)).encode()).hexdigest()[:10]
    path = os.path.join(REPLAY, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(dict(property=pid, kind=kind, seed=seed, tier=tier, detail=detail,
                       rerun="VERIF_SEED=%s VERIF_TIER=%s python3 /verif/bin/check.py %s" % (seed, tier, pid), **extra), f, indent=1)
    log(json.dumps(detail)[:3000])
    log("VIOLATION property=%s replay=%s" % (pid, path))


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=BUILD)
    try:
        with ThreadPoolExecutor(8) as ex:
            fb = ex.submit(build, cfg, work)
            ds = [(d, ex.submit(design, d, work)) for d in cfg["design"] if tier == "thorough" or not d.get("thorough")]
            fp = ex.submit(plans, cfg, work, seed, tier) if cfg.get("plans") else None
            exe = fb.result()
            planned = fp.result() if fp else None
            dres = drive(pid, exe, work, seed, tier, cfg.get("limit", {}).get(tier, 200 if tier == "quick" else 3000))
            violation = None
            tv = None
            if dres["rc"] != 0:
                again = drive(pid, exe, work, seed, tier, cfg.get("limit", {}).get(tier, 200 if tier == "quick" else 3000))
                # A sanitizer report (77) is proof by itself; anything else has to happen again.
                if again["rc"] == 0 and dres["rc"] != 77:
                    raise Broken("driver ended abnormally but not repeatably: %s / %s\n%s" % (dres["rc"], again["rc"], dres["err"][-2000:]))
                violation = ("abnormal end", dict(exit=str(dres["rc"]), case=dres["cur"], stderr=dres["err"][:2500]))
            else:
                tv = validate(cfg, work, dres["trace"])
                if tv["reject"]:
                    first = dict(tv["reject"], record=nth_line(dres["trace"], tv["reject"]["line"]))
                    for k in range(3):   # results read from uninitialised memory need not repeat at once
                        again = drive(pid, exe, work, seed, tier, cfg.get("limit", {}).get(tier, 200 if tier == "quick" else 3000))
                        if again["rc"] != 0:
                            first["second_run"] = "abnormal end %s" % again["rc"]
                            break
                        tv2 = validate(cfg, work, again["trace"])
                        if tv2["reject"]:
                            if tv2["reject"]["line"] != first["line"]:
                                first["other_line"] = tv2["reject"]["line"]
                            break
                    else:
                        raise Broken("rejection not repeatable: " + json.dumps(first)[:1000])
                    m = re.search(r"Error: .*", tv["out"], re.S)
                    violation = ("trace rejected", dict(first, tlc=m.group(0)[:1500] if m else ""))
            dsr = [(d, f.result()) for d, f in ds]
        cov = dict(states=sum(t["distinct"] for _, t in dsr) + (tv["distinct"] if tv else 0),
                   transitions=sum(t["states"] for _, t in dsr) + (tv["states"] if tv else 0),
                   traces_validated_against_impl=dres["cases"] if tv else 0,
                   trace_records=tv["lines"] if tv else 0,
                   design=[dict(module=d["module"], cfg=d.get("cfg", d["module"] + ".cfg"), distinct=t["distinct"],
                                generated=t["states"]) for d, t in dsr],
                   trace_spec=cfg["trace"],
                   samples=[nth_line(dres["trace"], k)[:600] for k in (1, 2, max(1, (tv["lines"] if tv else 1) // 2))] if os.path.exists(dres["trace"]) else [],
                   rule=cfg.get("rule", ""))
        if planned:
            cov["planned"] = dict(module=cfg["plans"][0]["module"], behaviours=planned[1], performed=planned[2])
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in known_findings(pid):
            log("KNOWN-FINDING: property=%s %s" % (pid, text))
        if violation:
            report(pid, violation[0], violation[1], seed, tier, {})
            return 1
        log("OK property=%s tier=%s cases=%d records=%d states=%d wall=%.1fs" % (pid, tier, dres["cases"], cov["trace_records"], cov["states"], time.time() - t0))
        return 0
    except Broken as e:
        log("ERROR in check of %s: %s" % (pid, e))
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("kept " + work)


if __name__ == "__main__":
    sys.exit(main())
