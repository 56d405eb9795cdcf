#!/usr/bin/env python3
"""Runner: decides one property.

  run.py <property> [quick|thorough]     decide a property (see bin/props.py)
  run.py --replay <file>                 re-validate a saved replay trace
  run.py --selftest [property]           corrupt recorded traces, demand rejection

exit 0: held on everything explored; 1: VIOLATION line printed; 2: tool error.
"""
import json, os, re, resource, shutil, subprocess, sys, time, glob, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from props import PROPS  # noqa: E402

TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
SPEC = os.path.join(HERE, "spec")
NCPU = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


def limits():
    gb = 14
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def build(crate):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(HERE, crate),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness %s does not build:\n%s" % (crate, p.stdout[-6000:]))
    log("build %s: %.1fs" % (crate, time.time() - t))


def run_tlc(module, cfg, rundir, env=None, workers=1, heap="2g", timeout=600, extra=()):
    """Runs TLC on spec/<module>.tla with spec/<cfg>. Returns (rc, output, secs)."""
    os.makedirs(rundir, exist_ok=True)
    meta = os.path.join(rundir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + rundir, "-cp", TLA_CP, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=rundir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        shutil.rmtree(meta, ignore_errors=True)
        return -1, out, time.time() - t
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(rundir, "tlc.log"), "w") as f:
        f.write(p.stdout)
    return p.returncode, p.stdout, time.time() - t


STATS = re.compile(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found")


def stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def check_model(pid, m, cov, thorough):
    """Exhaustive check of a design specification. A violated invariant there is an error of
    the specification, not of ebi: a tool error."""
    module, cfg = m["module"], m["cfg"]
    rundir = os.path.join(OUT, pid, "model_" + cfg.replace(".cfg", ""))
    rc, out, secs = run_tlc(module, cfg, rundir, workers=m.get("workers", NCPU),
                            heap=m.get("heap", "6g"), timeout=m.get("timeout", 3000 if thorough else 400),
                            env=m.get("env"), extra=m.get("extra", ()))
    gen, dist = stats(out)
    sim = "-simulate" in m.get("extra", ())
    if rc != 0 or (not sim and "No error has been found" not in out):
        raise ToolError("model %s/%s: TLC rc=%s\n%s" % (module, cfg, rc, out[-4000:]))
    if not sim and dist < m.get("min_states", 2):
        raise ToolError("model %s/%s explored only %d states" % (module, cfg, dist))
    log("model %s/%s: %d states, %d transitions, %.1fs" % (module, cfg, dist, gen, secs))
    cov["states"] += dist
    cov["transitions"] += gen
    cov["models"].append({"module": module, "config": cfg, "distinct_states": dist,
                          "states_generated": gen, "wall_s": round(secs, 1)})


def generate(pid, g, seed, cov, outdir):
    """TLC generates scenarios from the specification: lines 'SCN <json>' on stdout."""
    rundir = os.path.join(OUT, pid, "gen_" + g["cfg"].replace(".cfg", ""))
    extra = []
    if g.get("simulate"):
        extra = ["-simulate", "num=%d" % g["simulate"], "-depth", str(g.get("depth", 50)), "-seed", str(seed)]
    rc, out, secs = run_tlc(g["module"], g["cfg"], rundir, workers=g.get("workers", 1), heap="4g",
                            timeout=g.get("timeout", 400), extra=extra, env=g.get("env"))
    n = 0
    path = os.path.join(outdir, g["name"] + ".ndjson")
    seen = set()
    with open(path, "w") as f:
        for line in out.splitlines():
            i = line.find("SCN ")
            if i < 0:
                continue
            s = line[i + 4:].rstrip()
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            if s in seen:
                continue
            seen.add(s)
            f.write(s + "\n")
            n += 1
    if rc not in (0,) or n < g.get("min", 1):
        raise ToolError("generator %s: rc=%s scenarios=%d\n%s" % (g["cfg"], rc, n, out[-3000:]))
    gen, dist = stats(out)
    cov["states"] += dist
    cov["transitions"] += gen
    cov["generated"].append({"module": g["module"], "config": g["cfg"], "scenarios": n, "wall_s": round(secs, 1)})
    log("generate %s: %d scenarios, %.1fs" % (g["cfg"], n, secs))
    return path


def record(pid, r, outdir, seed, tier, scn):
    """Runs the real code through the harness, producing trace shards."""
    for f in glob.glob(os.path.join(outdir, "shard_*.ndjson")):
        os.unlink(f)
    exe = os.path.join(TARGET, "debug", r.get("bin", "ebiv"))
    shards = r.get("shards", NCPU if tier == "quick" else 4 * NCPU)
    cmd = [exe, r["kind"], outdir, str(shards), str(seed), tier] + ([scn] if scn else [])
    env = dict(os.environ, RUST_BACKTRACE="0")
    env.update({k: v.replace("@TARGET@", TARGET).replace("@OUT@", outdir) for k, v in r.get("env", {}).items()})
    t = time.time()
    tmo = r.get("timeout", 400 if tier == "quick" else 3600)
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=tmo, preexec_fn=limits, cwd=outdir)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout after %ds" % tmo, ""
    secs = time.time() - t
    if rc == 3:
        raise ToolError("harness: " + out[-3000:])
    if rc != 0:
        path = os.path.join(OUT, pid, "crash_replay.txt")
        with open(path, "w") as f:
            f.write("# the code under test killed or hung the recorder: %s (rc=%s)\n" % (cmd, rc))
            f.write(out[-4000:] + "\n")
            for s in sorted(glob.glob(os.path.join(outdir, "shard_*.ndjson"))):
                lines = open(s, errors="replace").read().splitlines()
                f.write("# %s ends with\n" % os.path.basename(s) + "\n".join(x[:4000] for x in lines[-2:]) + "\n")
        raise Violation("recorder died or hung running the code under test (rc=%s)" % rc, path)
    files = sorted(glob.glob(os.path.join(outdir, "shard_*.ndjson")))
    log("record %s: %d shards, %.1fs" % (r["kind"], len(files), secs))
    return files


REJ = re.compile(r'REJECTED\D+(\d+)')


def validate_one(pid, trace_mod, cfg, path, timeout, heap):
    rundir = path + ".tlc"
    n = sum(1 for _ in open(path))
    if n == 0:
        return dict(path=path, n=0, ok=True, gen=0, dist=0)
    rc, out, secs = run_tlc(trace_mod, cfg, rundir, env={"TRACE": path}, workers=1, heap=heap, timeout=timeout)
    gen, dist = stats(out)
    res = dict(path=path, n=n, gen=gen, dist=dist, secs=secs, rc=rc)
    m = REJ.search(out)
    if rc == 0 and "No error has been found" in out and not m and dist >= n:
        res["ok"] = True
    elif m:
        res.update(ok=False, line=int(m.group(1)), why="no specified step explains this event")
    elif rc == -1:
        res.update(ok=None, why="TLC timeout")
    elif "OutOfMemory" in out or "StackOverflow" in out or "Parsing or semantic analysis failed" in out:
        res.update(ok=None, why=out[-3000:])
    elif rc in (10, 11, 12, 13) or "is violated" in out:
        # an invariant of the specification is violated by the observed execution
        d = re.findall(r"^State (\d+):", out, re.M)
        res.update(ok=False, line=(int(d[-1]) - 1 if d else 1), why="invariant violated: " +
                   "; ".join(re.findall(r"Invariant \w+ is violated", out)))
    elif re.search(r"Attempted to|Error: Evaluating|unexpected exception|TLC was unable|overflow", out, re.I):
        # the specification is undefined on what the code did
        d = re.findall(r"^State (\d+):", out, re.M)
        why = [x for x in out.splitlines() if "Attempted" in x or x.startswith("Error:")]
        res.update(ok=False, line=(int(d[-1]) if d else 1), why="the specification is undefined on this event: " + " ".join(why)[:600])
    else:
        res.update(ok=None, why=out[-3500:])
    shutil.rmtree(rundir, ignore_errors=True)
    return res


def save_replay(pid, trace_mod, cfg, res):
    lines = open(res["path"]).read().splitlines()
    i = max(0, min(len(lines) - 1, res["line"] - 1))
    b = i
    while b > 0 and not json.loads(lines[b]).get("begin"):
        b -= 1
    path = os.path.join(OUT, pid, "replay_%s_%d.ndjson" % (os.path.basename(res["path"]).replace(".ndjson", ""), i + 1))
    with open(path, "w") as f:
        for x in lines[b:i + 1]:
            f.write(x + "\n")
    with open(path + ".info", "w") as f:
        json.dump({"property": pid, "module": trace_mod, "cfg": cfg, "why": res["why"],
                   "rejected_event": json.loads(lines[i])}, f, indent=1)
    return path


def validate(pid, r, files, cov, tier):
    if not files:
        raise ToolError("the harness recorded no trace")
    tmo = r.get("tlc_timeout", 700 if tier == "quick" else 3000)
    bad = []
    evs = 0
    t = time.time()
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        for res in ex.map(lambda p: validate_one(pid, r["trace"], r["trace"] + ".cfg", p, tmo, r.get("heap", "2500m")), files):
            if res["ok"] is None:
                raise ToolError("trace validation of %s: %s" % (res["path"], res["why"]))
            cov["states"] += res["dist"]
            cov["transitions"] += res["gen"]
            evs += res["n"]
            if not res["ok"]:
                bad.append(res)
    eps = 0
    kinds = {}
    for f in files:
        for line in open(f):
            if '"begin":1' in line[:40] or '"begin":1' in line:
                eps += 1
            m = re.search(r'"ev":"([^"]+)"', line)
            if m:
                kinds[m.group(1)] = kinds.get(m.group(1), 0) + 1
    cov["traces_validated_against_impl"] += eps
    cov["events_validated"] += evs
    if files:
        with open(files[0]) as f:
            cov["samples"] += [x.strip()[:400] for _, x in zip(range(3), f)]
    for k, v in kinds.items():
        cov["events"][r["trace"] + "." + k] = cov["events"].get(r["trace"] + "." + k, 0) + v
    log("validate %s: %d events in %d episodes, %.1fs" % (r["trace"], evs, eps, time.time() - t))
    if bad:
        bad.sort(key=lambda x: x["line"])
        path = save_replay(pid, r["trace"], r["trace"] + ".cfg", bad[0])
        raise Violation(bad[0]["why"], path)
    if evs < r.get("min_events", 10):
        raise ToolError("only %d events recorded for %s" % (evs, r["kind"]))


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p):
        line = line.strip()
        if line.startswith("finding: property=%s " % pid):
            out.append(line[len("finding: "):])
    return out


def write_evidence(pid, tier, seed, P, cov, t0, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": violations}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def new_cov():
    return {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "samples": [],
            "models": [], "generated": [], "events": {}}


def pipeline(pid, tier, seed, cov, upto="validate"):
    P = PROPS[pid]
    os.makedirs(os.path.join(OUT, pid), exist_ok=True)
    for r in P["record"]:
        if r.get("prebuild"):
            r["prebuild"](HERE, TARGET)
    for c in sorted({r.get("crate", "harness") for r in P["record"]}):
        build(c)
    all_files = []
    for r in P["record"]:
        outdir = os.path.join(OUT, pid, r["kind"])
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        scn = None
        if r.get("gen"):
            g = dict(r["gen"])
            g.update(g.get(tier, {}))
            scn = generate(pid, g, seed, cov, outdir)
        files = record(pid, r, outdir, seed, tier, scn)
        all_files.append((r, files))
        if upto == "validate":
            validate(pid, r, files, cov, tier)
            for f in files:
                os.unlink(f)
    if upto == "validate":
        for m in P.get("models", []) + (P.get("models_thorough", []) if tier == "thorough" else []):
            check_model(pid, m, cov, tier == "thorough")
    return all_files


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        info = json.load(open(args[1] + ".info"))
        res = validate_one(info["property"], info["module"], info["cfg"], os.path.abspath(args[1]), 600, "2g")
        print(res)
        return 0 if res["ok"] else 1
    if args and args[0] == "--selftest":
        import selftest
        return selftest.main(args[1:])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    cov = new_cov()
    for k in known_findings(pid):
        log("KNOWN-FINDING: " + k)
    try:
        pipeline(pid, tier, seed, cov)
    except Violation as v:
        write_evidence(pid, tier, seed, P, cov, t0, 1)
        log("%s: %s" % (pid, v.what))
        log("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    except ToolError as e:
        log("TOOL-ERROR %s: %s" % (pid, e))
        return 2
    write_evidence(pid, tier, seed, P, cov, t0, 0)
    log("%s held: %d traces, %d events, %d states (%.1fs)" % (
        pid, cov["traces_validated_against_impl"], cov["events_validated"], cov["states"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
