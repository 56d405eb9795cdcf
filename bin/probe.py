#!/usr/bin/env python3
"""probe.py (development only): applies hand-written changes one by one to a scratch copy of /repo and runs the named
checks from a scratch copy of /verif's working tree.  usage: probe.py WORKDIR CHANGES.py [id...]
CHANGES.py defines L = [(id, "C01 C02", [(file, old, new), ...]), ...]"""
import json, os, shutil, subprocess, sys, time
W = sys.argv[1]
ns = {}
exec(open(sys.argv[2]).read(), ns)
ids = sys.argv[3:]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


if not os.path.isdir(W):
    os.makedirs(W + "/verif/target")
    sh(f"cp -a /repo {W}/repo")
sh(f"cd /verif && rsync -a --delete --exclude target --exclude out --exclude .git --exclude seeded --exclude evidence ./ {W}/verif/ 2>/dev/null || "
   f"(for d in bin spec harness harness-gpu harness-csv harness-exp; do rm -rf {W}/verif/$d; cp -a $d {W}/verif/; done; cp known-findings.txt check {W}/verif/)")
sh(f"sed -i 's#/repo/#{W}/repo/#' {W}/verif/harness/Cargo.toml {W}/verif/harness-gpu/Cargo.toml {W}/verif/harness-csv/Cargo.toml {W}/verif/harness-exp/ws.sh {W}/verif/harness-exp/Cargo.toml")
open(W + "/verif/bin/fast.py", "w").write(
    "import sys\nimport run\nfor p in run.PROPS.values():\n p['models']=[]\n"
    " for r in p['record']:\n  r['timeout']=200\nsys.argv[0]='run.py'\nsys.exit(run.main())\n")
sh(f"git -C {W}/repo checkout -q -- . && git -C {W}/repo fetch -q /repo HEAD && git -C {W}/repo reset -q --hard FETCH_HEAD")
for id_, props, edits in ns["L"]:
    if ids and id_ not in ids:
        continue
    bad = None
    for f, old, new in edits:
        p = f"{W}/repo/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            bad = f"{f}: {s.count(old)} matches of {old[:50]!r}"
            break
        open(p, "w").write(s.replace(old, new))
    if not bad:
        res = []
        for pr in props.split():
            t = time.time()
            crate = {"C12": "harness-gpu", "C20": "harness-csv", "C21": None, "C22": None}.get(pr, "harness")
            r = sh("true" if not crate else f"cd {W}/verif/{crate} && CARGO_TARGET_DIR={W}/verif/target cargo build --offline --quiet")
            if r.returncode:
                bad = "nobuild " + r.stdout[-1500:]
                break
            r = sh(f"cd {W}/verif && VERIF_SEED=1 python3 bin/fast.py {pr} quick", timeout=1500)
            v = "CAUGHT" if "VIOLATION" in r.stdout else ("tool" + r.stdout[-300:] if r.returncode else "survived")
            res.append(f"{pr}:{v}({time.time()-t:.0f}s)")
    print(id_, bad or " ".join(res), flush=True)
    sh(f"git -C {W}/repo checkout -q -- .")
