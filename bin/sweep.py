#!/usr/bin/env python3
"""sweep.py (development only): mutates a scratch copy of /repo one operator at a time and runs the
checks' record and validate stages from a scratch copy of /verif. Reports the survivors.
usage: sweep.py WORKDIR OUT.jsonl [file-regex] [max-per-file] [seed]"""
import json, os, random, re, shutil, subprocess, sys, time

W, OUT = sys.argv[1], sys.argv[2]
FR = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 15
random.seed(int(sys.argv[5]) if len(sys.argv) > 5 else 1)

MAP = [
    (r"io/bit_", "C13 C17 C15"),
    (r"compression_common/elf", "C14 C01 C17"),
    (r"compression_common/buff", "C02 C17 C06 C07"),
    (r"compressor/(sprintz|buff)", "C02 C17 C15 C03"),
    (r"compressor/", "C17 C01 C15 C03"),
    (r"src/compressor.rs", "C16 C15 C01 C03 C02"),
    (r"chunk_reader/buff", "C06 C07 C02 C08 C10 C11 C17"),
    (r"chunk_reader/sprintz", "C02 C06 C07 C08 C10 C11 C17"),
    (r"chunk_reader/", "C01 C17 C08 C06 C07 C03"),
    (r"decoder/chunk_reader.rs", "C01 C06 C07 C08 C10 C11 C03"),
    (r"decoder/query", "C06 C07 C08 C10 C11 C09"),
    (r"decoder/expr", "C09"),
    (r"decoder.rs", "C03 C16 C01 C08 C06 C10 C11 C09 C05 C02 C18 C19"),
    (r"src/encoder.rs", "C03 C04 C05 C16 C19"),
    (r"api/encoder", "C04 C03 C01 C05"),
    (r"api/decoder", "C08 C06 C07 C10 C11 C09 C02 C03 C18 C19"),
    (r"format", "C16 C03 C17"),
    (r"time.rs", "C19 C16 C03"),
    (r"cuda", "C12"),
]
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" << ", " >> "), (r" >> ", " << "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " & "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" % ", " / "),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"if let Some", None), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])8(?![\w.])", "7"), (r"(?<![\w.])64(?![\w.])", "63"),
    (r"\.\.=", ".."), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"^(\s*)self\.[\w.]+ = .*;$", r"\1;"),
    (r"^(\s*)[\w.]+\.(reset|clear|push|extend_from_slice|insert|flush|write|write_all|rewind|seek)\(.*\)\??;$", r"\1;"),
    (r"\.ceil\(\)", ".floor()"), (r"\.floor\(\)", ".ceil()"), (r"\.round\(\)", ".trunc()"), (r"as u32 as", "as u8 as"),
]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def prepare():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + "/verif")
    sh(f"cd /verif && git archive HEAD | tar x -C {W}/verif && rm -rf {W}/verif/seeded; cp -a /repo {W}/repo; "
       f"sed -i 's#/repo/#{W}/repo/#' {W}/verif/harness/Cargo.toml {W}/verif/harness-gpu/Cargo.toml; mkdir {W}/verif/target")
    open(W + "/verif/bin/fast.py", "w").write(
        "import sys\nsys.path.insert(0, sys.path[0])\nimport run\nfor p in run.PROPS.values():\n p['models']=[]\n"
        " for r in p['record']:\n  r['timeout']=120\nsys.argv[0]='run.py'\nsys.exit(run.main())\n")


def sites(path):
    res, skip = [], False
    for i, l in enumerate(open(path)):
        if "#[cfg(test)]" in l and not l.startswith(" "):
            break
        s = l.strip()
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or "timer" in l or "assert" in l or "derive" in l or "fn " in l or s.startswith("impl"):
            continue
        for pat, rep in OPS:
            if rep is None:
                continue
            for m in re.finditer(pat, l.rstrip("\n")):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if "->" in l[m.start():m.end() + 2] or new == l:
                    continue
                res.append((i, new))
    return res


def main():
    prepare()
    src = [f for f in sh("git -C /repo ls-files").stdout.split() if f.endswith(".rs") and (f.startswith("ebi/src") or f.startswith("cuda-binding/src/lib"))]
    todo = []
    for f in src:
        if re.search(r"main.rs|ffi_alp|lib.rs$|wasm", f) and "cuda" not in f or not FR.search(f):
            continue
        props = next((p.split() for k, p in MAP if re.search(k, f)), None)
        if not props:
            continue
        s = sites(os.path.join("/repo", f))
        random.shuffle(s)
        n = min(MAX, max(3, len(s) // 3))
        todo += [(f, i, new, props) for i, new in s[:n]]
    random.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(OUT))} if os.path.exists(OUT) else set()
    out = open(OUT, "a")
    for k, (f, i, new, props) in enumerate(todo):
        if (f, i + 1, new.strip()) in done:
            continue
        path = os.path.join(W, "repo", f)
        orig = open(path).read()
        lines = orig.splitlines(keepends=True)
        old = lines[i]
        lines[i] = new
        open(path, "w").write("".join(lines))
        t = time.time()
        verdict, by = "survived", None
        try:
            for n, p in enumerate(props):
                crate = "harness-gpu" if p == "C12" else "harness"
                r = sh(f"cd {W}/verif/{crate} && CARGO_TARGET_DIR={W}/verif/target cargo build --offline --quiet", timeout=600)
                if r.returncode:
                    verdict = "nobuild"
                    break
                r = sh(f"cd {W}/verif && VERIF_SEED=1 python3 bin/fast.py {p} quick", timeout=900)
                if "VIOLATION" in r.stdout:
                    verdict, by = "caught", p
                    break
                if r.returncode:
                    verdict, by = "tool", p + r.stdout[-400:]
                    break
        except subprocess.TimeoutExpired:
            verdict = "timeout"
        open(path, "w").write(orig)
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), verdict=verdict, by=by, s=round(time.time() - t))
        out.write(json.dumps(rec) + "\n")
        out.flush()
    print("done", flush=True)


main()
