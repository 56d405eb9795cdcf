"""Self-test of the machinery (development; not a registered check).

  run.py --selftest               every spec/*_neg*.cfg must violate its invariant
  run.py --selftest C07 [...]     records traces of the property, changes one observed value at a time
                                  and reports how many of the changed traces TLC rejects
"""
import copy, glob, json, os, random, re, sys
import run
from props import PROPS

SKIP = {"msg", "hex", "how", "begin", "ev", "file", "cfgv", "codec", "p"}


def negatives():
    bad = 0
    for cfg in sorted(glob.glob(os.path.join(run.SPEC, "*_neg*.cfg"))):
        name = os.path.basename(cfg)
        mod = re.sub(r"_neg\d*\.cfg$", "", name)
        rc, out, secs = run.run_tlc(mod, name, os.path.join(run.OUT, "selftest", name), workers=run.NCPU, heap="6g")
        v = "is violated" in out or "was violated" in out
        print("%-22s %s (%.1fs)" % (name, "violated, as it must be" if v else "NOT VIOLATED rc=%s" % rc, secs), flush=True)
        bad += not v
    return bad


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in SKIP:
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, (int, str)) and not isinstance(x, bool):
        yield path


def mutate(e, rng):
    ps = list(leaves(e))
    if not ps:
        return None
    # the field first, so that long lists do not drown the others
    f = rng.choice(sorted({p[0] for p in ps}))
    p = rng.choice([q for q in ps if q[0] == f])
    e = copy.deepcopy(e)
    o = e
    for k in p[:-1]:
        o = o[k]
    v = o[p[-1]]
    o[p[-1]] = {"ok": "err", "err": "ok", "panic": "ok"}.get(v, v + "x") if isinstance(v, str) else v + rng.choice([-1, 1])
    return e, p


def corrupt(pid, n=40):
    rng = random.Random(7)
    cov = run.new_cov()
    for r, files in run.pipeline(pid, "quick", 1, cov, upto="record"):
        eps = []
        for f in files[:2]:
            cur = []
            for line in open(f):
                e = json.loads(line)
                if e.get("begin") and cur:
                    eps.append(cur)
                    cur = []
                cur.append(e)
        d = os.path.join(run.OUT, "selftest", pid)
        os.makedirs(d, exist_ok=True)
        seen, rej, missed = 0, 0, {}
        jobs = []
        for i in range(n):
            ep = copy.deepcopy(rng.choice(eps))
            k = rng.randrange(len(ep))
            m = mutate(ep[k], rng)
            if not m:
                continue
            ep[k], path = m
            fn = os.path.join(d, "m%03d.ndjson" % i)
            with open(fn, "w") as f:
                f.write("".join(json.dumps(e) + "\n" for e in ep))
            jobs.append((fn, ep[k].get("ev"), path))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max_workers=run.NCPU) as ex:
            for (fn, ev, path), res in zip(jobs, ex.map(lambda j: run.validate_one(pid, r["trace"], r["trace"] + ".cfg", j[0], 300, "1g"), jobs)):
                seen += 1
                if res["ok"]:
                    key = "%s.%s" % (ev, path[0])
                    missed[key] = missed.get(key, 0) + 1
                else:
                    rej += 1
        print("%s %s: %d of %d changed traces rejected; accepted changes of %s" % (pid, r["trace"], rej, seen, missed), flush=True)


def main(args):
    if not args:
        return 1 if negatives() else 0
    for pid in args:
        corrupt(pid)
    return 0
