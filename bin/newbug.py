#!/usr/bin/env python3
"""newbug.py ID PROPERTY FILE <<< JSON {"old","new","needs","breaks","main"} (development only):
writes seeded/ID from one or more replacements in /repo's files."""
import json, os, subprocess, sys, shutil
id_, prop = sys.argv[1:3]
j = json.load(sys.stdin) if len(sys.argv) < 4 else json.load(open(sys.argv[3]))
d = "/verif/seeded/" + id_
os.makedirs(d, exist_ok=True)
w = "/tmp/newbug_wt"
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w], stderr=subprocess.DEVNULL)
subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", "-q", w, "HEAD"], check=True)
for e in j["edits"]:
    p = os.path.join(w, e["file"]); s = open(p).read()
    assert s.count(e["old"]) == e.get("count", 1), (e["file"], s.count(e["old"]))
    n = e.get("nth")
    open(p, "w").write(s.replace(e["old"], e["new"]))
diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w])
json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if "main" in j:
    open(d + "/main.rs", "w").write(j["main"])
