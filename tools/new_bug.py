#!/usr/bin/env python3
"""new_bug.py ID PROPERTY NEEDS BREAKS FILE <<< 'old\n====\nnew': makes seeded/ID/patch.diff and meta.json (write demo.sh beside them)."""
import json, os, subprocess, sys
REPO = os.environ.get("BUG_REPO", "/repo")
id_, prop, needs, breaks, path = sys.argv[1:6]
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/" + id_
os.makedirs(d, exist_ok=True)
edits = sys.stdin.read().split("\n@@@@\n")
try:
    files = path.split(",")
    for k, e in enumerate(edits):
        old, new = e.split("\n====\n")
        f = REPO + "/" + files[min(k, len(files) - 1)]
        s = open(f).read()
        new = new.rstrip("\n") if k == len(edits) - 1 else new
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
