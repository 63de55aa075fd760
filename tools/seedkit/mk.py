#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in bugs.py (patch.diff is made in a scratch copy of /repo).
usage: mk.py [ID...]; the scratch copy is /tmp/scratch (cp -a /repo /tmp/scratch)"""
import json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
scratch = os.environ.get("SCRATCH", "/tmp/scratch")
sys.path.insert(0, here)
from bugs import BUGS
want = sys.argv[1:]
for b in BUGS:
    if want and b["id"] not in want:
        continue
    subprocess.check_call(["git", "-C", scratch, "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        p = os.path.join(scratch, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{b['id']}: {f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(root, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.check_output(["git", "-C", scratch, "diff"]).decode()
    subprocess.check_call(["git", "-C", scratch, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    if b["demo"].startswith("#cli"):
        open(d + "/check.py", "w").write(open(here + "/prelude.py").read() + "\n" + b["demo"].split("\n", 1)[1])
        shutil.copy(here + "/demo_cli.sh", d + "/demo.sh")
    else:
        open(d + "/demo.rs", "w").write("mod prelude;\nuse prelude::*;\n" + b["demo"].strip() + "\n")
        for f in ["prelude.rs", "demo.sh"]:
            shutil.copy(os.path.join(here, f), d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
