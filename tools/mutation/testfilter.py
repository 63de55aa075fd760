#!/usr/bin/env python3
"""Finds mutants that the repository's own tests do not notice. usage: testfilter.py OUT.jsonl N SEED [FILE-SUBSTRING]
Those are the ones worth running the checks against (mutate.py one FILE LINE NEW) or looking at by hand."""
import json, os, random, subprocess, sys, time
sys.argv, argv = sys.argv[:1] + ["list"], sys.argv
import importlib.util
sp = importlib.util.spec_from_file_location("mutate", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutate.py"))
m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
out, n, seed = argv[1], int(argv[2]), int(argv[3])
sub = argv[4] if len(argv) > 4 else ""
m.setup()
ms = [x for x in m.mutants() if sub in x[0]]
random.Random(seed).shuffle(ms)
done = set()
if os.path.exists(out):
    done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(out))}
env = dict(m.ENV, CARGO_TARGET_DIR=m.W + "/ttarget", RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="1")
T = ["cargo", "test", "--workspace", "--all-features", "--lib", "--tests", "--locked", "--offline"]
SKIP = set(os.environ.get("FLAKY", "").split())
k = 0
for rel, i, new, old in ms:
    if k >= n:
        break
    if (rel, i + 1, new.strip()) in done:
        continue
    p = f"{m.REPO}/{rel}"
    text = open(p).read()
    lines = text.split("\n")
    lines[i] = new
    open(p, "w").write("\n".join(lines))
    t0 = time.time()
    b = m.sh(T + ["--no-run"], 300, cwd=m.REPO, env=env)
    res = "nocompile"
    if b is not None and b.returncode == 0:
        k += 1
        r = m.sh(T + ["--", "--test-threads", "4"], 150, cwd=m.REPO, env=env)
        res = "timeout" if r is None else "survived" if r.returncode == 0 else "killed"
    open(p, "w").write(text)
    with open(out, "a") as f:
        f.write(json.dumps(dict(file=rel, line=i + 1, old=old.strip(), new=new.strip(), result=res, secs=int(time.time() - t0))) + "\n")
