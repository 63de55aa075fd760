#!/usr/bin/env python3
"""Mechanical mutation analysis of the checks, in a scratch copy.
usage: mutate.py list | run OUT.jsonl [N] [SEED] [FILE-SUBSTRING]
Every mutant is one small textual change of non-test code. For each that compiles, all checks run with a fraction of
their cases until one reports a violation. Survivors are to be looked at by hand (many are equivalent)."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = os.environ.get("SCRATCH", "/tmp/mut")
REPO = W + "/repo"
RULES = [
    (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ', ' == ']), (r' >= ', [' > ', ' == ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']),
    (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\.\.=', ['..']), (r'\.rev\(\)', ['']),
    (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']), (r'\bif !', ['if ']), (r'\bif (?!let|!)', ['if !']),
    (r'\b0\b(?![.x_])', ['1']), (r'\b1\b(?!\.)', ['2', '0']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\.is_empty\(\)', ['.is_empty() == false']), (r'saturating_sub', ['wrapping_sub']), (r'\bbreak;', ['continue;']),
    (r' \| ', [' & ']), (r' & ', [' | ']), (r'index_key', ['value_key']), (r'value_key', ['index_key']),
    (r'Bound::Included', ['Bound::Excluded']), (r'Bound::Excluded', ['Bound::Included']),
    (r'\.start\b', ['.end']), (r'\.end\b', ['.start']), (r'level\(\)', ['level() + 1']),
    (r'take_while', ['skip_while']), (r'Mode::Forward', ['Mode::Backward']), (r'Mode::Backward', ['Mode::Forward']),
    (r'^\s*[a-z_][\w.:]*(\(|\.|\[| = | [+-]= )[^{}]*;$', ['']), (r'\?;$', ['.ok();']),
    (r'\.filter\(', ['.skip_while(']), (r'\.skip\(', ['.take(']), (r'\.take\(', ['.skip(']), (r'\.chain\([^()]*\)', ['']),
]
FILES = ["banyan/src", "banyan-utils/src"]
SKIP = ("bin/", "create_salsa_key")

def sources():
    for d in FILES:
        for p, _, fs in os.walk(f"{REPO}/{d}"):
            for f in sorted(fs):
                rel = os.path.relpath(os.path.join(p, f), REPO)
                if f.endswith(".rs") and not any(s in rel for s in SKIP):
                    yield rel

def mutants():
    for rel in sorted(sources()):
        lines = open(f"{REPO}/{rel}").read().split("\n")
        for i, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            t = l.strip()
            if t.startswith(("//", "#[", "use ", "pub use", "impl", "pub struct", "const ", "fn ", "pub fn", "pub(crate) fn")) or "tracing" in l or "debug!" in l or "span" in l:
                continue
            code = l.split("//")[0]
            for pat, reps in RULES:
                for m in re.finditer(pat, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    for r in reps:
                        yield rel, i, l[:m.start()] + r + l[m.end():], l

def sh(c, t, **k):
    try:
        return subprocess.run(c, timeout=t, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", W + "/verif/harness/target"])
        return None

def setup():
    os.makedirs(W + "/verif", exist_ok=True)
    if not os.path.isdir(REPO):
        sh(["git", "clone", "-q", "/repo", REPO], 100)
    sh(["git", "-C", REPO, "pull", "-q"], 100)
    sh(["git", "-C", REPO, "checkout", "-q", "--", "."], 100)
    sh(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "--exclude", "seeded", "--exclude", "evidence", V + "/", W + "/verif/"], 100)
    if not os.path.isdir(W + "/verif/harness/src"):
        sh(["cp", "-r", V + "/harness", V + "/run.sh", V + "/KNOWN_FINDINGS.txt", W + "/verif/"], 100)
    c = W + "/verif/harness/Cargo.toml"
    s = open(c).read().replace("/repo/", REPO + "/")
    # faster builds
    s = s.replace("[profile.dev]\nopt-level = 2", "[profile.dev]\nopt-level = 1").replace("package.banyan]\nopt-level = 2", "package.banyan]\nopt-level = 1")
    open(c, "w").write(s)
    os.makedirs(W + "/verif/evidence", exist_ok=True)

ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL=os.environ.get("INCR","0"), VERIF_ROOT=W + "/verif", RUST_BACKTRACE="0", VERIF_SHRINK="3")
BIN = W + "/verif/harness/target/debug/vh"

def build():
    r = sh(["cargo", "build", "--offline", "--locked"], 400, cwd=W + "/verif/harness", env=ENV)
    return r is not None and r.returncode == 0

def main():
    if sys.argv[1] == "list":
        setup()
        ms = list(mutants())
        print(len(ms))
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    sub = sys.argv[5] if len(sys.argv) > 5 else ""
    setup()
    ms = [m for m in mutants() if sub in m[0]]
    random.Random(seed).shuffle(ms)
    done = set()
    if os.path.exists(out):
        done = {(j["file"], j["line"], j["new"]) for j in map(json.loads, open(out))}
    assert build()
    checks = [l.split() for l in sh([BIN, "list"], 10).stdout.splitlines()]
    checks = [(c[0], int(c[1].split("=")[1])) for c in checks]
    frac = float(os.environ.get("FRAC", "0.08"))
    k = 0
    for rel, i, new, old in ms:
        if k >= n:
            break
        if (rel, i + 1, new.strip()) in done:
            continue
        p = f"{REPO}/{rel}"
        text = open(p).read()
        lines = text.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        res = "nocompile"
        if build():
            k += 1
            res = "survived"
            for c, q in checks:
                if c in os.environ.get("NOT", "").split():
                    continue
                r = sh([BIN, "check", c, "--cases", str(max(int(q * frac), 8))], 300, env=ENV)
                if r is None:
                    res = f"timeout {c}"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    kind = re.search(r"failure kind=(\S+)", r.stdout)
                    res = f"caught {c} {kind.group(1) if kind else ''}"
                    break
                if r.returncode != 0:
                    res = f"error {c}"
                    break
        open(p, "w").write(text)
        j = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip(), result=res, secs=round(time.time() - t0))
        with open(out, "a") as f:
            f.write(json.dumps(j) + "\n")
main()
