#!/usr/bin/env python3
"""Builds the planted bugs of /verif/seeded from their specifications in tools/seeds/*.py.

usage: seed.py [ID...]      (no argument: every specification that has no /verif/seeded folder yet)

A specification module defines `B`, a list of dicts:
  id, property, file (relative to /repo), rep: [(old, new)...] or [(file, old, new)...],
  runs: [(expected last line, args...)] where args name the inputs below (their suffix decides the role),
  inputs: {name: text}, needs, breaks, and optionally script (the text of a demo.sh body).
Every seed is confirmed in a scratch copy: it compiles, the baseline tests pass, the demonstration
passes without it and fails with it, and the lines it changes are lines of the original repository.
"""
import importlib.util, json, os, subprocess, sys, glob, shutil
W = "/tmp/seedw"
BASE = "c3622d0"
HEAD = '''#!/bin/bash
# run with cwd = the repository, after the build
d=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/target/debug/carcara
bad=0
# t EXPECTED ARGS...: the last line of the standard output of carcara must be EXPECTED
t() {
  want=$1; shift
  got=$(timeout 60 "$bin" "$@" 2>/dev/null | tail -n 1)
  if [ "$got" != "$want" ]; then echo "expected '$want', got '$got': carcara $*"; bad=1; fi
}
'''
def sh(c, cwd=None, ok=True):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    if ok and r.returncode: raise Exception(f"{c}\n{r.stdout[-3000:]}\n{r.stderr[-3000:]}")
    return r
def specs():
    out = {}
    for f in sorted(glob.glob("/verif/tools/seeds/*.py")):
        s = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.B:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out
ENV = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/seedw/target; "
def build(): return sh(f"{ENV} cargo test --workspace --no-run --locked --offline && cargo build --workspace --locked --offline", W, ok=False)
def tests():
    r = sh(f"{ENV} cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8", W, ok=False)
    p = sum(int(l.split("ok. ")[1].split()[0]) for l in r.stdout.splitlines() if l.startswith("test result: ok"))
    bad = [l for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    return p, bad
def edits(b):
    for e in b["rep"]: yield (b["file"], *e) if len(e) == 2 else e
def write(b, diff):
    d = f"/verif/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    for n, t in b.get("inputs", {}).items(): open(f"{d}/{n}", "w").write(t.strip("\n") + "\n")
    body = HEAD
    if "script" in b: body += b["script"].strip("\n") + "\n"
    for r in b.get("runs", []):
        args = [f'"$d/{a}"' if a in b["inputs"] else a for a in r[1:]]
        body += f"t '{r[0]}' " + " ".join(args) + "\n"
    body += "exit $bad\n"
    open(f"{d}/demo.sh", "w").write(body); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    return d
def main():
    S = specs(); ids = sys.argv[1:] or [i for i in S if not os.path.exists(f"/verif/seeded/{i}/patch.diff")]
    if not ids: return
    if not os.path.exists(W): sh(f"cp -a /repo {W}")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
    r = build(); assert r.returncode == 0, r.stderr[-2000:]
    shutil.rmtree(f"{W}/clean", ignore_errors=True); os.makedirs(f"{W}/clean/target/debug"); shutil.copy(f"{W}/target/debug/carcara", f"{W}/clean/target/debug/carcara")
    for i in ids:
        b = S[i]; print("==", i, flush=True)
        sh("git checkout -q -- .", W)
        try:
            for f, old, new in edits(b):
                p = f"{W}/{f}"; t = open(p).read(); assert t.count(old) == 1, f"{f}: {t.count(old)} matches of {old!r}"
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff", W).stdout
            # the removed lines must be original ones
            for f in {e[0] for e in edits(b)}:
                fd = sh(f"git diff -U0 -- {f}", W).stdout
                bl = sh(f"git blame -s {BASE}..HEAD -- {f}", W).stdout.splitlines()
                for l in fd.splitlines():
                    if l.startswith("@@"):
                        a = l.split()[1][1:].split(","); s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                        for k in range(s, s + n):
                            if not bl[k-1].startswith("^") : print("  NOT ORIGINAL:", bl[k-1][:150])
            d = write(b, diff)
            r = sh(f"bash {d}/demo.sh", f"{W}/clean", ok=False)
            if r.returncode: print("  FAIL: demo fails on the clean tree:", r.stdout[:600]); shutil.rmtree(d); continue
            r = build()
            if r.returncode: print("  FAIL: build", [l for l in r.stderr.splitlines() if l.startswith("error")], r.stderr[-1500:]); shutil.rmtree(d); continue
            r = sh(f"bash {d}/demo.sh", W, ok=False)
            if r.returncode == 0: print("  FAIL: demo passes with the bug"); shutil.rmtree(d); continue
            print("  demo:", r.stdout.strip()[:300])
            p, bad = tests()
            if bad or p < 244: print("  FAIL: tests", p, bad); shutil.rmtree(d); continue
            print("  OK")
        except Exception as e:
            print("  EXC", str(e)[:1500])
    sh("git checkout -q -- .", W)
main()
