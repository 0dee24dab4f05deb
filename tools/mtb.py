#!/usr/bin/env python3
"""mtb.py [-t] BATCHFILE : tries a batch of edits (scratch copies, in parallel) and prints what each check says.
Blocks: '## PROPS FILE note' / old / ===== / new; a block may go on with '++ FILE' / old / ===== / new."""
import sys, os, subprocess, shutil, re, concurrent.futures as cf
args = sys.argv[1:]
runtests = "-t" in args
args = [a for a in args if a != "-t"]
blocks = []
cur = None
for line in open(args[0]).read().split("\n"):
    m = re.match(r"## (\S+) (\S+) ?(.*)", line)
    if m:
        cur = {"props": m[1].split(","), "note": m[3], "edits": [[m[2], []]]}
        blocks.append(cur); continue
    m = re.match(r"\+\+ (\S+)", line)
    if m and cur:
        cur["edits"].append([m[1], []]); continue
    if cur: cur["edits"][-1][1].append(line)
env0 = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
def run(i, b):
    d = f"/tmp/mtb/{os.getpid()}/{i}"; v = d + "-v"
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git")); os.makedirs(v)
    try:
        for f, ls in b["edits"]:
            t = "\n".join(ls)
            if "\n=====" not in t: return f"[{i}] {b['note']}: BAD BLOCK"
            old, new = t.split("\n=====", 1)
            old, new = old.strip("\n"), new.strip("\n")
            p = os.path.join(d, f); s = open(p).read()
            if old not in s: return f"[{i}] {b['note']}: OLD TEXT NOT FOUND in {f}: {old[:60]}"
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["go", "build", "./..."], cwd=d, env=env0, capture_output=True, text=True, errors="replace")
        if r.returncode: return f"[{i}] {b['note']}: BUILD FAILS {r.stderr[:300]}"
        out = ""
        if runtests:
            r = subprocess.run(["go", "test", "./pkg/..."], cwd=d, env=env0, capture_output=True, text=True, errors="replace")
            out = " tests pass;" if r.returncode == 0 else " TESTS FAIL;"
        shutil.copy("/verif/known_findings.txt", v)
        r = subprocess.run(["/tmp/sa", "check"] + b["props"], env=dict(os.environ, VERIF_REPO=d, VERIF_DIR=v, GOMAXPROCS="3"), capture_output=True, text=True, errors="replace")
        ls = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
        return f"[{i}] {b['note']}:{out} exit {r.returncode}\n" + "\n".join("      " + l[:1330] for l in ls if r.returncode not in (0,) or "UNDEC" in l or "0 undecided" not in l)[:1500]
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
with cf.ThreadPoolExecutor(4) as ex:
    for f in [ex.submit(run, i, b) for i, b in enumerate(blocks)]:
        print(f.result())
