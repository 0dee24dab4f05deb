#!/usr/bin/env python3
"""mt.py PROPS FILE <<< 'old\n=====\nnew' : tries one edit of /repo in a scratch copy and runs the checks on it.
Options: -t runs the repository's tests for the edit too."""
import sys, os, subprocess, shutil, re
args = sys.argv[1:]
runtests = False
if args[0] == "-t":
    runtests = True; args = args[1:]
props, f = args[0].split(","), args[1]
old, new = sys.stdin.read().split("\n=====\n")
new = new.rstrip("\n") if not old.endswith("\n") else new
old = old.rstrip("\n")
d = "/tmp/mt"
shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(["rsync", "-a", "--exclude=.git", "/repo/", d + "/"]) if shutil.which("rsync") else shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
p = os.path.join(d, f)
s = open(p).read()
if s.count(old) < 1:
    sys.exit("old text not found")
s = s.replace(old, new, 1)
open(p, "w").write(s)
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
r = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
if r.returncode: sys.exit("BUILD FAILS\n" + r.stderr[:800])
if runtests:
    r = subprocess.run(["go", "test", "./pkg/..."], cwd=d, env=env, capture_output=True, text=True)
    print("tests:", "pass" if r.returncode == 0 else "FAIL " + "\n".join(l for l in r.stdout.splitlines() if "FAIL" in l)[:300])
os.makedirs("/tmp/vv", exist_ok=True)
shutil.copy("/verif/known_findings.txt", "/tmp/vv/known_findings.txt")
r = subprocess.run(["/tmp/sa", "check"] + props, env=dict(os.environ, VERIF_REPO=d, VERIF_DIR="/tmp/vv"), capture_output=True, text=True)
for l in (r.stdout + r.stderr).splitlines():
    print(l[:400])
