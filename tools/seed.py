#!/usr/bin/env python3
"""seed.py verify ID... | checks ID... : confirms planted bugs in a scratch copy of /repo.
seed.py new ID PROPERTY PKG FILE <<< 'needs\n=====\nwhat_it_breaks\n=====\nold\n=====\nnew[\n=====\nfile2\n=====\nold\n=====\nnew]' : writes patch.diff, meta.json."""
import sys, os, subprocess, shutil, json
S = "/verif/seeded"; D = "/tmp/seedrepo"
env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def fresh():
    shutil.rmtree(D, ignore_errors=True)
    sh(f"cp -a /repo {D}"); sh("git checkout -q -- . && git clean -fdq", D)
def verify(i):
    fresh()
    t = "/tmp/seeddemo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(f"{S}/{i}", t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r0 = sh(f"bash {t}/demo.sh", D)
    if r0.returncode: return print(i, "BAD: demo fails on the unchanged tree\n", (r0.stdout + r0.stderr)[-2000:])
    a = sh(f"git apply {S}/{i}/patch.diff", D)
    if a.returncode: return print(i, "BAD: patch", a.stderr)
    b = sh("go build ./...", D, env=env)
    if b.returncode: return print(i, "BAD: build", b.stderr)
    tt = sh("go test -vet=off ./...", D, env=env)
    if tt.returncode: return print(i, "BAD: tests\n", "\n".join(l for l in tt.stdout.splitlines() if "FAIL" in l)[:800])
    r1 = sh(f"bash {t}/demo.sh", D)
    if r1.returncode == 0: return print(i, "BAD: demo passes with the patch")
    print(i, "OK |", next((l.strip() for l in r1.stdout.splitlines() if "_test.go" in l or "panic" in l), r1.stdout[-200:]))
    return True
def checks(i):
    fresh(); sh(f"git apply {S}/{i}/patch.diff", D)
    os.makedirs("/tmp/vv", exist_ok=True); shutil.copy("/verif/known_findings.txt", "/tmp/vv/known_findings.txt")
    r = subprocess.run(["/tmp/sa", "check"] + json.loads(subprocess.check_output(["python3", "-c", "import json;print(json.dumps([c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]))"], text=True)), env=dict(os.environ, VERIF_REPO=D, VERIF_DIR="/tmp/vv"), capture_output=True, text=True)
    hit = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    print(i, p, "CAUGHT" if p in hit else "MISSED", "by", hit)
if sys.argv[1] == "new":
    i, prop, pkg, f = sys.argv[2:6]
    parts = sys.stdin.read().rstrip("\n").split("\n=====\n")
    needs, what = parts[:2]
    edits = [(f, parts[2], parts[3])]
    rest = parts[4:]
    while rest: edits.append((rest[0], rest[1], rest[2])); rest = rest[3:]
    os.makedirs(f"{S}/{i}", exist_ok=True)
    fresh()
    for f, o, n in edits:
        p = os.path.join(D, f); s = open(p).read()
        if s.count(o) != 1: sys.exit(f"{f}: old text occurs {s.count(o)} times: {o}")
        open(p, "w").write(s.replace(o, n))
    open(f"{S}/{i}/patch.diff", "w").write(sh("git diff", D).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(f"{S}/{i}/meta.json", "w"), indent=1)
    open(f"{S}/{i}/pkg.txt", "w").write(pkg + "\n")
    shutil.copy("/verif/tools/seedtpl/demo.sh", f"{S}/{i}/demo.sh")
    if pkg == "pkg/ddlctl/apply": shutil.copy("/verif/tools/seedtpl/apply_common_test.go", f"{S}/{i}/common_test.go")
else:
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        {"verify": verify, "checks": checks}[sys.argv[1]](i)
shutil.rmtree(D, ignore_errors=True)
