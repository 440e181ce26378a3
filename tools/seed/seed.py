#!/usr/bin/env python3
"""Make and try planted bugs.

seed.py make ID PROPERTY NEEDS BREAKS   from the changes in the scratch copy /tmp/wt (demo_test.go is there already)
seed.py try ID...                       demo with and without the patch, stable tests, and the property's check, in the scratch copy
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.abspath(__file__))
WT = "/tmp/wt"

def sh(cmd, cwd=WT, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    sh("git checkout -q -- .")

def make(id, prop, needs, breaks):
    d = "%s/seeded/%s" % (VERIF, id)
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff").stdout
    assert diff, "no changes"
    open(d + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "common_test.go"):
        shutil.copy(HERE + "/" + f, d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    clean()

def attempt(id):
    d = "%s/seeded/%s" % (VERIF, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    r = sh("bash %s/demo.sh" % d)
    out = "%s: clean demo %d" % (id, r.returncode)
    if r.returncode:
        print(out, r.stdout[-2500:]); return
    r = sh("git apply %s/patch.diff" % d)
    if r.returncode:
        print(out, "DOES NOT APPLY", r.stdout); return
    r = sh("bash %s/demo.sh" % d)
    out += ", patched demo %d" % r.returncode
    demo = r.stdout
    if not r.returncode or "build failed" in demo or "setup failed" in demo:
        print(out, "BAD DEMO", demo[-1500:]); clean(); return
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
    r = sh("go test ./internal/... ./pkg/... ./cmd/n2j/... 2>&1 | grep -v 'no test files'", env=dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOCACHE="/tmp/gocache", GOMODCACHE="/root/go/pkg/mod"))
    bad = [l for l in r.stdout.splitlines() if l.startswith(("FAIL", "---"))]
    out += ", tests %s" % ("ok" if not bad else bad)
    props = [prop] + sys.argv[3:] if sys.argv[1] == "try1" else [prop]
    for p in props:
        r = sh("python3 /tmp/vv/check.py %s" % p, env=env)
        out += "; %s: %s" % (p, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "ERROR")
        if r.returncode != 0:
            out += "\n    " + r.stdout[:300 if r.returncode == 1 else 3000].replace("\n", "\n    ")
    clean()
    print(out, flush=True)

if sys.argv[1] == "make":
    make(*sys.argv[2:6])
elif sys.argv[1] == "try1":
    attempt(sys.argv[2])
else:
    for id in sys.argv[2:]:
        attempt(id)
