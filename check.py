#!/usr/bin/env python3
"""Decide one property of fau-cdi/hangover by generated-input search.

usage: check.py PROPERTY [--replay FILE] [--keep] [--checks N] [--shards N]

Builds the harness in /verif/harness together with /repo's working tree (as an
overlay: nothing is written to /repo), runs it, and reports.

exit 0: held on everything explored;  exit 1: VIOLATION;  exit 2: error of the check.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
GO_BIN = "/opt/veriftools/go1.23.12/bin"
MODCACHE = "/root/go/pkg/mod"
BASE_CACHE = "/opt/vp/gocache"
RAPID = MODCACHE + "/pgregory.net/rapid@v1.3.0"
MODULE = "github.com/FAU-CDI/hangover"

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_for(work):
    env = {
        "HOME": "/root", "PATH": GO_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOENV": "off", "GOWORK": "off", "GOTOOLCHAIN": "local", "GOSUMDB": "off", "GOPROXY": "off",
        "GOFLAGS": "-mod=mod", "GOPATH": "/root/go", "GOMODCACHE": MODCACHE,
        "GOCACHE": work + "/gocache", "CGO_ENABLED": "1", "TMPDIR": work + "/tmp", "LANG": "C.UTF-8",
    }
    return env


def run(cmd, env, cwd, timeout, what):
    try:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("%s: timed out after %ds" % (what, timeout))
    if p.returncode != 0:
        raise CheckError("%s failed (exit %d)\n%s" % (what, p.returncode, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def prepare(work):
    """Everything that is needed to compile the harness with /repo."""
    os.makedirs(work + "/tmp", exist_ok=True)
    os.chmod(work, 0o755)
    os.chmod(work + "/tmp", 0o1777)
    if os.path.isdir(BASE_CACHE):
        shutil.copytree(BASE_CACHE, work + "/gocache", symlinks=True)
    else:
        os.makedirs(work + "/gocache")
    # rapid, at the language version of the repository
    shutil.copytree(RAPID, work + "/rapid")
    subprocess.run(["chmod", "-R", "u+w", work + "/rapid"], check=True)
    with open(work + "/rapid/go.mod") as f:
        mod = f.read()
    with open(work + "/rapid/go.mod", "w") as f:
        f.write(re.sub(r"(?m)^go .*$", "go 1.21", mod))
    for f in glob.glob(work + "/rapid/*_test.go"):
        os.unlink(f)
    with open(REPO + "/go.mod") as f:
        mod = f.read()
    mod += "\nrequire pgregory.net/rapid v1.3.0\nreplace pgregory.net/rapid => %s/rapid\n" % work
    with open(work + "/go.mod", "w") as f:
        f.write(mod)
    shutil.copy(REPO + "/go.sum", work + "/go.sum")
    replace = {}
    for d in sorted(os.listdir(VERIF + "/harness")):
        for f in sorted(glob.glob("%s/harness/%s/*.go" % (VERIF, d))):
            replace["%s/internal/zverif/%s/%s" % (REPO, d, os.path.basename(f))] = f
    with open(work + "/overlay.json", "w") as f:
        json.dump({"Replace": replace}, f)


def build(work, spec, env):
    os.makedirs(work + "/bin", exist_ok=True)
    jobs = []
    for pkg, race in spec["pkgs"]:
        out = "%s/bin/%s%s.test" % (work, pkg, "_race" if race else "")
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", work + "/overlay.json", "-modfile", work + "/go.mod", "-o", out]
        if race:
            cmd += ["-race"]
        cmd += ["./internal/zverif/" + pkg]
        jobs.append((cmd, "build harness " + pkg))
    for b in spec.get("bins", []):
        jobs.append((["go", "build", "-modfile", work + "/go.mod", "-o", work + "/bin/" + b, "./cmd/" + b], "build cmd/" + b))
    procs = []
    for cmd, what in jobs:
        procs.append((subprocess.Popen(cmd, env=env, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), what))
    failed = []
    deadline = time.time() + 700
    for p, what in procs:
        try:
            out, _ = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            failed.append("%s: timed out" % what)
            continue
        if p.returncode != 0:
            failed.append("%s failed\n%s" % (what, out.decode(errors="replace")[-4000:]))
    if failed:
        raise CheckError("\n".join(failed))


CRASH = re.compile(rb"(?m)^(panic: |fatal error: |WARNING: DATA RACE|unexpected fault address|SIGSEGV)")
OOM = re.compile(rb"(out of memory|cannot allocate memory|test timed out)")


def setup():
    """Check that everything needed is there. (There is nothing to keep: each check builds from the current tree.)"""
    for path in (GO_BIN + "/go", RAPID, REPO + "/go.mod", VERIF + "/harness/lib/run.go"):
        if not os.path.exists(path):
            raise CheckError(path + " does not exist")
    print(run([GO_BIN + "/go", "version"], env_for("/tmp"), VERIF, 60, "go version").strip())
    return 0


def main():
    args = sys.argv[1:]
    if not args:
        raise CheckError("usage: check.py PROPERTY")
    prop = args.pop(0)
    if prop == "--setup":
        return setup()
    replay = keep = None
    checks = shards = None
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = os.path.abspath(args.pop(0))
        elif a == "--keep":
            keep = True
        elif a == "--checks":
            checks = args.pop(0)
        elif a == "--shards":
            shards = int(args.pop(0))
        else:
            raise CheckError("unknown argument " + a)
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:7], 16)
    t0 = time.time()

    work = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower(), dir="/tmp")
    children = []

    def cleanup():
        for c in children:
            try:
                os.killpg(c.pid, signal.SIGKILL)
            except OSError:
                pass
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("kept", work)

    def on_term(*_):
        cleanup()
        os._exit(2)
    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)

    try:
        return decide(prop, spec, tier, seed, t0, work, children, replay, checks, shards)
    finally:
        cleanup()


def decide(prop, spec, tier, seed, t0, work, children, replay, checks, shards):
    env = env_for(work)
    prepare(work)
    build(work, spec, env)
    t_build = time.time() - t0

    out = work + "/out"
    os.makedirs(out)
    n = shards or spec.get("shards", 8)
    if replay:
        n = 1
    limit = spec.get("limit", {}).get(tier, 600 if tier == "quick" else 5400)
    procs = []
    for pkg, race in spec["pkgs"]:
        for i in range(n):
            e = dict(env)
            sc = "%s/scratch/%s%d%d" % (work, pkg, race, i)
            os.makedirs(sc)
            os.chmod(work + "/scratch", 0o755)
            os.chmod(sc, 0o777)
            e.update({
                "VERIF_OUT": out, "VERIF_SHARD": str(i), "VERIF_SHARDS": str(n), "VERIF_SEED": str(seed),
                "VERIF_TIER": tier, "VERIF_SCRATCH": sc, "VERIF_BIN": work + "/bin", "TMPDIR": sc,
                "VERIF_DIR": VERIF, "GOTRACEBACK": "all", "GORACE": "halt_on_error=1 exitcode=66",
                "GOMEMLIMIT": "3GiB", "GOMAXPROCS": "2", "GOGC": "400",
            })
            if checks:
                e["VERIF_CHECKS"] = str(checks)
            if replay:
                e["VERIF_REPLAY"] = replay
            name = "%s%s" % (pkg, "_race" if race else "")
            lf = open("%s/%s.%d.log" % (out, name, i), "wb")
            p = subprocess.Popen(
                ["%s/bin/%s.test" % (work, name), "-test.run", "^Test%s(_|$)" % prop, "-test.v", "-test.timeout", "0"],
                env=e, cwd=sc, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            children.append(p)
            procs.append((p, name, i, lf.name))

    deadline = time.time() + limit
    crashed = []
    errors = []
    for p, name, i, lf in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            errors.append("shard %s/%d did not finish within %d s" % (name, i, limit))
            os.killpg(p.pid, signal.SIGKILL)
            continue
        if rc not in (0, 1, 3):
            crashed.append((name, i, lf, rc))
        elif rc == 3:
            errors.append("shard %s/%d: harness error" % (name, i))

    results = []
    for f in sorted(glob.glob(out + "/*.json")):
        with open(f) as fh:
            results.append(json.load(fh))

    violations = []
    for r in results:
        if r.get("harness_error"):
            errors.append("%s shard %d: %s" % (r["part"], r["shard"], r["harness_error"]))
        if r.get("violation"):
            violations.append((r["part"], r["violation"], r["replay"]))

    # a process that died: the case it was working on is the failing one
    for name, i, lf, rc in crashed:
        with open(lf, "rb") as fh:
            text = fh.read()
        m = CRASH.search(text)
        if rc < 0 and not m or OOM.search(text):
            errors.append("shard %s/%d died (exit %d)\n%s" % (name, i, rc, text[-3000:].decode(errors="replace")))
            continue
        done = {r["part"] for r in results if r["shard"] == i and r.get("done")}
        cur = [f for f in glob.glob("%s/*.%d.cur" % (out, i)) if os.path.basename(f).rsplit(".", 2)[0] not in done]
        if not m or not cur:
            errors.append("shard %s/%d failed without a result (exit %d)\n%s" % (name, i, rc, text[-3000:].decode(errors="replace")))
            continue
        cur.sort(key=os.path.getmtime)
        with open(cur[-1]) as fh:
            case = json.load(fh)
        part = os.path.basename(cur[-1]).rsplit(".", 2)[0]
        violations.append((part, "the process running the code crashed:\n" + text[m.start():m.start() + 6000].decode(errors="replace"), case))

    if not replay:
        parts = {r["part"] for r in results}
        want = set(spec["parts"])
        if not violations and not errors and parts != want:
            errors.append("expected results for %s, but got %s" % (sorted(want), sorted(parts)))

    if not replay:
        write_evidence(prop, spec, tier, seed, results, violations, t0, t_build)

    known = sorted({k for r in results for k in r.get("known") or []})
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    if violations:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        violations.sort(key=lambda v: len(json.dumps(v[2])))
        part, text, case = violations[0]
        path = "%s/replays/%s.json" % (VERIF, prop) if not replay else replay
        if not replay:
            with open(path, "w") as fh:
                json.dump({"property": prop, "part": part, "seed": seed, "tier": tier, "violation": text, "case": case}, fh, indent=1, ensure_ascii=False)
        print("%s: %s" % (part, text[:4000]))
        print("replay with: python3 %s/check.py %s --replay %s" % (VERIF, prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        raise CheckError("\n".join(errors))
    print("OK property=%s cases=%d build=%.0fs total=%.0fs" % (prop, sum(r["evaluations"] for r in results), t_build, time.time() - t0))
    return 0


def write_evidence(prop, spec, tier, seed, results, violations, t0, t_build):
    parts = {}
    for r in results:
        p = parts.setdefault(r["part"], {"rule": r["rule"], "evaluations": 0, "hashes": set(), "classes": {}, "samples": []})
        p["evaluations"] += r["evaluations"]
        p["hashes"].update(r["hashes"] or [])
        for k, v in (r["classes"] or {}).items():
            p["classes"][k] = p["classes"].get(k, 0) + v
        p["samples"] += r["samples"] or []
    samples = []
    for name in sorted(parts):
        for s in parts[name]["samples"][:2]:
            samples.append({"part": name, "case": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts.values()),
            "distinct_nontrivial": sum(len(p["hashes"]) for p in parts.values()),
            "rule": " | ".join("%s: %s" % (n, parts[n]["rule"]) for n in sorted(parts)) or "no case was run",
            "samples": samples[:6],
            "parts": {n: {"evaluations": p["evaluations"], "distinct_nontrivial": len(p["hashes"]), "classes": p["classes"]} for n, p in sorted(parts.items())},
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
