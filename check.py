#!/usr/bin/env python3
"""check.py setup | <ID> quick|thorough | <ID> replay <file>

Compiles the property tests against /repo's working tree and runs those of one property in parallel shards."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(ROOT, "harness")
KNOWN = os.path.join(ROOT, "known-findings")
# property -> (package, race detector wanted)
PKG = json.load(open(os.path.join(ROOT, "harness", "packages.json")))

def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOWORK="off", CGO_ENABLED="1" )
    e.setdefault("HOME", "/root")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e

def die(msg, rc=2):
    print(msg); sys.stdout.flush(); sys.exit(rc)

def build(pkg, out, race):
    cmd = ["go", "test", "-c", "-o", out] + (["-race"] if race else []) + ["./" + pkg]
    r = subprocess.run(cmd, cwd=HARN, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("ERROR: harness does not build against /repo:\n" + r.stdout[-6000:])

CRASH = re.compile(r"^(fatal error: (?!runtime: (out of memory|cannot allocate)|out of memory)|runtime: goroutine stack exceeds|panic: |SIGSEGV|WARNING: DATA RACE)", re.M)

def run(pid, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    cfg = PKG[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        binp = os.path.join(tmp, "h.test")
        build(cfg["pkg"], binp, cfg.get("race", False))
        if replay:
            return do_replay(pid, binp, tmp, replay)
        shards = cfg.get("shards", 6)
        deadline = cfg.get("deadline", 25) if tier == "quick" else cfg.get("thorough_s", 420)
        kill_after = 420 if tier == "quick" else 840
        procs = []
        for s in range(shards):
            wd = os.path.join(tmp, "s%d" % s); os.mkdir(wd)
            e = goenv()
            e.update(KIT_SEED=str(seed), KIT_SHARD=str(s), KIT_TIER=tier, KIT_DEADLINE=str(deadline), KIT_OUT=os.path.join(wd, "cov.json"),
                     KIT_KNOWN=KNOWN, KIT_SCALE="1", GOMAXPROCS=str(cfg.get("procs", 2)), GOTRACEBACK="single", GOMEMLIMIT="3GiB", TMPDIR=wd)
            lf = open(os.path.join(wd, "log"), "w")
            p = subprocess.Popen([binp, "-test.run", "^Test%s($|_)" % pid, "-test.v", "-test.timeout", "0"], cwd=wd, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            procs.append((p, wd, lf))
        bad = []; errs = []
        for s, (p, wd, lf) in enumerate(procs):
            try:
                rc = p.wait(timeout=max(1, kill_after - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait(); errs.append("shard %d timed out" % s); continue
            finally:
                lf.close()
            log = open(os.path.join(wd, "log"), errors="replace").read()
            if rc == 0:
                if "testing: warning: no tests to run" in log: errs.append("shard %d ran no tests" % s)
            elif rc > 0 and ("--- FAIL" in log or CRASH.search(log)):
                if "[harness-error]" in log and "--- FAIL" in log and "[violation]" not in log:
                    errs.append("shard %d: harness error: %s" % (s, log[-2500:]))
                else:
                    bad.append((s, wd, log))
            else:
                errs.append("shard %d ended with %s: %s" % (s, rc, log[-1500:]))
        ev = {"evaluations": 0}; hashes = set(); samples = []; labels = {}; known = set()
        for _, wd, _ in procs:
            try: c = json.load(open(os.path.join(wd, "cov.json")))
            except Exception: continue
            ev["evaluations"] += c["evals"]; hashes.update(c["hashes"] or []); known.update(c["known"] or [])
            for x in (c["samples"] or [])[:4]: samples.append(x)
            for k, v in (c["labels"] or {}).items(): labels[k] = labels.get(k, 0) + v
        samples = samples[:12]
        cov = {"evaluations": ev["evaluations"], "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples or ["(no sample recorded)"], "classes": dict(sorted(labels.items()))}
        viol = []
        if bad:
            s, wd, log = min(bad, key=lambda b: len(b[2]))
            viol = [write_replay(pid, seed, s, wd, log, tier)]
        out = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
        if errs: out["errors"] = errs
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(out, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        for line in (open(KNOWN).read().splitlines() if os.path.exists(KNOWN) else []):
            m = re.match(r"finding: property=%s key=(\S+) (.*)" % pid, line)
            if m:
                print("KNOWN-FINDING: property=%s %s%s" % (pid, m.group(2), "" if m.group(1) in known else " (not reproduced in this run)"))
        print("%s %s: %d cases, %d distinct non-trivial, %.1fs" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], out["wall_s"]))
        for e in errs: print("ERROR:", e)
        if viol:
            print(bad and tail(min(bad, key=lambda b: len(b[2]))[2]))
            print("VIOLATION property=%s replay=%s" % (pid, viol[0])); sys.stdout.flush()
            return 1
        return 2 if errs else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def tail(log):
    i = log.find("--- FAIL")
    t = log[max(0, i - 200):i + 6000] if i >= 0 else log[-4000:]
    return t

def write_replay(pid, seed, shard, wd, log, tier):
    d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
    rec = {"property": pid, "seed": seed, "shard": shard, "tier": tier, "failfiles": [], "log": log[-20000:]}
    for r, _, fs in os.walk(os.path.join(wd, "testdata")):
        for f in fs:
            if f.endswith(".fail"):
                rec["failfiles"].append({"test": os.path.basename(r), "content": open(os.path.join(r, f), errors="replace").read()})
    path = os.path.join(d, "%s-seed%d-shard%d.json" % (pid, seed, shard))
    json.dump(rec, open(path, "w"), indent=1)
    return os.path.relpath(path, ROOT)

def do_replay(pid, binp, tmp, path):
    rec = json.load(open(path)); rc = 0
    if not rec["failfiles"]:  # the process crashed: run the same cases again
        e = goenv(); cfg = PKG[pid]
        e.update(KIT_KNOWN=KNOWN, KIT_SEED=str(rec["seed"]), KIT_SHARD=str(rec["shard"]), KIT_TIER=rec.get("tier", "quick"), KIT_SCALE="1", KIT_DEADLINE=str(cfg.get("deadline", 25) if rec.get("tier", "quick") == "quick" else cfg.get("thorough_s", 420)),
                 GOMAXPROCS=str(cfg.get("procs", 2)), GOTRACEBACK="single", GOMEMLIMIT="3GiB")
        r = subprocess.run([binp, "-test.run", "^Test%s($|_)" % pid, "-test.v", "-test.timeout", "0"], cwd=tmp, env=e)
        return 1 if r.returncode else 0
    for ff in rec["failfiles"]:
        f = os.path.join(tmp, "r.fail"); open(f, "w").write(ff["content"])
        e = goenv(); e.update(KIT_KNOWN=KNOWN)
        r = subprocess.run([binp, "-test.run", "^" + ff["test"] + "$", "-test.v", "-rapid.failfile", f], cwd=tmp, env=e)
        rc = rc or (1 if r.returncode else 0)
    return rc

def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        pkgs = sorted({(c["pkg"], c.get("race", False)) for c in PKG.values()})
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for p, race in pkgs: build(p, os.path.join(tmp, "x.test"), race)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("harness builds"); return 0
    if len(a) == 3 and a[1] == "replay": return run(a[0], "quick", a[2])
    if len(a) != 2 or a[0] not in PKG or a[1] not in ("quick", "thorough"): die(__doc__)
    return run(a[0], a[1])

sys.exit(main())
