#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- builds and runs one check.

Builds a test binary from /repo's current working tree plus the harness (put
into the package with go's -overlay, nothing is written in /repo) and runs it.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
COMMON = ["eng_test.go", "fw_test.go", "pool_test.go", "ref_test.go", "fix_test.go", "lib_test.go"]

def env():
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    if os.path.isdir(root):
        e["GOROOT"] = root
        e["PATH"] = root + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["GOPATH"] = "/root/go"
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", CGO_ENABLED="1", GOFLAGS="")
    return e

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    race = os.environ.get("VERIF_RACE") == "1"
    files = COMMON + [prop.lower() + "_test.go"]
    extra = os.path.join(HERE, "harness", prop.lower() + ".extra")
    if os.path.exists(extra):
        files += open(extra).read().split()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evid = os.path.join(evdir, prop + ".json")
    if "VERIF_CASE" not in os.environ and "VERIF_BUILD_ONLY" not in os.environ and os.path.exists(evid):
        os.unlink(evid)
    e = env()
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        ov = os.path.join(tmp, "overlay.json")
        json.dump({"Replace": {os.path.join(REPO, "zz_verif_" + f): os.path.join(HERE, "harness", f) for f in files}}, open(ov, "w"))
        binp = os.path.join(tmp, "check.bin")
        cmd = ["go", "test", "-c", "-mod=readonly", "-vet=off", "-overlay", ov, "-o", binp]
        if race:
            cmd.append("-race")
        b = subprocess.run(cmd + ["."], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0 or not os.path.exists(binp):
            print(b.stdout[-4000:]); print("check: the harness does not build against the current tree"); return 2
        if prop == "C14":  # a second binary, with the happens-before monitor
            rb = os.path.join(tmp, "race.bin")
            b = subprocess.run(["go", "test", "-c", "-race", "-mod=readonly", "-vet=off", "-overlay", ov, "-o", rb, "."], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode != 0 or not os.path.exists(rb):
                print(b.stdout[-4000:]); print("check: the monitored harness does not build"); return 2
            e["VERIF_RACEBIN"] = rb
        if os.environ.get("VERIF_BUILD_ONLY"):
            return 0
        res = os.path.join(tmp, "result")
        e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_EVIDENCE=evid, VERIF_RESULT=res,
                 VERIF_KNOWN=os.path.join(HERE, "known_findings.json"))
        e.setdefault("VERIF_SEED", "1")
        wd = os.path.join(tmp, "wd"); os.mkdir(wd)
        p = subprocess.Popen([binp, "-test.run", "^TestVerifCheck$", "-test.timeout", "0"], cwd=wd, env=e,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT if not os.environ.get("VERIF_TRACE") else None, text=True)
        tail = []
        for line in p.stdout:
            if line.strip() in ("PASS",) or line.startswith(("testing: warning", "ignoring uninitialized slice")):
                continue
            tail = (tail + [line])[-60:]
            sys.stdout.write(line); sys.stdout.flush()
        p.wait()
        try:
            return int(open(res).read())
        except Exception:
            print("check: the run ended without a result (exit %s)" % p.returncode)
            return 2

sys.exit(main())
