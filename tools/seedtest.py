#!/usr/bin/env python3
"""Try the planted bugs: seedtest.py [-c] ID...   -c: also run the check of the property.
A scratch worktree of /repo gets the patch; build, stable tests, demo without and with it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=dict(ENV, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def fresh():
    sh("git -C /repo worktree remove --force %s; rm -rf /tmp/seedwt; git -C /repo worktree prune; git -C /repo worktree add --detach %s HEAD" % (W, W), "/")


def tests():
    out = sh("rm -rf test memdb/test wal/test; go test -json -vet=off -count=1 -timeout 3m ./...; rm -rf test memdb/test wal/test", W).stdout
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return ok


def main():
    args = sys.argv[1:]
    check = "-c" in args
    only = "-k" in args  # only the check
    ids = [a for a in args if a[0] != "-"] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        res = []
        fresh()
        if not only:
            # the demo runs from a copy laid elsewhere
            shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
            shutil.copytree(d, "/tmp/seeddemo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            p = sh("timeout 300 bash /tmp/seeddemo/demo.sh", W)
            res.append("demo-clean=%d" % p.returncode)
            if p.returncode:
                res.append(p.stdout[-800:])
        p = sh("git apply %s/patch.diff" % d, W)
        if p.returncode:
            print(i, "DOES NOT APPLY", p.stdout)
            continue
        if not only:
            p = sh("go build ./... && cd server && go build ./... || true", W)
            p = sh("go build ./...", W)
            res.append("build=%d" % p.returncode)
            if p.returncode:
                print(p.stdout[-1500:])
            ok = tests()
            bad = [n for n in names if n not in ok]
            res.append("tests-failing=%s" % bad)
            p = sh("timeout 300 bash /tmp/seeddemo/demo.sh", W)
            res.append("demo-patched=%d" % p.returncode)
            if p.returncode == 0:
                res.append(p.stdout[-300:])
        if check or only:
            p = sh("python3 %s/check.py %s" % (HERE, prop), HERE, VERIF_REPO=W)
            v = [l for l in p.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:3]
            res.append("check %s exit=%d %s" % (prop, p.returncode, " / ".join(x.strip() for x in v)[:300]))
            if p.returncode not in (0, 1):
                res.append(p.stdout[-600:])
        print(i, " ".join(res), flush=True)
    sh("git -C /repo worktree remove --force %s; git -C /repo worktree prune" % W, "/")
    shutil.rmtree("/tmp/seeddemo", ignore_errors=True)


main()
