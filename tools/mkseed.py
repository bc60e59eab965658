#!/usr/bin/env python3
"""mkseed.py SPEC.py: make a planted bug from a spec with ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, PKG, DEMO (a Go test file)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    g = {"DIR": "."}
    exec(open(f).read(), g)
    w = "/tmp/mkseed"
    subprocess.run("rm -rf /tmp/mkseed; git -C /repo worktree prune; git -C /repo worktree add -q --detach /tmp/mkseed HEAD", shell=True, check=True)
    for (file, old, new) in g["EDITS"]:
        p = os.path.join(w, file)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: %d matches of %r in %s" % (f, n, old, file))
        open(p, "w").write(s.replace(old, new))
        for ln, line in enumerate(s.splitlines(), 1):
            pass
    d = os.path.join(HERE, "seeded", g["ID"])
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff", "--no-color"], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo_test.go.txt", "w").write(g["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write("""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(d)szz_seed_demo_test.go" "$here/demo_test.go.txt" > "$t/overlay.json"
export DEMO_DIR="$t"
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestSeedDemo$' ./%(d)s
""" % {"d": "" if g["DIR"] == "." else g["DIR"] + "/"})
    # which lines does it touch that are not in the original
    for (file, old, new) in g["EDITS"]:
        bl = subprocess.run(["git", "blame", "-s", file], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()
        src = open(os.path.join("/repo", file)).read()
        a = src[:src.index(old)].count("\n")
        for k in range(a, a + old.count("\n") + 1):
            if not bl[k].startswith("^"):
                print("   NOT ORIGINAL:", bl[k])
    subprocess.run("git -C /repo worktree remove --force /tmp/mkseed; git -C /repo worktree prune", shell=True)
    print("made", g["ID"])
