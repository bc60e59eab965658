#!/usr/bin/env python3
"""Run the check of one property: check.py PROPERTY [--tier quick|thorough] [--budget S] [--keep] [--only NAME] [--replay FILE]"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import GROUPS, CHECKS  # noqa: E402

MOD = "github.com/unit-io/unitdb"


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOTELEMETRY="off")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def run(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise RuntimeError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(group, scratch):
    """Instrument the current tree of the repository and build the harness of a group; returns the binary."""
    g = GROUPS[group]
    vinstr = os.path.join(scratch, "vinstr")
    run(["go", "build", "-trimpath", "-o", vinstr, "."], os.path.join(HERE, "go", "vinstr"))
    src = os.path.join(scratch, "src")
    def pkg(p):
        return p if p.startswith("github.com") else (MOD + "/" + p if p else MOD)

    pkgs = [pkg(p) for p in g["pkgs"]]
    cmd = [vinstr, "-src", REPO, "-out", src, "-vrt", os.path.join(HERE, "go", "vrt"), "-pkgs", ",".join(pkgs)]
    consts = ["%s.%s=%s" % (MOD + "/" + p if p else MOD, k, v) for (p, k, v) in g.get("consts", [])]
    if consts:
        cmd += ["-const", ",".join(consts)]
    if g.get("copy"):
        cmd += ["-copy", ",".join(MOD + "/" + p for p in g["copy"])]
    if g.get("step"):
        cmd += ["-step", ",".join(MOD + "/" + p if p else MOD for p in g["step"])]
    if g.get("race"):
        cmd += ["-race", ",".join(pkg(p) for p in g["race"])]
    run(cmd, REPO)
    hdir = os.path.join(src, g["at"])
    os.makedirs(hdir)
    for h in g["harness"]:
        d = os.path.join(HERE, "go", "harness", h)
        for f in os.listdir(d):
            if f.endswith(".go"):
                shutil.copy(os.path.join(d, f), os.path.join(hdir, f))
    for rel, files in g.get("inpkg", {}).items():
        for f in files:
            shutil.copy(os.path.join(HERE, "go", "harness", f), os.path.join(src, rel, "zz_verif_" + os.path.basename(f)))
    out = os.path.join(scratch, "harness")
    run(["go", "build", "-trimpath", "-o", out, "./" + g["at"]], src)
    return out


def load_findings(prop):
    """known-findings.txt: 'KNOWN property=<id> key=<regex over scenario|rule|key> :: <text>' and 'fixed: ...' lines."""
    known = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="")
    ap.add_argument("--setup", action="store_true", help="check that everything builds")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default="")
    ap.add_argument("--maxfails", type=int, default=12)
    ap.add_argument("--replay", default="")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        scratch = tempfile.mkdtemp(prefix="unitdb-verif-")
        try:
            for g in GROUPS:
                os.makedirs(os.path.join(scratch, g))
                build(g, os.path.join(scratch, g))
                print("built", g)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    c = CHECKS[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="unitdb-verif-")
    try:
        results = []
        for group in c["groups"]:
            group, _, only = group.partition(":")
            sc = os.path.join(scratch, group)
            os.makedirs(sc)
            binary = build(group, sc)
            if a.replay:
                p = subprocess.run([binary, "-prop", a.prop, "-tier", a.tier, "-replay", os.path.abspath(a.replay)], cwd=sc)
                if p.returncode != 2:
                    return p.returncode
                continue
            budget = a.budget or c.get("budget", {}).get(a.tier) or (60 if a.tier == "quick" else 600)
            if only:
                budget = budget / 4
            out = os.path.join(sc, "result.json")
            p = subprocess.run([binary, "-prop", a.prop, "-tier", a.tier, "-budget", "%ds" % budget, "-out", out, "-only", a.only or only, "-maxfails", str(a.maxfails)], cwd=sc, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or not os.path.exists(out):
                raise RuntimeError("harness failed (%d):\n%s" % (p.returncode, p.stdout[-6000:]))
            r = json.load(open(out))
            r["group"] = group
            results.append(r)
        if a.replay:
            return 0
        return report(a, c, seed, evdir, results, t0)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)


def report(a, c, seed, evdir, results, t0):
    known = load_findings(a.prop)
    failures, notes, scen, samples = [], [], [], []
    tot = {"executions": 0, "worlds": 0, "steps": 0, "choice_points": 0, "diverged": 0}
    counts, distinct, exhausted = {}, 0, True
    for r in results:
        failures += r.get("failures") or []
        notes += r.get("notes") or []
        scen += r.get("scenarios") or []
        samples += r.get("samples") or []
        for k in tot:
            tot[k] += r["total"].get(k, 0)
        for k, v in (r["total"].get("counts") or {}).items():
            counts[k] = counts.get(k, 0) + v
        distinct += r["distinct_outcomes"]
        exhausted = exhausted and r["exhausted"]
    new, seen = [], {}
    for f in failures:
        sig = "%s|%s|%s" % (f["scenario"], f["rule"], f["key"])
        hit = [t for (rx, t) in known if rx.search(sig)]
        if hit:
            seen.setdefault(hit[0], []).append(f)
        else:
            new.append(f)
    for t, fs in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, t))
    rdir = os.path.join(evdir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(new[:12]):
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, i))
        json.dump(f, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  %s | %s | %s\n  %s" % (f["scenario"], f["rule"], f["key"], f["detail"][:1500]))
    if len(new) > 12:
        print("  ... and %d more" % (len(new) - 12))
    cov = {
        "states": max(distinct, 1),
        "transitions": max(tot["steps"], tot["executions"]),
        "traces_validated_against_impl": tot["worlds"],
        "how": "every execution runs the repository's own code, rebuilt from the working tree; states are distinct outcomes (results observed along an execution) and transitions are scheduling points passed",
        "samples": samples[:10] or ["none"],
        "exhaustive": exhausted,
        "executions": tot["executions"],
        "choice_points": tot["choice_points"],
        "diverged": tot["diverged"],
        "counts": counts,
        "scenarios": [{"name": s["name"], "desc": s.get("desc", ""), "deviation_bound": s["bound"], "asked": s["bound_asked"], "exhausted": s["exhausted"], "executions": s["stats"]["executions"], "distinct": s["distinct_outcomes"], "wall_s": round(s["wall_s"], 2), "unordered_accesses": s.get("racy") or []} for s in scen],
        "notes": notes[:20],
        "known_findings_seen": sorted(seen),
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not a.only:
        json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
    for s in scen:
        print("%s: %d executions, %d distinct, deviations <= %d, %s, %.1fs" % (s["name"], s["stats"]["executions"], s["distinct_outcomes"], s["bound"], "complete" if s["exhausted"] else "cut off", s["wall_s"]))
        if s.get("racy"):
            print("  unordered accesses made choice points: " + " ".join(s["racy"]))
    for n in notes[:8]:
        print("note:", n)
    print("%s: %d executions, %d distinct outcomes, %s, %.1fs, counts %s" % (a.prop, tot["executions"], distinct, "violations: %d" % len(new) if new else "no violation", time.time() - t0, counts))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        code = main()
    except RuntimeError as e:
        print("ERROR: the check could not run:", e)
        code = 3
    sys.exit(code)
