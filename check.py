#!/usr/bin/env python3
"""Runs one property's check.  usage: check.py ID [--tier quick|thorough] [--mode M --task N] [--all]

Builds the harness from /repo's current working tree (outside /repo), runs it, writes evidence/ID.json.
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the check could not run."""
import json, os, subprocess, sys, time, shutil, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build, registry


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        else:
            extra.append(x)
    spec = registry.CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = os.path.join(V, ".cache", "replay")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rc, cov = 0, []
    for part in spec["parts"]:
        odir = build.build(part.get("variant", "plain"), part["targets"])
        tb = time.time()
        covf = os.path.join(V, ".cache", "cov_%s_%s.json" % (pid, part["exe"]))
        if os.path.exists(covf):
            os.remove(covf)
        cmd = [os.path.join(odir, part["exe"])] + part.get("args", []) + ["--tier", tier, "--cov", covf, "--known", os.path.join(V, "known_findings.txt"), "--repdir", rep] + extra
        limit = 14400 if tier == "thorough" else 820
        try:
            env = dict(os.environ, VERIF_BIN=odir, LANG="C.UTF-8", OMP_NUM_THREADS=part.get("omp", "1"))
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, timeout=limit, cwd=V, env=env)
        except subprocess.TimeoutExpired:
            print("check.py: %s gave no answer in %d s" % (pid, limit))
            return 2
        if p.returncode not in (0, 1):
            print("check.py: %s ended with status %d" % (part["exe"], p.returncode))
            return 2
        rc = max(rc, p.returncode)
        c = json.load(open(covf))
        c["part"] = part["exe"]
        c["build_s"] = round(tb - t0, 1)
        cov.append(c)
    keys = ["states", "transitions", "traces_validated_against_impl", "evaluations", "distinct_nontrivial"]
    out = {k: sum(c.get(k, 0) for c in cov) for k in keys}
    out["samples"] = [s for c in cov for s in c.get("samples", [])][:24] or ["none"]
    out["rule"] = " | ".join(c.get("rule", "") for c in cov)
    out["bounds"] = " | ".join(c.get("bounds", "") for c in cov)
    out["exhaustive"] = all(c.get("exhaustive") for c in cov)
    out["parts"] = [{k: v for k, v in c.items() if k not in ("samples", "rule", "bounds")} for c in cov]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": out,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": rc}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
