#!/usr/bin/env python3
"""Runs one check:  run.py <PROPERTY> [quick|thorough]   or   run.py --replay <file>

Builds the harness of the property together with /repo's current sources in a scratch directory, runs it,
rewrites evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, subprocess, shutil, time, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
from checks.registry import CHECKS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def load_known():
    ks = {}
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property="):
                rest = l[len("known: property="):]
                pid, key, desc = rest.split(" ", 2)
                assert key.startswith("key=")
                ks.setdefault(pid, {})[key[4:]] = desc
    return ks

def main():
    args = sys.argv[1:]
    replay = None
    if args and args[0] == "--replay":
        replay = json.load(open(args[1])); pid = replay["property"]; tier = replay.get("tier", "quick")
    else:
        pid = args[0]; tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    W = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(V, "build"))
    rc = 2
    try:
        known = load_known().get(pid, {})
        res = c["run"](dict(V=V, REPO=REPO, W=W, tier=tier, seed=seed, known=known, pid=pid, sh=sh,
                            replay=replay, c=c))
        if replay is not None:
            print(res.get("text", ""))
            rc = 1 if res["violations"] else 0
        else:
            rc = report(pid, c, tier, seed, res, known, time.time() - t0)
    except Exception as e:
        print("check error:", e)
        rc = 2
    finally:
        if os.path.dirname(W) == os.path.join(V, "build") and not os.environ.get("VERIF_KEEP"):
            subprocess.run(["chmod", "-R", "u+rwX", W], stderr=subprocess.DEVNULL)
            shutil.rmtree(W, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def report(pid, c, tier, seed, res, known, wall):
    cov = {"states": res["states"], "transitions": res["transitions"],
           "traces_validated_against_impl": res["traces"],
           "samples": res["samples"] or ["(none)"],
           "distinct_outcomes": res.get("outcomes", 0),
           "units_total": res.get("units_total", 0), "units_complete": res.get("units_complete", 0),
           "exhaustive": bool(res.get("units_total", 0) == res.get("units_complete", 0) and not res.get("capped")),
           "bounds": c.get("bounds", ""), "rule": c.get("rule", "")}
    for k in ("per_unit", "notes", "extra"):
        if res.get(k): cov[k] = res[k] if k != "per_unit" else res[k][:400]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(res["violations"])}
    f = os.path.join(V, "evidence", pid + ".json")
    json.dump(ev, open(f + ".tmp", "w"), indent=1); os.replace(f + ".tmp", f)
    print(f"{pid} {tier}: states={res['states']} transitions={res['transitions']} traces={res['traces']} "
          f"outcomes={res.get('outcomes', 0)} units={res.get('units_complete', 0)}/{res.get('units_total', 0)} wall={wall:.1f}s")
    for n in res.get("notes", []): print("note:", n[:600])
    for k in res.get("known", []): print(f"KNOWN-FINDING: property={pid} {known.get(k, k)}")
    if res["violations"]:
        d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
        for i, v in enumerate(res["violations"]):
            p = os.path.join(d, f"{pid}-{i}.json")
            json.dump(dict(property=pid, tier=tier, how="python3 run.py --replay <this file>", **v), open(p, "w"), indent=1)
            print("  " + v.get("unit", "") + " case " + str(v.get("case", "")) + ": " + v["message"][:1500])
            print(f"VIOLATION property={pid} replay={p}")
        return 1
    if res.get("units_complete", 0) < res.get("units_total", 0):
        print("check error: incomplete exploration without a confirmed violation")
        return 2
    if res["states"] == 0 or res["transitions"] == 0 or res["traces"] == 0:
        print("check error: vacuous run"); return 2
    return 0
main()
