#!/usr/bin/env python3
"""check.py <property-id> [--replay FILE]

Decides one property by abstract interpretation of /repo/src (never imported,
never executed).  Exit 0: every obligation holds on every trace partition that was
analysed; exit 1 + "VIOLATION property=<id> replay=<path>": an obligation fails;
exit 2: the analysis itself is broken.
"""
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or sys.flags.dont_write_bytecode == 0:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)

LIMITS = {"quick": (6000, 200), "thorough": (200000, 780)}
MIN_PATHS = 1


def known_findings():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            # finding: property=<id> tag=<tag> <what fails>
            parts = line.split(None, 3)
            pid = parts[1].split("=", 1)[1]
            tag = parts[2].split("=", 1)[1]
            out.setdefault(pid, {})[tag] = parts[3] if len(parts) > 3 else ""
    return out


def main(argv):
    t0 = time.time()
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMITS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from absint import run
    mod = importlib.import_module("checks." + pid.lower())
    known = known_findings().get(pid, {})
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, "replay-%s.json" % pid)
    if os.path.exists(replay) and "--replay" not in argv:
        os.remove(replay)
    try:
        world = run.World(tier, known)
    except BaseException as e:  # the sources cannot be interpreted at all
        loc = getattr(e, "_ai_loc", None)
        msg = "%s: %s" % (type(e).__name__, e)
        if isinstance(e, run.AnalysisError):
            print("ANALYSIS-BROKEN %s %s" % (msg, loc or ""))
            return 2
        if isinstance(e, Exception):
            print("importing the library fails: %s at %s" % (msg, loc))
            print("ANALYSIS-BROKEN")
            if os.environ.get("AI_DEBUG"):
                raise
            return 2
        raise
    scens = mod.scenarios(tier)
    if len(argv) > 3 and argv[2] == "--replay":
        rep = json.load(open(argv[3]))
        s = [s for s in scens if s.name == rep["scenario"]][0]
        _, st, info, _ = world.run_path(s.fn, rep["script"], s.args)
        print(st, json.dumps(info, indent=1, ensure_ascii=False))
        return 1 if st == "violation" else 0
    if len(argv) > 3 and argv[2] == "--only":
        scens = [s for s in scens if argv[3] in s.name]
    limit, secs = LIMITS[tier]
    res = run.run_scenarios(world, scens, limit, secs)
    viol, soft, unknown = [], [], []
    for r in res:
        for v in r["violations"]:
            viol.append(dict(v, scenario=r["name"]))
        for t in r["soft"]:
            if t not in soft:
                soft.append(t)
        unknown += [dict(u, scenario=r["name"]) for u in r["unknown"]]
    lint = []
    if hasattr(mod, "structural"):
        lint = mod.structural(world)
        for v in lint[1]:
            viol.append({"scenario": "structural", "message": v, "where": v, "choices": [], "facts": [], "script": []})
    for t in soft:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, t, known.get(t, "")))
    reached = sorted({q for r in res for q in r["reached"]})
    sites = sorted({q for r in res for q in r["callsites"]})
    tot = {k: sum(r[k] for r in res) for k in ("paths", "ok", "skip", "empty", "obligations", "steps")}
    cov = {
        "explanation": "abstract interpretation of the current source of /repo/src/ics: each scenario is evaluated over abstract instants (linear forms over integer atoms), "
                       "opaque text and opaque zones; every undecided branch splits the trace partition, partitions whose constraint polyhedron is empty are dropped, and the "
                       "property's obligations are decided on each remaining partition.",
        "rule": getattr(mod, "RULE", mod.__doc__ or ""),
        "scenarios": len(res),
        "partitions_analysed": tot["paths"],
        "partitions_with_obligations_decided": tot["ok"],
        "partitions_outside_precondition": tot["skip"],
        "empty_partitions": tot["empty"],
        "obligations_decided": tot["obligations"],
        "abstract_steps": tot["steps"],
        "functions_reached": len(reached),
        "call_sites_reached": len(sites),
        "functions": reached,
        "per_scenario": [{k: r[k] for k in ("name", "paths", "obligations", "truncated", "time")} for r in res],
        "not_analysed": [{"scenario": u["scenario"], "why": u["message"], "where": u["where"]} for u in unknown[:20]],
        "exhaustive": not any(r["truncated"] for r in res) and not unknown,
        "known_findings_seen": soft,
    }
    if lint:
        cov["structural"] = lint[0]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ["library models of datetime, re, attr, typing, enum, contextlib, dateutil.tz/rrule (see DESIGN.md)",
                          "text markers stand for ordinary text without structural characters; time zones have one constant offset unless a scenario says otherwise"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(evdir, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if viol:
        seen = set()
        with open(replay, "w", encoding="utf-8") as f:
            json.dump(dict(viol[0], property=pid, all=viol[:30]), f, indent=1, ensure_ascii=False)
        for v in viol:
            k = (v["scenario"], v["message"][:60])
            if k in seen:
                continue
            seen.add(k)
            print("  [%s] %s\n     at %s" % (v["scenario"], v["message"], v["where"]))
            for c in v["choices"][-8:]:
                print("     | " + c)
            if len(seen) >= 6:
                break
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    for u in unknown[:5]:
        print("NOT-ANALYSED [%s] %s at %s" % (u["scenario"], u["message"], u["where"]))
    if tot["obligations"] == 0 or any(r["obligations"] == 0 and not r["unknown"] for r in res):
        print("ANALYSIS-BROKEN: a scenario decided no obligation: %s" % [r["name"] for r in res if r["obligations"] == 0])
        return 2
    print("OK property=%s scenarios=%d partitions=%d obligations=%d functions=%d wall=%.1fs%s" % (pid, len(res), tot["paths"], tot["obligations"], len(reached), time.time() - t0,
          "" if cov["exhaustive"] else " (bounded)"))
    return 0


if __name__ == "__main__":
    rc = []

    def go():
        try:
            rc.append(main(sys.argv))
        except BaseException:
            import traceback
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
