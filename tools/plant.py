#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: build /verif/seeded/<id>/ from a spec (list BUGS of dicts id, property, needs, what, edits=[(file, old, new)], demo)
and confirm each in a scratch copy: applies, builds, passes the stable tests, demo 0 before / nonzero after; then runs the property's check."""
import difflib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(b, skip_tests=False):
    d = os.path.join(VERIF, "seeded", b["id"])
    w = "/tmp/w/" + b["id"]
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    env = {"PYTHONPATH": w + "/src", "TZ": "UTC", "PYTHONHASHSEED": "0"}
    res = {"id": b["id"]}
    try:
        os.makedirs(d, exist_ok=True)
        with open(d + "/demo.py", "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(d + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\n# run in the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        rc, out = sh(["bash", d + "/demo.sh"], w, env, 300)
        if rc != 0:
            res["error"] = "demo fails on the unchanged tree: " + out[-600:]
            return res
        for fn, old, new in b["edits"]:
            p = os.path.join(w, fn)
            s = open(p).read()
            if s.count(old) != 1:
                res["error"] = "%s: old text occurs %d times: %s" % (fn, s.count(old), old)
                return res
            open(p, "w").write(s.replace(old, new))
        out = []
        for fn in sorted({e[0] for e in b["edits"]}):
            x, y = open("/repo/" + fn).read().splitlines(True), open(os.path.join(w, fn)).read().splitlines(True)
            out += ["diff --git a/%s b/%s\n" % (fn, fn)] + list(difflib.unified_diff(x, y, "a/" + fn, "b/" + fn))
        with open(d + "/patch.diff", "w") as f:
            f.write("".join(out))
        rc, o = sh("git apply --check %s/patch.diff" % d, "/repo")
        if rc:
            res["error"] = ("does not apply: " + o)[:500]
            return res
        with open(d + "/meta.json", "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, f, indent=1)
        rc, o = sh(["bash", d + "/demo.sh"], w, env, 300)
        res["demo"] = rc
        if rc == 0:
            res["error"] = "demo passes with the change"
            return res
        if not skip_tests:
            ts = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + w)
            open(w + "/t.sh", "w").write(ts)
            sh(["bash", w + "/t.sh", w + "/out.json"], w, env)
            passed = set(json.load(open(w + "/out.json"))["passed"])
            if STABLE - passed:
                res["error"] = "tests fail: %s" % sorted(STABLE - passed)[:4]
                return res
        res["caught"] = {}
        for p in [b["property"]] + b.get("also", []):
            if not os.path.exists(VERIF + "/checks/%s.py" % p.lower()):
                res["caught"][p] = "no check"
                continue
            rc, o = sh(["python3", VERIF + "/check.py", p], VERIF, {"VERIF_REPO_SRC": w + "/src", "VERIF_TIER": "quick", "VERIF_SEED": "1", "VERIF_EVIDENCE": w + "/ev"})
            res["caught"][p] = rc if rc == 1 else "MISSED rc=%d %s" % (rc, o[-400:])
            res["why"] = o[:400] if rc == 1 else ""
        return res
    except Exception as e:
        res["error"] = repr(e)
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    bad = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, bugs):
            if "error" in r:
                bad.append(r["id"])
                shutil.rmtree(os.path.join(VERIF, "seeded", r["id"]), ignore_errors=True)
            print(json.dumps(r, indent=1), flush=True)
    print("rejected:", bad)


main()
