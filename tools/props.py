"""Generates /verif/properties.jsonl and /verif/MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CK = "src/ics/"
TS, EV, TD, TL = CK + "timespan.py", CK + "event.py", CK + "todo.py", CK + "timeline.py"
CC, CP = CK + "contentline/container.py", CK + "contentline/parser.py"
TXT, VB, VD, VG, VS = (CK + "valuetype/" + x for x in ("text.py", "base.py", "datetime.py", "generic.py", "special.py"))
CB, CO, CV = CK + "converter/base.py", CK + "converter/component.py", CK + "converter/value.py"
CTS, CTC, CTV, CTO = (CK + "converter/types/" + x for x in ("timespan.py", "calendar.py", "various.py", "other.py"))
COMP, CAL, AL, AT, RR, TY, UT, GEO = (CK + x for x in ("component.py", "icalendar.py", "alarm.py", "attendee.py", "rrule.py", "types.py", "utils.py", "geo.py"))
TZ, TZC = CK + "timezone/__init__.py", CK + "timezone/converters.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "props_data.py"), encoding="utf-8").read())

TECH = "static analysis: trace-partitioning abstract interpretation of the source (%s)"
NOTE = ("Sound for the abstract inputs named in DESIGN.md relative to the models of the standard library and of attrs/dateutil; %s "
        "The source is parsed on every run and never imported or executed.")


def main():
    props, checks, na = [], [], []
    for p in P:
        have = os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
        if not have and p["na"] is None:
            print("no check yet:", p["id"], p["title"])
            continue
        assert len(p["title"]) <= 80, p["id"]
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                      "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
        if p["na"] is not None:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                           "technique": TECH % p["technique"], "level": "other", "level_note": NOTE % p["note"]})
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks. Each check parses /repo/src/ics on every run; known findings in known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
