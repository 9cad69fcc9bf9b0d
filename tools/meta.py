"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, check, title, statement, text, why, files, mech, observe, technique, note, over=("inputs", "configurations"), na=None):
    P.append(dict(id=id, check=check, title=title, statement=statement, quantifier={"over": list(over), "text": text},
                  why_tests_cant=why, files=files, mech=mech, observe=observe, technique=technique, note=note, na=na))


L = "code/latte/"
COMMON_NOTE = ("Held on the executions of this run, which the evidence file counts; says nothing about inputs not driven. "
               "Trusts GMP, NTL, cddlib, 4ti2 as installed and the reference implementation in vlib/. ")
SAN = "Every execution runs under AddressSanitizer, UndefinedBehaviorSanitizer and container bounds checks. "

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"],
            "why_tests_cant": p["why_tests_cant"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if p["check"] and os.path.exists(os.path.join(V, "checks", p["check"] + ".py")):
        cmd = "python3 checks/%s.py" % p["check"]
        checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/prebuild.py", "checks": checks, "not_applicable": na,
     "notes": "Checks build /repo/code from the current working tree with sanitizers into /verif/build (content-addressed "
              "objects, git-ignored). No hooks in /repo are used: every oracle observes the programs at their documented interface."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
