"""Writes DESIGN.md from tools/design.tmpl.md and the recorded results in tools/bugs.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = json.load(open(V + "/tools/bugs.json"))
t = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    t += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], bugs.get(b, "?"))
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design.tmpl.md").read().replace("@@BUGS@@", t))
