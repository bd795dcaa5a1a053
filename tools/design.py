"""DESIGN.md from the specification, the fixes, the findings and the planted bugs."""
import glob, json, os, re, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
import spec
from props import PROPS
from design_text import INTRO, METHOD, NOTES, OUTRO
kf = json.load(open(V + "/known_findings.json"))
o = [INTRO]
o.append("## The properties\n")
for s in sorted(spec.SPEC, key=lambda s: s["id"]):
    i = s["id"]
    src = ", ".join("`src/%s`" % x for h in PROPS[i]["harness"] for x in h["sources"])
    app = sorted({a for h in PROPS[i]["harness"] for a in h.get("apps", [])})
    secs = [m for h in PROPS[i]["harness"] for x in h["sources"] for m in re.findall(r"^VF_SECTION\((\w+)\)", open(V + "/src/" + x).read(), re.M)]
    m = METHOD.get(i, {})
    o.append("### %s. %s\n" % (i, s["title"]))
    o.append("*Runs* %s; harness %s.\n" % ("the real `%s` program, rebuilt from /repo" % app[0] if app else "the real library, rebuilt from /repo under AddressSanitizer and library assertions", src))
    o.append("*Enumerated:* %s.\n" % s["text"])
    if m.get("oracle"): o.append("*Oracle:* %s\n" % m["oracle"])
    o.append("*Why tests cannot:* %s\n" % s["why"])
    o.append("*Bounds and trust:* %s%s\n" % (s["note"], " " + m["bounds"] if m.get("bounds") else ""))
    o.append("*Sections:* %s.%s\n" % (", ".join(secs), " *Cost:* " + m["cost"] if m.get("cost") else ""))
    n = [k for k in kf if k["property"] == i and k["status"] == "fixed"]
    if n: o.append("*Defects found and repaired:* %d (listed below).\n" % len(n))
o.append(NOTES)
o.append("## Defects repaired\n\nEach is one `fix:` commit in /repo, recorded in `known_findings.json`; a fixed entry suppresses nothing.\n")
o.append("| property | commit | what failed |\n|---|---|---|")
for k in kf:
    if k["status"] == "fixed": o.append("| %s | %s | %s |" % (k["property"], k["commit"], k["record"].split(k["commit"] + " ", 1)[1].replace("|", "\\|")))
o.append("\n## Known findings (recorded, not repaired)\n")
for k in kf:
    if k["status"] == "known": o.append("* %s, section `%s`, case `%s`: %s" % (k["property"], k["section"], k["case"], k["what"]))
o.append("\n## Planted bugs\n\nWritten from the property's text and the code; each compiles and passes the 128 stable tests. \"Found by\" is the check that reports it (measured with the checks as committed).\n")
o.append("| id | property | what it breaks | needs | found by |\n|---|---|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = f.split("/")[-2]
    o.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "\\|"), d["needs"].replace("|", "\\|"), d.get("found_by", d["property"])))
o.append("\n" + OUTRO)
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
