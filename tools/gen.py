import json, os, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
import spec
from props import PROPS
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
with open(V + "/properties.jsonl", "w") as f:
    for s in sorted(spec.SPEC, key=lambda s: s["id"]):
        assert len(s["title"]) <= 80, s["id"]
        n = s["statement"].count(". ") + 1
        assert n <= 3, (s["id"], n)
        f.write(json.dumps({"id": s["id"], "title": s["title"], "statement": s["statement"],
            "quantifier": {"over": s["over"], "text": s["text"]}, "why_tests_cant": s["why"],
            "anchors": {"files": s["files"], "mechanism": [{"name": a, "where": b} for a, b in s["mech"]]}}) + "\n")
        for x in s["files"]:
            assert os.path.exists("/repo/" + x), x
checks = []
na = list(spec.NOT_APPLICABLE)
for s in sorted(spec.SPEC, key=lambda s: s["id"]):
    if s["id"] in PROPS:
        checks.append({"property": s["id"], "quick_cmd": "python3 check.py %s" % s["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % s["id"],
            "technique": spec.TECH % s["tech"], "level": "model_checking", "level_note": s["note"]})
    else:
        na.append({"property": s["id"], "reason": s.get("na", "no check built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
kf = []
used = set()
for p, frag, what in spec.FIXED:
    hits = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix:") and frag in l]
    assert len(hits) == 1, (p, frag, hits)
    used.add(hits[0])
    kf.append({"status": "fixed", "property": p, "commit": hits[0], "record": "fixed: property=%s %s %s" % (p, hits[0], what)})
for l in log:
    if " fix:" in l and l.split()[0] not in used:
        print("UNRECORDED", l); 
for k in spec.KNOWN:
    d = {"status": "known"}; d.update(k); kf.append(d)
json.dump(kf, open(V + "/known_findings.json", "w"), indent=1)
