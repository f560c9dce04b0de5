import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import table
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in table.P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"].strip(),
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
py = "/opt/venv/bin/python -B"
m = dict(version=1, setup_cmd=py + " -m hwsa.selftest", checks=[], not_applicable=[],
         notes="Static analysis only: see DESIGN.md. known_findings.txt lists accepted findings and fixes.")
for p in table.P:
    if p["technique"]:
        c = dict(property=p["id"], quick_cmd="%s -m hwsa.check %s quick" % (py, p["id"]),
                 thorough_cmd="%s -m hwsa.check %s thorough" % (py, p["id"]), technique=p["technique"], level="other", level_note=p["note"])
        m["checks"].append(c)
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("schemas ok,", len(m["checks"]), "checks,", len(m["not_applicable"]), "n/a")
except ImportError:
    print("jsonschema missing")
