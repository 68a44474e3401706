#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from props_data.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.dont_write_bytecode = True
sys.path.insert(0, H)
from props_data import P

assert len({p["id"] for p in P}) == len(P)
TECH = "symbolic execution of the real code (C kernels from clang LLVM IR, Python sources run on symbolic values); negated property decided by SMT (Z3) / exact polynomial normalisation over all values within bounds; counterexamples replayed on native code"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=[], not_applicable=[])
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    else:
        m["checks"].append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % p["id"], thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % p["id"], technique=TECH, level="model_checking", level_note=p["note"]))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for ln in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(ln), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid", len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
except ImportError:
    pass
