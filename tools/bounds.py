#!/opt/venv/bin/python
"""Writes BOUNDS.md: every slice of every check with its bounds."""
import importlib
import json
import os
import pkgutil
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, H)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import checks

out = ["# Bounds of every slice", "", "Generated by `tools/bounds.py` from the checks themselves. A slice is one symbolic", "execution; `bounds` says what is fixed in it, everything else it reads is symbolic.", "(T) marks slices of the thorough tier only. Times are of a quick run on 8 cores.", ""]
rows = []
for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
    if m.startswith("c_"):
        mod = importlib.import_module("checks." + m)
        for pid, p in mod.PROPS.items():
            rows.append((pid, m, p() if callable(p) else p))
n = 0
for pid, m, p in sorted(rows, key=lambda r: r[0]):
    e = {}
    try:
        e = json.load(open(os.path.join(H, "evidence", pid + ".json")))
    except OSError:
        pass
    out.append("## %s (`checks/%s.py`, %s)" % (pid, m, "%.0f s" % e["wall_s"] if e else "?"))
    out.append("")
    for s in p.slices:
        n += 1
        out.append("* `%s`%s: %s" % (s.name, " (T)" if s.tier == "thorough" else "", s.bounds))
    out.append("")
open(os.path.join(H, "BOUNDS.md"), "w").write("\n".join(out))
print(len(rows), "checks", n, "slices")
