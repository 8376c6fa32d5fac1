"""Writes DESIGN.md from tools/design.md, tools/design.json, the harness modules, and
seeded/*/meta.json (run with /opt/venv/bin/python)."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True

more = json.load(open(os.path.join(V, "tools", "design.json")))
out = [open(os.path.join(V, "tools", "design.md")).read()]
metas = [
    (os.path.basename(d), json.load(open(os.path.join(d, "meta.json"))))
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*")))
]
missed = {}
path = os.path.join(V, "tools", "missed.json")
if os.path.exists(path):
    missed = json.load(open(path))
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid not in more:
        continue
    m = importlib.import_module("harness." + pid.lower())
    oracle, why = more[pid]
    out.append(f"\n### {pid} {p['title']}\n\n{oracle}  *Beyond the tests:* {why}\n\nHarnesses and their bounds:\n\n")
    for h in m.HARNESSES:
        doc = (h["fn"].__doc__ or "").strip().split("\n")[0]
        out.append(f"* `{h['fn'].__name__}`" + (f" ({doc.rstrip('.')})" if doc else "") + f": {h.get('bounds', '')}\n")
    out.append("* Assumed: " + "; ".join(" ".join(a.split()) for a in m.ASSUMPTIONS) + "\n")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
out.append("\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
for sid, meta in metas:
    by = missed.get(sid, meta["property"])
    out.append(f"| {sid} | {meta['property']} | {meta['needs']} | {by} |\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
