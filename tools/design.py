"""DESIGN.md from its head, the properties, the planted bugs, and its tail"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
table = json.load(open(V + "/rules/table.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
from tools import spec
out = [open(V + "/tools/design_head.md").read().rstrip() + "\n"]
out.append("## Properties and how each is decided\n")
for p in spec.P:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*Quantifies* %s. %s\n" % (p["qtext"], p["why"]))
    out.append("*Rule:* " + p["rule"] + "\n")
    out.append("*Method and bounds:* %s%s\n" % (p["technique"], "; " + p["note"] if p.get("note") else ""))
    out.append("*Parts:*\n")
    for part in p["parts"]:
        mod, fn = part[0].split(".")
        doc = (getattr(importlib.import_module("rules." + mod), fn).__doc__ or "").strip().split("\n")[0]
        out.append("* `%s`: %s%s" % (part[0], doc, " (findings %s)" % ", ".join(part[1]) if len(part) > 1 else ""))
    out.append("")
out.append("## Not applicable\n")
for n in spec.NA:
    out.append("* %s %s: %s" % (n["id"], n["title"], n["reason"]))
out.append("\n## Planted bugs\n\nAll in /verif/seeded; each was confirmed with its demonstration, the stable tests and its property's check (`vcheck`).\n")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    out.append("* `%s` (caught by %s): needs %s; %s." % (d, m["property"], m["needs"], m["what_it_breaks"]))
out.append("\nBesides these, about 400 smaller edits (bugs and behaviour-preserving refactorings) were tried on scratch copies while the rules were written.\n")
out.append(open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
