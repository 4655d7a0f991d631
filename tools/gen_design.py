#!/usr/bin/env python3
"""Assembles DESIGN.md from design_head.md, the rules and the seeds."""
import glob, importlib, json, os, re, sys, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
out = []
muts = []
for f in sorted(glob.glob(os.path.join(HERE, "mutants_*.txt"))):
    for line in open(f):
        if line.startswith("@ "):
            p = [x.strip() for x in line[2:].split("|")]
            muts.append((p[0], p[1].replace(",", " ").split(), p[2]))
head = open(os.path.join(HERE, "design_head.md")).read()
head = head.replace("@BUG@", str(sum(m[2] == "bug" for m in muts)))
head = head.replace("@SAME@", str(sum(m[2] == "same" for m in muts)))
out.append(head.rstrip() + "\n")
seeds = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    seeds.append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
out.append("### Planted bugs\n\n| seed | caught by | what it breaks | needs |\n|-|-|-|-|")
for n, m in seeds:
    cut = lambda s: " ".join(s.split()).replace("|", "\\|")
    out.append("| %s | %s | %s | %s |" % (n, m["property"], cut(m["what_it_breaks"]), cut(m["needs"])))
out.append("\n## Properties\n")
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    pid = p["id"]
    out.append("### %s %s\n" % (pid, p["title"]))
    if pid in na:
        out.append("Not claimed. " + na[pid] + "\n")
        continue
    m = importlib.import_module("sa.rules." + pid.lower())
    out.append("*%s* — %s\n" % (getattr(m, "TECHNIQUE", "abstract interpretation of compiler MIR"),
                                getattr(m, "RULE", "").rstrip(".") + "."))
    out.append((m.__doc__ or "").strip() + "\n")
    if getattr(m, "ASSUMES", None):
        out.append("Assumes: " + "; ".join(m.ASSUMES) + ".\n")
    mine = [x for x in muts if pid in x[1]]
    b = [x[0] for x in mine if x[2] == "bug"]
    s = [x[0] for x in mine if x[2] == "same"]
    if b:
        out.append(textwrap.fill("Catches (mutants): " + ", ".join(b) + ".", 110, break_on_hyphens=False,
                                 break_long_words=False) + "\n")
    if s:
        out.append(textwrap.fill("Quiet on: " + ", ".join(s) + ".", 110, break_on_hyphens=False,
                                 break_long_words=False) + "\n")
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "parts")
