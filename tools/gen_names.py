#!/usr/bin/env python3
"""Writes sa/names.json: the structures and functions of the library, by which renamed fields,
types and functions are recognised."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import extract, facts
c = facts.load(extract.facts_dir("release"), "starlit.json")
out = {}
for s, d in sorted(c.types.items()):
    if d["k"] == "adt" and d["path"].startswith("starlit::"):
        out[s] = [[v["name"], [[f["name"], f["ty"]] for f in v["fields"]]] for v in d["variants"]]
fns = {f["path"]: [f["exported"], f["inputs"], f["output"]]
       for f in c.d["fns"] if "impl_trait" not in f and "in_trait" not in f}


def table(d):
    return "{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v))
                             for k, v in sorted(d.items())) + "\n}"


with open(os.path.join(HERE, "sa/names.json"), "w") as f:
    f.write('{"types": %s,\n"fns": %s}\n' % (table(out), table(fns)))
print(len(out), len(fns))
