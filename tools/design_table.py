#!/usr/bin/env python3
# prints the per-property table of DESIGN.md from properties.jsonl, the harness headers and the evidence of the last run
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def hdr(i):
    d = {}
    for l in open(f"{H}/harness/{i}.cpp"):
        m = re.match(r"// *([a-z-]+): (.*)", l)
        if m: d.setdefault(m.group(1), m.group(2).strip())
    return d
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); h = hdr(p["id"])
    print(f"### {p['id']} {p['title']}\n")
    print(p["statement"] + "\n")
    if h.get("needs"): print(f"- real code linked: headers and `{h['needs']}`")
    print(f"- bounds: {h.get('bounds-quick') or h.get('bounds')}")
    if h.get("bounds-thorough"): print(f"- thorough: {h['bounds-thorough']}")
    print(f"- outside: {h.get('outside','nothing')}")
    if h.get("assume"): print(f"- assumes: {h['assume']}")
    print()
