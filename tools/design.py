#!/usr/bin/env python3
# DESIGN.md = design/head.md + table of properties + design/tail.md (with the lists of planted bugs and repaired defects)
import glob, json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(H + "/tools/design_head.md").read(); tail = open(H + "/tools/design_tail.md").read()
table = subprocess.run([sys.executable, H + "/tools/design_table.py"], stdout=subprocess.PIPE, text=True, check=True).stdout
seeds = "| bug | property | what it breaks | needs |\n|---|---|---|---|\n"
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); seeds += f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |\n"
fixed = "".join("- " + x[7:] + "\n" for x in json.load(open(H + "/known_findings.json"))["fixed"])
open(H + "/DESIGN.md", "w").write(head + table + tail.replace("@SEEDS@", seeds).replace("@FIXED@", fixed))
