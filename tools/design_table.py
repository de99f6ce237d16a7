"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    f = re.findall(r"^\+\+\+ b/(\S+)", open(os.path.dirname(d) + "/patch.diff").read(), re.M)
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {', '.join(f)} | {m['needs'].rstrip('.')} |")
p = V + "/DESIGN.md"
s = open(p).read()
h = "| bug | property | file | needs |\n|---|---|---|---|\n"
i = s.index(h) + len(h)
j = i
while s.startswith("|", j):
    j = s.find("\n", j) + 1 or len(s)
s = s[:i] + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows), "planted bugs")
