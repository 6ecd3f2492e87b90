"""Regenerate DESIGN.md's seeds table from seeded/*/meta.json (development helper; no check uses it)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| planted bug | property | needs |\n|---|---|---|\n"
rows = ""
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows += f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |\n"
i = s.index(head) + len(head)
j = i
while s[j:j + 2] == "| ":
    j = s.index("\n", j) + 1
open(p, "w").write(s[:i] + rows + s[j:])
