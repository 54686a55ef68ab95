"""Refreshes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | caught by %s |" % (os.path.basename(os.path.dirname(f)), d["needs"], d["property"]))
s = open(ROOT + "/DESIGN.md").read()
head = "| planted | needs | check |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.find("\n\n", i)
open(ROOT + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + (s[j:] if j >= 0 else "\n"))
