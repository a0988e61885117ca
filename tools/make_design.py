"""Refresh the table of planted bugs in DESIGN.md (run by hand after adding one)."""
import json, glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |")
p = here + "/DESIGN.md"
s = open(p).read()
head = "| planted bug | property | needs |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = s.index("\nAll of them are reported")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
