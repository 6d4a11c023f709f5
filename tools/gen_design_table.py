"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | caught by |", "| --- | --- | --- |"]
for f in sorted(glob.glob(top + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
p = top + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", "<!-- seeds -->\n" + t + "\n<!-- /seeds -->")
else:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + t + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
