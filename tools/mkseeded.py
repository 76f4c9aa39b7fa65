# Writes the table of planted bugs (section 5 of DESIGN.md) from seeded/*/meta.json.
import json, pathlib, re
here = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(here.glob("seeded/*/meta.json")):
    d = json.loads(f.read_text())
    rows.append("| %s | %s%s | %s | %s |" % (f.parent.name, d["property"], (" `%s`" % d["caught_as"]) if d.get("caught_as") else "", d["what_it_breaks"], d["needs"]))
p = here / "DESIGN.md"
s = p.read_text()
b, e = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
t = b + "\n".join(rows) + "\n" + e
if "SEEDED_TABLE\n" in s:
    s = s.replace("SEEDED_TABLE\n", t)
else:
    s = s[:s.index(b)] + t + s[s.index(e) + len(e):]
p.write_text(s)
