"""Regenerate the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs the checks did not see when they were planted, and what was strengthened
FIRST_MISSED = {"s19-principal-missing": "missed at first: the specification said nothing of a depth without data"}
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    c = m["property"] + (" (%s)" % FIRST_MISSED[i] if i in FIRST_MISSED else "")
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], c))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
