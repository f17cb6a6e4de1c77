"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"]))
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
t = a + "| change | what it breaks | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n" + b
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
