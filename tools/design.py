"""Writes DESIGN.md from design_head.md, design_props.md, design_tail.md and the planted bugs (development only)."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
rd = lambda f: open(os.path.join(here, f)).read()
out = rd("design_head.md") + rd("design_props.md")
out += "\n## 3. Planted bugs and what catches them\n\nIn `seeded/`; each was confirmed to compile, to pass the existing tests and to fail its demonstration. 'Alarms' are all the checks that\nreport it; 'MISSED' would say that its own property's does not.\n\n| bug | needs | alarms |\n|---|---|---|\n"
res = json.load(open(os.path.join(here, "seeds.json"))) if os.path.exists(os.path.join(here, "seeds.json")) else {}
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    al = res.get(d, "?")
    if al != "?" and m["property"] not in al.split(","):
        al = "MISSED " + al
    out += "| %s | %s | %s |\n" % (d, m["needs"].replace("|", "/"), al.replace(",", " "))
out += "\n" + rd("design_tail.md")
open(os.path.join(root, "DESIGN.md"), "w").write(out)
