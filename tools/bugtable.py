"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | caught by | it breaks | it needs |\n|---|---|---|---|")
for s in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
    print("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
