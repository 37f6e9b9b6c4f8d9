"""Puts DESIGN.md together: the text in tools/design_*.md and a table of the planted bugs."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
rd = lambda n: open(os.path.join(here, n)).read()
out = rd("design_head.md") + "\n" + rd("design_rows.md")
caught = json.load(open(os.path.join(here, "caught.json")))
ids = sorted(os.listdir(os.path.join(root, "seeded")))
out += ("%d planted bugs are kept in `seeded/`; each breaks one property, builds, passes the 121 stable tests and has a\n"
        "demonstration.  They were written from the property texts and the code; where a check missed one, the generator or\n"
        "the enumeration was strengthened until the class of such bugs, not the one bug, was in reach (boundary values of\n"
        "running CRCs, sizes beyond 2^16, in-place use, equal priorities at the extremes, re-initialisation, ...).  \"Caught by\"\n"
        "names the property's own quick check (seed 1).\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n") % len(ids)
for b in ids:
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"].replace("|", "/"), caught.get(b, "not run"))
out += rd("design_tail.md")
open(os.path.join(root, "DESIGN.md"), "w").write(out)
