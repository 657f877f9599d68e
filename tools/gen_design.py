#!/usr/bin/env python3
"""gen_design.py: rewrite the table of planted bugs in DESIGN.md."""
import json, os, re
S = "/verif/seeded"
missed = """after-reordered-row anyscan-index-batch filter-save-retry gte-nan multi-empty-part after-buffer-early-put
upsert-shared-indexes scan-early-release apply-nosync haschanges-reset user-key-index after-empty-map insp-limit-cap cbor-decmode
upsert-filter-ext after-offset query-zero-first filter-first-scanner anyscan-order dump-long-index datakey-long-order fs-storer-tail""".split()
rows = sorted((json.load(open("%s/%s/meta.json" % (S, b)))["property"], b, json.load(open("%s/%s/meta.json" % (S, b)))["needs"]) for b in os.listdir(S))
extra = json.load(open("/verif/tools/missed.json")) if os.path.exists("/verif/tools/missed.json") else []
missed = set(missed) | set(extra)
t = "| check | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | %s%s | %s |\n" % (p, b, " *" if b in missed else "", n) for p, b, n in rows)
d = open("/verif/DESIGN.md").read()
head = "## Planted bugs\n"
intro = head + "\n%d in `seeded/`, made from specifications in `tools/plants` by `tools/plant.py` (which confirms that they compile, pass the\nbaseline tests and fail their demonstration). Each is caught by the quick check of its property named here\n(`tools/hunt.py`); those marked * were missed at first (or as variants during hunts) and led to the part that catches them now.\n\n" % len(rows)
i = d.find(head)
if i < 0: i = d.index("## Defects found"); d = d[:i] + "\n" + d[i:]
j = d.index("## Defects found")
d = d[:i] + intro + t + "\n" + d[j:]
open("/verif/DESIGN.md", "w").write(d)
