#!/usr/bin/env python3
"""Lists the planted bugs by property, for DESIGN.md."""
import collections
import json
import os

# missed when first tried
MISSED = """c01-busy-flag c01-depth-leak c01-indent-static c01-nav-large c01-scratch-reentrant c01-width-cache
c03-combining c03-int-sign c03-long-text c03-seq-256 c03-spare-capacity c04-named-reuse c09-wide-parent c10-clone-from
c10-long-name c10-num-copy c11-long-quote c11-negative c21-long-names
c01-name-panic-lock c01-text-buffer c02-empty-message c02-first-line c05-name-len c08-idx-16 c09-pairs-lens
c11-long-field c21-newline-name c22-config-cache c22-thread-slots
c02-u16-seq c11-long-blob c21-vec-block c23-seq-cap""".split()

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
by = collections.defaultdict(list)
for d in sorted(os.listdir(here)):
    by[json.load(open(os.path.join(here, d, "meta.json")))["property"]].append(d)
for p in sorted(by):
    print("* **" + p + "**: " + ", ".join(d[4:] + ("*" if d in MISSED else "") for d in by[p]))
