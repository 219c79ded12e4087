#!/usr/bin/env python3-vt
"""Records in drv/baseline.json which contracts are proved on the unchanged tree.
Run by hand after a change of the contracts (never by a check)."""
import json, os, sys, tempfile, shutil
import check
tmp = tempfile.mkdtemp()
p, err = check.build_mir(tmp)
assert p, err
check.load(p)
from speclib import SPECS
for s in SPECS.values():
    s.props = s.props + ("ALL",)
want, used, unusable, res = check.verify_prop("ALL", "quick")
ok = sorted(n for n in want if res[n].status == "proved")
json.dump(ok, open(os.path.join(check.HERE, "drv/baseline.json"), "w"), indent=0)
print(len(ok), "proved of", len(want))
for n in want:
    if res[n].status != "proved":
        print(res[n].status, n, res[n].reason, res[n].fail[:1])
print(sum(res[n].obl for n in want), "obligations", sum(res[n].queries for n in want), "queries", round(sum(res[n].solver for n in want)), "s")
shutil.rmtree(tmp)
