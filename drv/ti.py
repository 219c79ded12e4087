import sys, time
from mir import Mir
from prims import P
import verify, contracts, forest, loops
from speclib import SPECS
mir = Mir('/tmp/ex/out.json')
ck = verify.Checker(mir, P, loops.handler)
verbose = "-v" in sys.argv
names = [a for a in sys.argv[1:] if a != "-v"]
for nm, sp in SPECS.items():
    if names and not any(x in nm for x in names): continue
    fn = mir.by_name.get("std::ptr::drop_glue::<%s>" % nm[5:] if nm.startswith("drop ") else nm)
    r = forest.check(ck, fn, sp, verbose=verbose)
    print("%-9s %5.2fs paths %d obl %d q %d  %s %s" % (r.status, r.time, r.paths, r.obl, r.queries, nm, r.reason), flush=True)
    if verbose or r.status == "failed":
        for f in r.fail[:8]: print("     ", f[0], "|", f[2][:300])
