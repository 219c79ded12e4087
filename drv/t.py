import sys, time
sys.path.insert(0, "/verif/drv")
from mir import Mir
from prims import P
import verify, contracts
from speclib import SPECS
mir = Mir('/tmp/ex/out.json')
try:
    import loops; H = loops.handler
except ImportError:
    H = None
ck = verify.Checker(mir, P, H)
verbose = "-v" in sys.argv
names = [a for a in sys.argv[1:] if a != "-v"]
for nm, sp in SPECS.items():
    if names and not any(x in nm for x in names): continue
    if nm.startswith("drop "):
        fn = mir.by_name.get("std::ptr::drop_glue::<%s>" % nm[5:])
    else:
        fn = mir.by_name.get(nm)
    if fn is None:
        print("MISSING", nm); continue
    r = ck.check(fn, sp, verbose)
    print("%-9s %5.2fs paths %d obl %d q %d  %s %s" % (r.status, r.time, r.paths, r.obl, r.queries, nm, r.reason))
    if verbose or r.status == "failed":
        for f in r.fail[:40]: print("     ", f[0], "|", f[1], "|", f[2][:700])
