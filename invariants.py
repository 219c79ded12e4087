#!/usr/bin/env python3-vt
"""Proves for every contract that it leads from a well-formed forest to a well-formed forest (drv/forest.py).
By hand: invariants.py [NAME...].  Without names it rewrites drv/lemmas.json, which the check of C01 takes the order of
the lemmas from (cheap ones are proved again in every run, all of them in a thorough one)."""
import sys, tempfile, shutil, time, json, os
import check


def main():
    tmp = tempfile.mkdtemp()
    p, err = check.build_mir(tmp)
    assert p, err
    check.load(p)
    t0 = time.time()
    res = check.lemmas([a for a in sys.argv[1:]], 1e9, 3000)
    for n, r in res.items():
        print("%-9s %6.1fs paths %d obl %d %s %s %s" % (r.status, r.time, r.paths, r.obl, n, r.reason, [(f[0], f[2][:200]) for f in r.fail[:3]]))
    ok = [n for n in res if res[n].status == "proved"]
    print(len(ok), "of", len(res), sum(r.obl for r in res.values()), "obligations", round(sum(r.time for r in res.values())), "s cpu", round(time.time() - t0), "s")
    if len(sys.argv) == 1:
        d = {n: round(res[n].time, 1) for n in sorted(ok)}
        with open(os.path.join(check.HERE, "drv/lemmas.json"), "w") as f:
            json.dump({"contracts": check.contracts_hash(), "proved": d}, f, indent=0)
    shutil.rmtree(tmp)


main()
