#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current working tree.

1. rustc (nightly) compiles /repo, and the exporter writes the MIR of every function the
   public interface reaches (the code that runs, monomorphised over an opaque data type).
2. drv/ generates the proof obligations of the contracts labelled PROP and discharges them (z3).
3. A replay harness, compiled against /repo, looks for a failing input: it turns a failed
   obligation into a concrete history, and is the bounded stand-in for functions which the
   verifier does not decide.
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PY = "/usr/bin/env python3-vt"
NPROC = os.cpu_count() or 4
sys.path.insert(0, os.path.join(HERE, "drv"))


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


# ------------------------------------------------------------------ building
def build_mir(tmp):
    """Exports the MIR; returns (path, None) or (None, reason)."""
    sr = run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    d = os.path.join(tmp, "mir")
    os.mkdir(d)
    ex = os.path.join(d, "exporter")
    procs = [
        ["rustc", "+nightly", "--edition", "2021", "-O", os.path.join(HERE, "exporter/exporter.rs"), "-o", ex],
        ["rustc", "+nightly", "--edition", "2021", "--crate-name", "dendron", "--crate-type", "rlib", "--cap-lints", "allow",
         "--emit=metadata,link", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-C", "debug-assertions=on",
         "-C", "overflow-checks=on", "--cfg", 'feature="std"', REPO + "/src/lib.rs", "--out-dir", d]]
    with cf.ThreadPoolExecutor(2) as p:
        rs = list(p.map(lambda c: run(c, cwd=d), procs))
    for r, w in zip(rs, ("the exporter", "dendron")):
        if r.returncode:
            return None, "%s does not compile: %s" % (w, r.stdout[-600:])
    out = os.path.join(d, "mir.json")
    env = dict(os.environ, DRV_OUT=out, LD_LIBRARY_PATH=sr + "/lib")
    r = run([ex, "--edition", "2021", "--crate-type", "rlib", os.path.join(HERE, "exporter/shim.rs"), "--extern",
             "dendron=" + os.path.join(d, "libdendron.rmeta"), "--sysroot", sr], cwd=d, env=env)
    if r.returncode or not os.path.exists(out):
        return None, "the MIR could not be exported: " + r.stdout[-600:]
    return out, None


def build_harness(tmp):
    src = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), src, ignore=shutil.ignore_patterns("target"))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, "target"))
    r = run(["cargo", "build", "--release", "--offline"], cwd=src, env=env)
    exe = os.path.join(tmp, "target/release/replay")
    if r.returncode or not os.path.exists(exe):
        return None, r.stdout[-1500:]
    return exe, None


# ------------------------------------------------------------------ verifying
MIR = None


def load(path):
    global MIR
    import mir
    import contracts  # noqa
    MIR = mir.Mir(path)


def lookup(name):
    if name.startswith("drop "):
        return MIR.by_name.get("std::ptr::drop_glue::<%s>" % name[5:])
    return MIR.by_name.get(name)


LARGE = ("detach_insert", "close_current", "BreadthFirst", "Shallow")


def variants(name, lemma=False):
    """The parts a contract is checked in: those of large functions are checked apart."""
    import verify
    import prims
    import loops
    if not any(x in name for x in LARGE + (("create_node_as", "replace_with_children") if lemma else ())):
        return [None]
    fn = lookup(name)
    return fn and verify.Checker(MIR, prims.P, loops.handler).variants(fn) or [None]


def one(job):
    name, unusable, limit, only = job
    import verify
    import prims
    import loops
    from speclib import SPECS
    for s in SPECS.values():
        s.usable = s.summary and s.name not in unusable
    fn = lookup(name)
    if fn is None:
        r = verify.Result(name)
        r.status, r.reason = "undecided", "no such function any more"
        return name, r
    r = verify.Checker(MIR, prims.P, loops.handler).check(fn, SPECS[name], limit=limit, only=only)
    r.used = set(r.used)
    return name, r


def lemma(job):
    """The invariant of the forest is preserved by contract `name`."""
    name, only, limit, end = job
    if time.time() > end:
        return name, None
    import forest
    import verify
    import prims
    import loops
    from speclib import SPECS
    fn = lookup(name)
    if fn is None:
        r = verify.Result(name)
        r.status, r.reason = "undecided", "no such function any more"
        return name, r
    return name, forest.check(verify.Checker(MIR, prims.P, loops.handler), fn, SPECS[name], limit=limit, only=only)


def contracts_hash():
    """What the lemmas depend on."""
    h = hashlib.sha256()
    d = os.path.join(HERE, "drv")
    for f in ["forest.py", "world.py", "speclib.py"] + sorted("contracts/" + x for x in os.listdir(os.path.join(d, "contracts")) if x.endswith(".py")):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def lemmas(names, budget, limit, cost=None):
    """name -> Result of the lemmas that could be begun within `budget` seconds."""
    from speclib import SPECS
    import forest
    end = time.time() + budget
    todo = [n for n, s in SPECS.items() if forest.applies(s) and (not names or any(a in n for a in names)) and lookup(n)]
    if cost is not None:
        todo = sorted((n for n in todo if n in cost), key=lambda n: cost[n])
    jobs = [(n, v, limit, end) for n in todo for v in variants(n, True)]
    res = {}
    with mp.get_context("fork").Pool(NPROC, maxtasksperchild=10) as pool:
        for n, r in pool.imap_unordered(lemma, jobs):
            if r is None:
                r = type(next(iter(res.values())))(n) if res else None
                if r is None:
                    continue
                r.status, r.reason = "undecided", "not begun in time"
            if n in res:
                res[n].join(r)
            else:
                res[n] = r
    return {n: res[n] for n in todo if n in res}


def verify_prop(prop, tier):
    """Results of the contracts labelled `prop` and of those they are proved with."""
    from speclib import SPECS
    want = [s.name for s in SPECS.values() if prop in s.props]
    deps = [s.name for s in SPECS.values() if s.summary]
    limit = 150 if tier == "quick" else 600
    unusable, res, stat = set(), {}, {}
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC, maxtasksperchild=40) as pool:
        todo = list(dict.fromkeys(deps + want))
        while todo:
            jobs = [(n, frozenset(unusable), limit, v) for n in todo for v in variants(n)]
            jobs.sort(key=lambda j: j[3] is None)
            for n in todo:
                res.pop(n, None)
            for n, r in pool.imap_unordered(one, jobs):
                if n in res:
                    res[n].join(r)
                else:
                    res[n] = r
            for r in res.values():
                if r.obl == 0 and r.status == "proved":
                    r.status, r.reason = "undecided", "no obligations generated"
            bad = {n for n in deps if res[n].status != "proved"} - unusable
            unusable |= bad
            # whoever was proved with a contract that does not hold is looked at again
            todo = [n for n, r in res.items() if r.used & bad]
    used, queue = set(), list(want)
    while queue:
        for d in res[queue.pop()].used & set(res):
            if d not in used:
                used.add(d)
                queue.append(d)
    return want, used, unusable, res


STRUCTURE = {"parent", "first", "next", "prevc", "nch"}
COUNTS = {"mstrong", "mref", "magg", "ng", "tstrong"}


def concerns(prop, what, name=""):
    """Does the failed obligation `what` (of function `name`) speak about property `prop`?"""
    if prop == "C23" and (what.startswith("outcome") or "allows no outcome" in what or re.match(r"(ret|panic): result", what)):
        return "borrow" in what or "borrow_data" in name
    m = re.match(r"(ret|panic|back|enter): (\w+) of ", what)
    if what.startswith(("lemma", "loop invariant")):
        return prop != "C15"
    if not m:
        if what.startswith("outcome") or "allows no outcome" in what:
            return prop not in ("C01", "C19", "C23")
        return prop not in ("C01", "C19", "C23", "C15") if re.match(r"(ret|panic|back|enter): (result|argument|value)", what) else True
    kind, field = m.groups()
    if kind == "panic":
        return prop in ("C06", "C16", "C23" if field == "data" else "C06", "C19" if field in ("mtree", "root", "own") else "C06")
    if field in STRUCTURE:
        return prop not in ("C14", "C15", "C16", "C17", "C19", "C23", "C24")
    if field in ("mtree", "root", "own"):
        return prop in ("C01", "C02", "C03", "C04", "C05", "C19", "C20", "C21") or field == "own" and prop in ("C17", "C18")
    if field == "data":
        return prop in ("C02", "C20", "C21", "C23")
    if field in COUNTS:
        return prop in ("C14", "C15", "C17")
    if field in ("alive", "talive"):
        return prop in ("C01", "C02", "C04", "C17", "C18")
    return True


# ------------------------------------------------------------------ exploring
def explore(exe, prop, seed, secs, thorough, tmp, parts):
    """Runs the harness on all cores until the time is up."""
    end = time.time() + secs
    tot = {"evaluations": 0, "distinct": 0, "by_suite": {}, "samples": [], "other": 0, "others": [], "crashes": []}
    found = []

    def part(i):
        k = 0
        while time.time() < end and not found:
            out = os.path.join(tmp, "replay-%d-%d.txt" % (i, k))
            ms = max(500, int((end - time.time()) * 1000))
            try:
                r = run([exe, "explore", prop, str(seed + 1000 * k + i + 1), str(ms), "1" if thorough else "0", out,
                         str(i), str(parts)], timeout=ms / 1000 + 120)
                rc, text = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                tot["crashes"].append("the harness did not end")
                return
            try:
                j = json.loads(text.strip().splitlines()[-1])
            except (ValueError, IndexError):
                j = None
            if j is None:
                tot["crashes"].append("exit status %d: %s" % (rc, text[-300:]))
                k += 1
                if k > 5:
                    return
                continue
            tot["evaluations"] += j["evaluations"]
            tot["distinct"] += j["distinct"]
            for n, v in j["by_suite"].items():
                tot["by_suite"][n] = tot["by_suite"].get(n, 0) + v
            tot["samples"] += j["samples"][:1]
            tot["other"] += j["other"]
            tot["others"] += j.get("others", [])[:2]
            if rc == 1 and j["fail"] is not None and os.path.exists(out):
                found.append((out, j["fail"]))
                return
            k += 1
    with cf.ThreadPoolExecutor(parts) as p:
        list(p.map(part, range(parts)))
    return tot, found


def deep(exe, n):
    try:
        r = run([exe, "deep", str(n)], timeout=300)
    except subprocess.TimeoutExpired:
        return "the teardown of a tree of %d nodes did not end" % n
    if r.returncode == 0 and "DEEP ok" in r.stdout:
        return None
    return "the teardown of a tree of %d nodes on a stack of 256 KiB: exit status %d %s" % (n, r.returncode, r.stdout[-300:])


# ----------------------------------------------------------------------- main
def known_findings(prop):
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="dendron-verif-")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        rc = check(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, tmp, t0):
    info = json.load(open(os.path.join(HERE, "drv/info.json")))
    base = json.load(open(os.path.join(HERE, "drv/baseline.json")))
    thorough = tier == "thorough"
    with cf.ThreadPoolExecutor(2) as p:
        f1, f2 = p.submit(build_mir, tmp), p.submit(build_harness, tmp)
        (mpath, merr), (exe, herr) = f1.result(), f2.result()
    notes = []
    failed, undecided, proved, lost = [], [], [], []
    obl = dis = queries = 0
    solver = 0.0
    want, used, unusable, res = [], set(), set(), {}
    if mpath is None:
        notes.append(merr)
    else:
        load(mpath)
        want, used, unusable, res = verify_prop(prop, tier)
        for n in want + sorted(used - set(want)):
            r = res[n]
            obl += r.obl
            dis += max(0, r.obl - len(r.fail))
            queries += r.queries
            solver += r.solver
            if r.status == "proved":
                proved.append(n)
            elif n not in want:
                continue
            elif r.status == "failed" and n in base:
                fs = [x for x in r.fail if concerns(prop, x[0], n)]
                (failed if fs else undecided).append((n, fs or r.fail))
            else:
                undecided.append((n, [(r.reason or r.status, "", "")]))
                if n in base:
                    lost.append(n)
    lem = {}
    if prop == "C01" and mpath is not None:
        rec = json.load(open(os.path.join(HERE, "drv/lemmas.json")))
        cost = {n: c for n, c in rec["proved"].items() if thorough or c < 10}
        lem = lemmas((), 450 if thorough else 90, 400 if thorough else 60, cost)
        ok = [r for r in lem.values() if r.status == "proved"]
        obl += sum(r.obl for r in ok)
        dis += sum(r.obl for r in ok)
        queries += sum(r.queries for r in ok)
        solver += sum(r.solver for r in ok)
        print("  the forest stays well formed: %d lemmas over the contracts proved again, %d not in the time given, %d recorded"
              % (len(ok), len(lem) - len(ok), len(rec["proved"])))
        if rec["contracts"] != contracts_hash():
            notes.append("the contracts have changed since drv/lemmas.json was written (invariants.py)")
    print("%s: %d functions under contract, %d proved, %d failed, %d undecided; %d obligations, %d discharged, %d queries, solver %.1f s"
          % (prop, len(want), len([n for n in want if res[n].status == "proved"]), len(failed), len(undecided), obl, dis, queries, solver))
    for n, fs in failed:
        print("  failed: %s: %s [%s]" % (n, fs[0][0], fs[0][1]))
    for n, fs in undecided:
        print("  undecided (bounded stand-in): %s: %s" % (n, fs[0][0]))
    tot = {"evaluations": 0, "distinct": 0, "by_suite": {}, "samples": [], "other": 0, "others": [], "crashes": []}
    found, crash = [], None
    if exe is None:
        notes.append("the replay harness does not compile against /repo: " + herr[-800:])
    else:
        secs = 240 if thorough else 25 if failed else 14
        if prop in ("C17", "C18"):
            crash = deep(exe, 1000000 if thorough else 100000)
        tot, found = explore(exe, prop, seed, secs, thorough, tmp, NPROC)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + ".txt")
    violation = None
    head = ""
    if failed:
        head = "Failed obligations:\n" + "".join("  %s\n    %s\n      at %s\n      %s\n" % (n, w, at, d)
                                                 for n, fs in failed for w, at, d in fs[:8]) + "\n"
    known = known_findings(prop)
    hits = set()
    if found:
        body = open(found[0][0]).read()
        k = [t for rx, t in known if rx.search(body)]
        if k:
            hits |= set(k)
        else:
            with open(rpath, "w") as f:
                f.write(body + "\n" + head)
            violation = "VIOLATION property=%s replay=%s" % (prop, rpath)
            print("  failing input: " + found[0][1])
    if violation is None and crash and prop in ("C17", "C18"):
        with open(rpath, "w") as f:
            f.write("property: %s\nfailure: %s\nreproduce: replay deep 100000\n\n%s" % (prop, crash, head))
        violation = "VIOLATION property=%s replay=%s" % (prop, rpath)
        print("  " + crash)
    if violation is None and failed and not hits:
        if tot["other"] or tot["crashes"]:
            # The defect shows under another property; nothing says that this one is broken.
            undecided += failed
            notes.append("failed obligations of %s: the inputs found to fail break another property: %s"
                         % (", ".join(n for n, _ in failed), "; ".join(tot["others"][:2])))
        else:
            with open(rpath, "w") as f:
                f.write("property: %s\nNo failing input was found within the search budget.\n\n%s" % (prop, head))
            violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath)
    for t in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    # vacuity guards
    err = None
    if mpath is None and exe is None:
        err = "neither the verifier nor the harness could be built: %s / %s" % (merr, herr)
    elif want and mpath is not None and obl == 0:
        notes.append("no obligations were generated: every contract is undecided here")
    elif exe is not None and tot["evaluations"] == 0 and not tot["crashes"]:
        err = "the harness explored nothing"
    level = info["level"].get(prop, "exploration")
    bounded = sorted({n for n, _ in undecided}) + info["bounded"].get(prop, [])
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": "VERIF_TIER=%s VERIF_SEED=%d python3-vt check.py %s (back end: z3 %s)" % (tier, seed, prop, z3v()),
        "trusted_base": info["trusted"],
        "functions_under_contract": len(want), "functions_proved": len([n for n in want if n in proved]),
        "proved": sorted(n for n in want if n in proved),
        "helper_contracts_proved_and_used": sorted(n for n in used if res[n].status == "proved") if res else [],
        "code_inlined_and_covered": sorted(set().union(*[res[n].inlined for n in want]) if want else [])[:400],
        "paths": sum(res[n].paths for n in want), "solver_queries": queries, "solver_s": round(solver, 2),
        "slowest": [[n, round(res[n].time, 2)] for n in sorted(want, key=lambda n: -res[n].time)[:5]],
        "bounded_stand_ins_not_counted_as_proved": bounded,
        "evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct"], "by_suite": tot["by_suite"],
        "rule": "bounded search with the replay harness: random histories of public operations (2-60 steps), single edits on pairs "
                "of small trees, all ordered trees of up to %d nodes for traversals, builder event sequences; compared with a "
                "reference model after every step; distinct = different (operation, forest) pairs" % (7 if thorough else 6),
        "samples": tot["samples"][:6] or ["(none)"],
        "lemmas_forest_stays_well_formed": {"proved_in_this_run": len([r for r in lem.values() if r.status == "proved"]),
                                            "not_decided_in_this_run": sorted(n for n, r in lem.items() if r.status != "proved")[:40]},
        "explanation": info["explain"].get(prop, ""),
        "notes": notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": info["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("  bounded search: %d cases (%d distinct), %d other failures, %d crashes; %.0f s in all"
          % (tot["evaluations"], tot["distinct"], tot["other"], len(tot["crashes"]), time.time() - t0))
    for n in notes:
        print("  note: " + n[:600])
    if violation:
        print(violation)
        return 1
    if err:
        print("ERROR: " + err)
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
