"""The invariant of the forest: every contract, taken as what the operation does, leads from a well-formed forest to a
well-formed forest, and keeps what the other handles and locks rely on.

These are lemmas over the contracts (which the code is proved to satisfy elsewhere): for an arbitrary node, pair of nodes and
tree of the forest that a contract leaves, the clauses of world.py are proved from those of the forest it found."""
import time
import z3
from val import *
from world import World, SIG
from engine import Infeasible, SpecPanic, FIELDS, UNIT
from speclib import S, Rel, SPECS
from verify import Args, Result

HUGE = 10 ** 30         # bounds of counters are assumptions, not part of the invariant
STRUCTURE = ("parent", "first", "next", "prevc", "nch", "rt", "o", "c", "idx", "dep")


class After(World):
    """The forest a state describes, in the vocabulary of world.py."""
    big = HUGE

    def __init__(self, e, st):
        World.__init__(self)
        self.e, self.st = e, st

    def f(self, n):
        r = self.fs.get(n)
        if r is None:
            vk = FIELDS[n][1]
            up = zb if vk == "B" else zi if vk == "I" else (lambda v: v)
            memo = {}

            def go(t):
                v = memo.get(t.get_id())
                if v is None:
                    v = memo[t.get_id()] = (up(self.e.select_term(self.st, n, t)), t)
                return v[0]
            r = self.fs[n] = go
        return r


def written(st, names):
    return any(st.heap.get(n) is not None for n in names)


def near(w, x):
    f = w.f
    p, fc = f("parent")(x), f("first")(x)
    return [x, p, fc, f("next")(x), f("prevc")(x), f("rt")(x), f("prevc")(fc), f("first")(p), f("prevc")(f("first")(p))]


def flat(cs):
    for c in cs:
        if z3.is_and(c):
            yield from flat(c.children())
        else:
            yield c


def handles(e, v, ty, cond, out):
    """The handles, tree references and tokens in a value: (kind, object, condition)."""
    if v is None:
        return
    t = e.types[ty]
    nm = t["name"]
    if isinstance(v, Sym):
        for i, fs in v.alts.items():
            handles(e, Agg(i, fs), ty, zand(cond, eqv(v.d, i)), out)
        return
    k = nm.split("<")[0].split("::")[-1]
    if nm.endswith("<T>") and k in HANDLES:
        x = v
        while isinstance(x, Agg):
            if not x.f:
                raise Unsupported("handle " + nm)
            x = x.f[0]
        if x is None:
            return
        if not isinstance(x, Rc):
            raise Unsupported("handle %s: %r" % (nm, x))
        out.append((k, x.t, cond))
        return
    c = e.cls(ty)
    if c[0] == "ptr":
        return
    if isinstance(v, Rc):
        if v.k == "T" and not v.weak:
            out.append(("Tree", v.t, cond))
        return
    if isinstance(v, Agg):
        vs = t.get("v")
        if c[0] == "struct" or v.var is None:
            tys = c[1] if c[0] == "struct" else [c[1]] if c[0] == "cell" else None
        else:
            tys = [f[1] for f in vs[v.var]["f"]]
        if tys is None or len(tys) != len(v.f):
            raise Unsupported("value of type " + nm)
        for x, y in zip(v.f, tys):
            handles(e, x, y, cond, out)
        return
    if isinstance(v, (Opq, Guard, Ptr)) or isz(v) or isinstance(v, (int, bool)) or v is None:
        return
    raise Unsupported("value %r of type %s" % (v, nm))


HANDLES = ("Node", "HotNode", "FrozenNode", "NodeLink", "Tree", "HierarchyEditGrant", "HierarchyEditProhibition")
NODES = ("Node", "HotNode", "FrozenNode", "NodeLink")
LOCKED = ("HotNode", "FrozenNode")
TOKENS = {"HierarchyEditGrant": 1, "HierarchyEditProhibition": -1}


def tally(hs, kinds, x):
    return zsum([z3.If(zb(zand(c, y == x)), 1, 0) for k, y, c in hs if k in kinds])


def zsum(xs):
    return z3.Sum(xs) if xs else z3.IntVal(0)


def addresses(st, names, bulk=()):
    """The nodes (trees) one of the fields is written at."""
    res = {}
    for nm in names:
        w = st.heap.get(nm)
        while w is not None:
            if w.pred is None:
                res[w.a.get_id()] = w.a
            elif nm not in bulk:
                raise Unsupported("bulk write of " + nm)
            w = w.up
    return list(res.values())


def hold(e, s, m):
    """Two nodes of a tree that hold a lock are counted separately."""
    ns = [z for k, z in s.touched.values() if k == "N"]
    f = m.f
    for i, a in enumerate(ns):
        for b in ns[:i]:
            t = f("mtree")(a)
            e.assume(s, z3.Implies(zand(a != b, *[c for z in (a, b) for c in (
                z != NULL["N"], f("alive")(z), f("mstrong")(z), f("magg")(z) > 0, f("mtree")(z) == t)]),
                z3.Or(f("ng")(t) >= 2, f("ng")(t) <= -2)))


def goals(e, st, st0, before, after):
    """[(property, name, formula, state with the facts needed)]"""
    w = st.worlds[-1]
    x, y, t = z3.Const("someN", N), z3.Const("otherN", N), z3.Const("someT", T)
    old = [z for k, z in st.touched.values() if k == "N"]
    out = []

    def facts(ns, ts, pairs):
        s = st.copy()
        for z in ns:
            for v in near(w, z):
                e.touch(s, "N", v)
        for z in old:
            for v in near(w, z)[1:6]:
                e.touch(s, "N", v)
        for v in ts:
            e.touch(s, "T", v)
        for v in [w.f("mtree")(z) for z in list(ns) + old]:
            e.touch(s, "T", v)
        for i, a in enumerate(pairs):
            for b in pairs[:i]:
                for c in w.wf_pair(a, b):
                    e.assume(s, c)
        return s
    structural = written(st, STRUCTURE)
    n, m = After(e, st), After(e, st0)
    if structural or written(st, ("mtree", "alive", "talive", "root")):
        s = facts([x], [], [x, w.f("parent")(x)] + old)
        g = n.f("alive")(x)
        for j, b in enumerate(flat(n.links(x))):
            out.append(("links", "node %d" % j, z3.Implies(g, b), s))
        out.append(("links", "node", z3.Implies(g, x != NULL["N"]), s))
        s = facts([], [t, w.f("mtree")(w.f("root")(t))], old)
        e.touch(s, "N", w.f("root")(t))
        for j, b in enumerate(flat(n.tree_links(t))):
            out.append(("links", "tree %d" % j, z3.Implies(n.f("talive")(t), b), s))
    if structural:
        s = facts([x, y], [], [x, y, w.f("parent")(x), w.f("parent")(y)] + old)
        for j, c in enumerate(n.wf_pair(x, y)):
            out.append(("links", "pair %d" % j, c, s))
    # the ledger
    s = facts([x], [t], [])
    for k, h, c in before:
        if k in NODES:
            e.touch(s, "N", h)
    hold(e, s, m)
    was, now = m.f("alive")(x), n.f("alive")(x)
    any_ = z3.Or(was, now)
    mref, magg = (lambda q, z: z3.If(z3.And(any_, q.f("mstrong")(z)), q.f("mref")(z), 0)), (lambda q, z: z3.If(z3.And(any_, q.f("mstrong")(z)), q.f("magg")(z), 0))
    d = lambda kinds, z: tally(after, kinds, z) - tally(before, kinds, z)
    before0 = lambda f: z3.If(was, f(m, x), 0)
    out.append(("ledger", "references to a node are its handles", z3.Implies(any_, mref(n, x) == before0(mref) + d(NODES, x)), s))
    out.append(("ledger", "locks of a node are its locking handles", z3.Implies(any_, magg(n, x) == before0(magg) + d(LOCKED, x)), s))
    out.append(("ledger", "a membership is strong iff there are handles",
                z3.Implies(now, n.f("mstrong")(x) == (mref(n, x) >= 1)), s))
    out.append(("ledger", "a node dies only with its tree",
                z3.Implies(z3.And(was, z3.Not(now)), z3.Not(n.f("talive")(n.f("mtree")(x)))), s))
    moves = st.x.get("moves", ())
    if len(moves) > 1:
        raise Unsupported("several moves")
    ad = addresses(st, ("mstrong", "mtree", "mref", "magg", "alive"), ("mtree", "alive") if moves else ("alive",))
    for k, h, c in before + after:
        if k in NODES and not any(h.eq(a) for a in ad):
            ad.append(h)
    leaf = bool(moves) and moves[0][3] is None
    if leaf:
        ad.append(moves[0][1])
    first = []
    for i, a in enumerate(ad):
        e.touch(s, "N", a)
        first.append(zand(*[a != b for b in ad[:i]]))
    new = lambda a: z3.Or(m.f("alive")(a), n.f("alive")(a))
    for what, fld, cnt, extra in (
            ("strong", "tstrong", lambda q, a: q.f("mstrong")(a), d(("Tree",), t)),
            ("locks", "ng", lambda q, a: z3.And(q.f("mstrong")(a), q.f("magg")(a) > 0), d(tuple(TOKENS), t))):
        terms = [extra]
        for a, u in zip(ad, first):
            p0 = z3.And(m.f("alive")(a), cnt(m, a), m.f("mtree")(a) == t)
            p1 = z3.And(new(a), cnt(n, a), n.f("mtree")(a) == t)
            terms.append(z3.If(zb(u), z3.If(p1, 1, 0) - z3.If(p0, 1, 0), 0))
        if moves and not leaf:
            inside, t1, t2, K, Z = moves[0]
            rest = (Z if what == "strong" else K) - zsum(
                [z3.If(z3.And(zb(u), zb(inside(a)), cnt(m, a)), 1, 0) for a, u in zip(ad, first)])
            terms.append(z3.If(t == t2, rest, 0) - z3.If(t == t1, rest, 0))
        delta = zsum(terms)
        ab = lambda v: v if fld == "tstrong" else z3.If(v >= 0, v, -v)
        b0 = z3.If(m.f("talive")(t), ab(m.f(fld)(t)), 0)
        live = z3.And(t != NULL["T"], n.f("talive")(t))
        gone = z3.And(m.f("talive")(t), z3.Not(n.f("talive")(t)))
        out.append(("ledger", "the %s of a tree are counted" % what, z3.Implies(live, ab(n.f(fld)(t)) == b0 + delta), s))
        if fld == "tstrong":
            out.append(("ledger", "a tree dies only when nothing refers to it", z3.Implies(gone, b0 + delta == 0), s))
            out.append(("ledger", "a tree lives only while something refers to it", z3.Implies(live, n.f(fld)(t) >= 1), s))
        else:
            out.append(("ledger", "locks of a tree keep their direction", z3.Implies(z3.And(live, m.f("talive")(t)), z3.Not(z3.Or(
                z3.And(m.f("ng")(t) > 0, n.f("ng")(t) < 0), z3.And(m.f("ng")(t) < 0, n.f("ng")(t) > 0)))), s))
    t0, t1 = m.f("mtree")(x), n.f("mtree")(x)
    nx, mx = n.f("ng")(t1), m.f("ng")(t0)
    e.touch(s, "T", t0)
    out.append(("ledger", "locks of a moved node keep their direction", z3.Implies(
        z3.And(was, now, t0 != t1, m.f("mstrong")(x), m.f("magg")(x) > 0, n.f("mstrong")(x), n.f("magg")(x) > 0),
        z3.And(nx != 0, (nx > 0) == (mx > 0))), s))
    same = zand(*[eqv(e.select_term(st, nm, x), m.f(nm)(x)) for nm in ("parent", "first", "next", "prevc", "nch", "mtree")])
    out.append(("ledger", "a tree that stays locked against edits stays as it is", z3.Implies(
        z3.And(was, now, mx < 0, n.f("ng")(t0) < 0), zb(same)), s))
    for i, (k, h, c) in enumerate(after):
        if k in LOCKED:
            g = n.f("ng")(n.f("mtree")(h))
            out.append(("ledger", "handle %d left behind locks its way" % i, z3.Implies(zb(c), g > 0 if k == "HotNode" else g < 0), s))
        if k in TOKENS:
            g = n.f("ng")(h)
            out.append(("ledger", "token %d left behind locks its way" % i, z3.Implies(zb(zand(c, n.f("talive")(h))), g * TOKENS[k] > 0), s))
        if k in NODES:
            out.append(("ledger", "handle %d left behind is of a live node" % i, z3.Implies(zb(c), n.f("alive")(h)), s))
        if k == "Tree":
            out.append(("ledger", "handle %d left behind is of a live tree" % i, z3.Implies(zb(c), n.f("talive")(h)), s))
    return out


def type_invs(mir):
    """Type -> the invariant its methods rely on."""
    res = {}
    for sp in SPECS.values():
        fn = mir.by_name.get(sp.name)
        if sp.inv is not None and fn is not None and fn["argc"]:
            t = mir.types[fn["locals"][1]]
            if t["k"] in ("ref", "ptr"):
                t = mir.types[t["to"]]
            if t["name"].startswith(("traverse::", "serial::")):
                res.setdefault(t["name"], sp.inv)
    return res


def type_goals(e, q, st0, ck, fn, v, slots, entry):
    """The invariants of the values left behind: (name, formula or None if there is no way to prove it, state)."""
    res = []
    vals = [(k, st0.x["argty"][k], q.mem.get(k)) for k in slots]
    t = e.types[fn["locals"][0]]
    if v is not UNIT:
        vals.append((None, fn["locals"][0], v))
        if t.get("def") in ("std::option::Option", "std::result::Result"):
            vals += [(None, f[1], v.f[0]) for i, va in enumerate(t["v"]) for f in va["f"] if isinstance(v, Agg) and v.var == i and v.f]
    for key, ty, val in vals:
        inv = ck.type_invs.get(e.types[ty]["name"])
        if inv is None or not isinstance(val, Agg):
            continue
        after = After(e, q)
        old = [z for k, z in q.touched.values() if k == "N"]
        tops = [None] if key is not None else [None] + old
        best = []
        for top in tops:
            s = q.copy()
            s.worlds = (after,)
            s.heap = {}
            s.touched = {}
            s.x = dict(s.x)
            if top is not None:
                s.x["top"] = top
            todo, alts, names = [[]], [], []
            while todo:
                d = todo.pop()
                c = S(e, s.copy(), d, todo, fn)
                c.goals = []
                x = e.gensym(c.st, "value", z3.IntSort())
                slot = ("value", str(x))
                c.st.mem[slot] = val
                try:
                    inv(c, Ptr(("L", slot)))
                except Infeasible:
                    continue
                for z in old:
                    e.touch(c.st, "N", z)
                    for y in old:
                        if y.get_id() < z.get_id():
                            for f in after.wf_pair(z, y):
                                e.assume(c.st, f)
                alts.append((zand(*[g if isz(g) else z3.BoolVal(bool(g)) for g in c.goals]), c.st))
            best.append(alts)
        res.append((e.types[ty]["name"], best))
    return res


def check(ck, fn, sp, limit=300, only=None, verbose=False):
    """The lemma for one contract."""
    r = Result("invariant: " + sp.name)
    t0 = time.time()
    e = ck.engine()
    ck.e = e
    ck.type_invs = type_invs(ck.mir)
    work = [[]] if only is None else [only]
    try:
        while work:
            variant(ck, e, r, fn, sp, work.pop(), work, verbose, t0 + limit)
    except Unsupported as x:
        r.status, r.reason = "undecided", str(x)
    except Exception as x:
        r.status, r.reason = "undecided", "internal: %s: %s" % (type(x).__name__, x)
        if verbose:
            import traceback
            traceback.print_exc()
    r.queries, r.solver, r.time = e.nqueries, e.solver_time, time.time() - t0
    r.used, r.inlined = set(), set()
    return r


def variant(ck, e, r, fn, sp, dec, work, verbose, limit):
    w = World()
    e.world = w
    e.target = e.outcome = None
    e.lemmas = None
    e.unknown = True
    st = e.new_state(w)
    a = Args(e, st, w, dec, work)
    tys = [fn["locals"][i + 1] for i in range(fn["argc"])]
    args = [a.build(t) for t in tys]
    a.finish()
    if sp.inv is not None:
        c = S(e, st, [], [], fn)
        sp.inv(c, *args)
        st = c.st
    if not e.feasible(st):
        return
    before = []
    if sp.name.startswith("drop "):
        tys = [e.types[tys[0]]["to"]]
        args = [e.load(st, args[0])]
        st.mem.pop(("arg", 0), None)
    for v, t in zip(args, tys):
        handles(e, v, t, True, before)
    slots = [k for k, mut in a.slots if mut and k in st.mem]
    for k in slots:
        handles(e, st.mem[k], st.x["argty"][k], True, before)
    st0 = st.copy()
    outs = []
    todo = [[]]
    while todo:
        d = todo.pop()
        c = S(e, st.copy(), d, todo, fn)
        try:
            v = sp.fn(c, *args)
            outs.append((c, UNIT if v is None else v))
        except (SpecPanic, Infeasible):
            pass
    for c, v in outs:
        q = c.st
        if isinstance(v, Rel):
            nm = e.types[fn["locals"][0]]["name"]
            if "&" not in nm and any(h in nm for h in HANDLES):
                raise Unsupported("a result that is only constrained")
            v = UNIT        # holds nothing
        if q.infeasible or not e.feasible(q):
            continue
        after = []
        if v is not UNIT:
            handles(e, v, fn["locals"][0], True, after)
        for k in slots:
            handles(e, q.mem[k], st.x["argty"][k], True, after)
        r.paths += 1
        for nm, best in type_goals(e, q, st, ck, fn, v, slots, before):
            r.obl += 1
            if not any(all(g is True or z3.is_true(g) or e.proves(s, g) for g, s in alts) for alts in best):
                ck.fail(r, "invariant (values): " + nm, "", ck.model(e, best[0][0][1], znot(best[0][0][0])), "sat")
        groups = {}
        for prop, nm, g, s in goals(e, q, st0, before, after):
            if g is True or z3.is_true(g):
                continue
            groups.setdefault(id(s), (s, []))[1].append((prop, nm, g))
        for s, gs in groups.values():
            r.obl += len(gs)
            if e.proves(s, zand(*[g for p, n, g in gs])):
                continue
            for prop, nm, g in gs:
                if e.proves(s, g):
                    continue
                m = ck.model(e, s, z3.Not(g))
                ck.fail(r, "invariant (%s): %s" % (prop, nm), "", m, "sat" if m else "unknown")
        if time.time() > limit:
            raise Unsupported("time limit")


def applies(sp):
    """Contracts of the public interface (the others speak of states in between).  A fold is not one operation: its passes
    are made of operations that are.  `with_first_last_event` has a precondition nothing checks."""
    return sp.fold is None and "with_first_last_event" not in sp.name and not (
        "internal::" in sp.name or "TreeCore" in sp.name or sp.name.startswith(("<traverse::", "<node::internal")))
