"""Checks a function of the program against its contract."""
import time
import traceback
import z3
from val import *
from engine import *
from world import World
from speclib import S, SPECS, NN, NT, Rel
import engine as engine_mod
import step

engine_mod.SpecCtx = S

STRUCT = ("parent", "first", "next", "prevc", "nch", "root", "own", "mtree", "data", "mstrong", "alive", "talive")


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "proved"       # proved | failed | undecided
        self.obl = 0
        self.fail = []               # (obligation, where, detail)
        self.paths = 0
        self.panics = 0
        self.queries = 0
        self.time = 0.0
        self.solver = 0.0
        self.used = set()
        self.inlined = set()
        self.reason = ""


    def join(self, o):
        """Adds the result `o` of another part."""
        rank = ("proved", "undecided", "failed")
        if rank.index(o.status) > rank.index(self.status):
            self.status, self.reason = o.status, o.reason
        for k in ("obl", "paths", "panics", "queries", "solver", "time"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.fail += o.fail
        self.used |= o.used
        self.inlined |= o.inlined


class Args:
    """Builds symbolic arguments from types; enumerates variants by decision replay."""

    def __init__(self, e, st, w, dec, work):
        self.e, self.st, self.w, self.dec, self.work = e, st, w, dec, work
        self.pos = 0
        self.n = 0
        self.handles = []   # (kind, term, owned)
        self.handles_by_type = []   # (kind, term, owned, type of the argument)
        self.cur = ""
        self.tokens = []    # (dir, term)
        self.slots = []     # (key, mut)
        st.x["argty"] = {}

    def choose(self, n):
        if self.pos < len(self.dec):
            r = self.dec[self.pos]
            self.pos += 1
            return r
        for i in range(1, n):
            self.work.append(self.dec + [i])
        self.dec = self.dec + [0]
        self.pos += 1
        return 0

    def const(self, k, nm=None):
        self.n += 1
        return z3.Const("%s%d" % (nm or {"N": "node", "T": "tree", "D": "data", "I": "int", "B": "flag"}[k], self.n), SORT[k])

    def arg(self, ty):
        t = self.e.types[ty]
        self.cur = (self.e.types[t["to"]] if t["k"] in ("ref", "ptr") else t)["name"]
        return self.build(ty)

    def build(self, ty, owned=True):
        e, st, w = self.e, self.st, self.w
        t = e.types[ty]
        c = e.cls(ty)
        nm = t["name"]
        if c[0] == "ptr":
            to = t["to"]
            k = e.types[to]["name"]
            if k == engine_mod.TREE_TY:
                x = self.const("T")
                e.touch(st, "T", x)
                e.assume(st, w.f("talive")(x))
                return Ptr(("T", x))
            if t["k"] == "ptr" and e.types[to]["k"] != "adt":
                return Opq("ptr")
            if "RefCell<node::membership::MembershipCore" in k:
                x = self.const("N")
                e.touch(st, "N", x)
                e.assume(st, w.f("alive")(x))
                i = [f[0] for f in e.types[e.node_ty]["v"][0]["f"]].index("membership")
                return Ptr(("N", x), (i,))
            key = ("arg", len(self.slots))
            st.x["argty"][key] = to
            self.slots.append((key, bool(t.get("mut"))))
            v = self.build(to, owned=False if not t.get("mut") else "mut")
            st.mem[key] = v
            return Ptr(("L", key))
        if c[0] == "I":
            x = self.const("I")
            if t["k"] == "int":
                lo, hi = e.int_range(ty)
            else:
                lo, hi = 1, (1 << 64) - 1
            e.assume(st, z3.And(x >= lo, x <= hi))
            return x
        if c[0] == "B":
            return self.const("B")
        if c[0] == "data":
            return self.const("D")
        d = t.get("def", "")
        if d in ("node::internal::NodeLink", "Node", "HotNode", "FrozenNode", "node::plain::Node") or \
                nm in ("Node<T>", "HotNode<T>", "FrozenNode<T>", "node::internal::NodeLink<T>"):
            x = self.const("N")
            kind = nm.split("<")[0].split("::")[-1]
            self.handle(kind, x, owned)
            return e.wrap(ty, x)
        if nm == "node::internal::NodeCoreLink<T>":
            x = self.const("N")
            e.touch(st, "N", x)
            e.assume(st, w.f("alive")(x))
            return e.wrap(ty, x)
        if nm in ("node::internal::NodeCoreLinkWeak<T>", "NodeWeak<T>"):
            x = self.const("N")
            e.touch(st, "N", x)
            return e.wrap(ty, x)
        if c[0] == "rc" and c[1] == "T" or nm in ("Tree<T>", "TreeWeak<T>"):
            weak = c[0] == "rc" and c[2] or nm == "TreeWeak<T>"
            x = self.const("T")
            e.touch(st, "T", x)
            if not weak:
                e.assume(st, w.f("talive")(x))
                self.tree(x, owned)
            return e.wrap(ty, x)
        if nm in ("HierarchyEditGrant<T>", "HierarchyEditProhibition<T>"):
            x = self.const("T")
            e.touch(st, "T", x)
            self.tokens.append((1 if "Grant" in nm else -1, x, owned))
            return e.wrap(ty, x)
        if c[0] == "struct":
            return Agg(None, [self.build(f, owned) for f in c[1]])
        if c[0] in ("enum", "optrc"):
            vs = [i for i, v in enumerate(t["v"]) if not any(e.uninhabited(f[1]) for f in v["f"])]
            i = vs[self.choose(len(vs))]
            return Agg(i, [self.build(f[1], owned) for f in t["v"][i]["f"]])
        if c[0] == "opq":
            return Opq(nm)
        if c[0] == "cell":
            return Agg(None, (self.build(c[1], owned),))
        if c[0] == "seq":
            return self.queue(c[1])
        if t["k"] == "fndef":
            return FnV(t["inst"])
        raise Unsupported("argument of type " + nm)

    def queue(self, ty):
        """Nothing; a separator; or nodes, a separator, and nodes."""
        t = self.e.types[ty]
        vs = t.get("v", ())
        if [len(v["f"]) for v in vs] != [1, 0] or "FrozenNode<T>" != self.e.types[vs[0]["f"][0][1]]["name"]:
            raise Unsupported("queue of " + t["name"])
        sep = ("val", Agg(1, ()))
        i = self.choose(3)
        if i < 2:
            return Seq((sep,) * i)
        sets = []
        for nm in ("this", "following"):
            self.n += 1
            P = z3.Function("%s%d" % (nm, self.n), N, z3.BoolSort())
            n = self.const("I", "count")
            self.e.assume(self.st, n >= 0)
            sets.append(("set", P, n))
        return Seq((sets[0], sep, sets[1]))

    def handle(self, kind, x, owned):
        e, st, w = self.e, self.st, self.w
        e.touch(st, "N", x)
        e.assume(st, z3.And(w.f("alive")(x), w.f("mstrong")(x), w.f("mref")(x) >= 1))
        t = w.f("mtree")(x)
        e.touch(st, "T", t)
        e.assume(st, w.f("tstrong")(t) >= 1)
        if kind == "HotNode":
            e.assume(st, z3.And(w.f("magg")(x) >= 1, w.f("ng")(t) > 0))
        if kind == "FrozenNode":
            e.assume(st, z3.And(w.f("magg")(x) >= 1, w.f("ng")(t) < 0))
        if kind == "Node":
            e.assume(st, w.f("magg")(x) < w.f("mref")(x))
        # distinct handles are counted separately
        for k2, y, o2 in self.handles:
            if o2 or owned:
                e.assume(st, z3.Implies(x == y, w.f("mref")(x) >= 2))
                if kind == k2 == "Node":
                    e.assume(st, z3.Implies(x == y, w.f("magg")(x) + 2 <= w.f("mref")(x)))
                if kind in ("HotNode", "FrozenNode") and k2 == kind:
                    e.assume(st, z3.Implies(x == y, w.f("magg")(x) >= 2))
        for i, (k2, y, o2) in enumerate(self.handles):
            for k3, z, o3 in self.handles[:i]:
                if len([o for o in (owned, o2, o3) if not o]) <= 1:
                    e.assume(st, z3.Implies(z3.And(x == y, x == z), w.f("mref")(x) >= 3))
                    if kind == k2 == k3 and kind != "Node":
                        e.assume(st, z3.Implies(z3.And(x == y, x == z), w.f("magg")(x) >= 3))
        self.handles.append((kind, x, owned))
        self.handles_by_type.append((kind, x, owned, self.cur))

    def tree(self, x, owned):
        self.handles_by_type.append(("Tree", x, owned, self.cur))
        self.e.assume(self.st, self.w.f("tstrong")(x) >= 1)

    def finish(self):
        """Facts about the arguments taken together."""
        e, st, w = self.e, self.st, self.w
        f = w.f
        for d, x, o in self.tokens:
            ng = f("ng")(x)
            e.assume(st, z3.Implies(f("talive")(x), ng > 0 if d > 0 else ng < 0))
            for k2, y, o2 in self.handles:
                m = z3.And(f("mtree")(y) == x, f("magg")(y) > 0, f("talive")(x))
                e.assume(st, z3.Implies(m, ng >= 2 if d > 0 else ng <= -2))
        hs = [y for k, y, o in self.handles]
        for i in range(len(hs)):
            for j in range(i):
                a, b = hs[i], hs[j]
                t = f("mtree")(a)
                m = z3.And(a != b, f("mtree")(b) == t, f("magg")(a) > 0, f("magg")(b) > 0)
                e.assume(st, z3.Implies(m, z3.Or(f("ng")(t) >= 2, f("ng")(t) <= -2)))
                m = z3.And(a != b, f("mtree")(b) == t)
                e.assume(st, z3.Implies(m, f("tstrong")(t) >= 2))


def unrolled(e, fr):
    """Loops of a function whose contract says that they end after a few passes are simply executed."""
    if e.target is not None and e.target.unroll and fr.fn["name"] == e.target.name:
        return lambda e, st, fr: None
    return None


class Checker:
    def __init__(self, mir, prims, loops=None):
        self.mir = mir
        self.prims = prims
        self.loops = loops

    def engine(self):
        e = Engine(self.mir, self.prims, SPECS)
        if self.loops is not None:
            e.find_loop_handler = lambda st, fr: step.handler(e, st, fr) or unrolled(e, fr) or self.loops(e, st, fr)
        return e

    def variants(self, fn):
        """The shapes of the arguments (which alternative of each enum)."""
        e = self.engine()
        work, res = [[]], []
        try:
            while work:
                dec = work.pop()
                a = Args(e, e.new_state(World()), World(), dec, work)
                for i in range(fn["argc"]):
                    a.build(fn["locals"][i + 1])
                res.append(a.dec)
        except Exception:
            return None
        return res

    def check(self, fn, sp, verbose=False, limit=400, only=None):
        r = Result(fn["name"])
        t0 = time.time()
        e = self.engine()
        self.e = e
        e.target = sp
        e.world = World()
        work = [[]] if only is None else [only]
        try:
            while work:
                dec = work.pop()
                self.variant(e, r, fn, sp, dec, work, verbose)
                if time.time() - t0 > limit:
                    raise Unsupported("time limit")
            if r.obl == 0 and only is None:
                raise Unsupported("no obligations generated")
        except Unsupported as x:
            if r.status == "proved":
                r.status = "undecided"
                r.reason = str(x)
            if verbose:
                traceback.print_exc()
        except RecursionError:
            r.status, r.reason = "undecided", "recursion"
        except Exception as x:
            if r.status == "proved":
                r.status = "undecided"
                r.reason = "internal: %s: %s" % (type(x).__name__, x)
            if verbose:
                traceback.print_exc()
        r.queries, r.solver, r.time = e.nqueries, e.solver_time, time.time() - t0
        r.used = set(e.used_specs)
        r.inlined = set(e.inlined)
        return r

    def variant(self, e, r, fn, sp, dec, work, verbose):
        w = e.world
        st = e.new_state(w)
        a = Args(e, st, w, dec, work)
        args = []
        for i in range(fn["argc"]):
            ty = fn["locals"][i + 1]
            args.append(a.arg(ty))
        a.finish()
        st.x["args"] = a
        if sp.inv is not None:
            c = S(e, st, [], [], fn)
            sp.inv(c, *args)
            st = c.st
        st0 = st.copy()
        if not e.feasible(st):
            return
        e.obls = []
        e.push(st, fn, args, None, None)
        outs = e.run(st)
        for k, text, where, ok, m in e.obls:
            r.obl += 1
            if not ok:
                self.fail(r, "%s: %s" % (k, text), where, "", m)
        if verbose:
            print("  variant", dec, "outcomes", [(o.kind, o.msg) for o in outs])
        for o in outs:
            r.paths += 1
            self.compare(e, r, fn, sp, args, a, st0, o, verbose)

    def fail(self, r, what, where, detail, status):
        if status == "unknown":
            if r.status == "proved":
                r.status = "undecided"
                r.reason = "solver: " + what
        else:
            r.status = "failed"
        r.fail.append((what, where, detail))

    def compare(self, e, r, fn, sp, args, a, st0, o, verbose):
        e.target = None
        try:
            s = st0.copy()
            if sp.fold is not None:
                head = o.st.x.get("head")
                if o.kind == "enter":
                    s.x["phase"] = "enter"
                    s.x["temps"] = o.st.x.get("temps", ())
                elif head is not None:
                    st0 = head
                    s = st0.copy()
                    s.x["phase"] = "pass"
                    if "drawn" in o.st.x:
                        s.x["drawn"] = o.st.x["drawn"]
                    # handles the function itself holds for the time of a call
                    s.x["temps"] = o.st.x.get("temps", ())
                else:
                    s.x["phase"] = "early"
            s.pc = o.st.pc
            s.touched = dict(o.st.touched)
            s.known = dict(o.st.known)
            if "theory" in o.st.x:
                s.x["theory"] = o.st.x["theory"]
            # what the path mentions later may be an object the contract makes
            s.x["entry"] = set(st0.touched)
            if sp.name.startswith("drop "):
                args = [e.load(s, args[0])]
                s.mem.pop(("arg", 0), None)
            e.lemmas = []
            e.outcome = o
            outs = e.run_spec(s, sp, args, fn)
            for q, name, f in e.lemmas:
                r.obl += 1
                if not self.prove(e, q, f) and self.prove(e, q, f, True) is not True:
                    self.fail(r, "lemma: " + name, o.span, self.model(e, q, znot(f)), "sat")
        finally:
            e.target = sp
            e.lemmas = e.outcome = None
        n = 0
        for q in outs:
            if not e.feasible(q.st):
                continue
            n += 1
            if o.kind == "panic":
                r.panics += 1
            r.obl += 1
            if q.kind != o.kind:
                m = self.model(e, q.st)
                self.fail(r, "outcome: the contract says %s%s, the code %s%s" % (
                    q.kind, " (%s)" % q.msg if q.msg else "", {"ret": "returns", "panic": "panics"}.get(o.kind, o.kind),
                    " (%s)" % o.msg if o.msg else ""), o.span, m, "sat")
                continue
            goals = []
            if o.kind == "enter" and sp.fold.call:
                c = S(e, o.st, [], [], fn)
                goals += [("argument of the call", eqv(c.n(x), y), (x, y)) for x, y in zip(o.val, q.val)]
            elif o.kind == "enter":
                for nm in sp.fold.slots:
                    x, y = o.val[nm], S(e, q.st, [], [], fn).lift(o.st.x["argty"][o.st.x["slots"][nm]], q.val[nm])
                    goals.append(("value of type " + nm, e.val_eq(q.st, x, y), (x, y)))
            if o.kind == "back":
                for nm, k in o.st.x["slots"].items():
                    x, y = o.st.mem.get(k), q.st.mem.get(k)
                    if x is not y:
                        goals.append(("value of type " + nm, e.val_eq(q.st, x, y), (x, y)))
            if o.kind in ("enter", "back"):
                for nm, g, s in step.rel_goals(e, q, sp.fold, o):
                    r.obl += 1
                    if not self.prove(e, s, g) and self.prove(e, s, g, True) is not True:
                        self.fail(r, "loop invariant: " + nm, o.span, self.model(e, s, znot(g)), "sat")
            if o.kind == "ret":
                if isinstance(q.val, Rel):
                    goals.append(("result", q.val.f(o.val), (o.val, "a relation")))
                else:
                    goals.append(("result", e.val_eq(q.st, o.val, q.val), (o.val, q.val)))
            if o.kind in ("ret", "back"):
                for key, mut in a.slots:
                    if sp.name.startswith("drop "):
                        continue
                    if key in o.st.mem or key in q.st.mem:
                        x, y = o.st.mem.get(key), q.st.mem.get(key)
                        if x is not y:
                            goals.append(("argument %d" % key[1], e.val_eq(q.st, x, y), (x, y)))
            self.heap_goals(e, q.st, o, goals, o.kind == "panic")
            if o.kind in ("ret", "back", "enter"):
                bo = sorted(str((k, nm, m)) for k, nm, t, m in o.st.borrows.values())
                bs = sorted(str((k, nm, m)) for k, nm, t, m in q.st.borrows.values())
                goals.append(("borrows", bo == bs, (bo, bs)))
            r.obl += len(goals)
            f = zand(*[g for _, g, _ in goals])
            if self.prove(e, q.st, f):
                continue
            for nm, g, ex in goals:
                res = self.prove(e, q.st, g, True)
                if res is not True:
                    self.fail(r, "%s: %s" % (o.kind, nm), o.span, self.model(e, q.st, znot(g)) + " code/contract: %s" % (ex,),
                              "unknown" if res is None else "sat")
        if n == 0 and e.feasible(o.st):
            r.obl += 1
            self.fail(r, "the contract allows no outcome here (%s %s)" % (o.kind, o.msg), o.span, self.model(e, o.st), "sat")

    def prove(self, e, st, f, hard=False):
        if f is True:
            return True
        if f is False:
            return not e.feasible(st)
        if e.proves(st, f):
            return True
        if not hard:
            return False
        s = self.pairs(e, st)
        e.solver.set("timeout", 30000)
        c = e.check(s, z3.Not(f))
        e.solver.set("timeout", 8000)
        return True if c == z3.unsat else None if c == z3.unknown else False

    def pairs(self, e, st):
        s = st.copy()
        ns = [t for k, t in s.touched.values() if k == "N"]
        for w in s.worlds:
            for i in range(len(ns)):
                for j in range(i):
                    for c in w.wf_pair(ns[i], ns[j]):
                        e.assume(s, c)
        return s

    def model(self, e, st, *extra):
        try:
            if e.check(st, *extra) != z3.sat:
                return ""
            m = e.solver.model()
            ds = [d for d in m.decls() if d.arity() == 0]
            return "; ".join("%s=%s" % (d.name(), m[d]) for d in ds if "!" not in d.name())[:600]
        except z3.Z3Exception:
            return ""

    def heap_goals(self, e, st, o, goals, structural):
        names = set(o.st.heap) | set(st.heap)
        for nm in sorted(names):
            if structural and nm not in STRUCT:
                continue
            if nm in engine_mod.GHOST:
                continue
            w1, w2 = o.st.heap.get(nm), st.heap.get(nm)
            if w1 is w2:
                continue
            addrs, bulk = {}, False
            for w in (w1, w2):
                while w is not None:
                    if w.pred is not None:
                        bulk = True
                    else:
                        addrs.setdefault(w.a.get_id(), w.a)
                    w = w.up
            k = engine_mod.FIELDS[nm][0]
            if bulk:
                x = z3.Const("any%s" % k, SORT[k])
                e.touch(st, k, x)
                addrs[x.get_id()] = x
            al = "alive" if k == "N" else "talive"
            for x in addrs.values():
                a = e.select_term(o.st, nm, x)
                b = e.select_term(st, nm, x)
                g = eqv(a, b)
                if g is True:
                    continue
                if nm not in ("alive", "talive"):
                    g = zimp(e.select_term(st, al, x), g)
                if nm == "ng" or nm == "tstrong":
                    pass
                goals.append(("%s of %s" % (nm, x), g, (a, b)))
