"""Loop invariants: candidate invariants over the tree's ghost functions, pruned to the inductive ones.

A loop is cut at its head.  The memory slots its body changes are replaced by fresh values constrained only
by invariants that (a) hold on entry and (b) are preserved by one pass through the body from an arbitrary
state satisfying them.  Leaving the loop therefore gives every state any number of passes can lead to."""
import itertools
import z3
from val import *
from engine import Out, Infeasible, collect_rcs, FIELDS

NU = NULL["N"]
counter = itertools.count()
SPECIFIC = []       # handlers tried first: f(loop) -> list of results or None


def handler(e, st, fr):
    return lambda e, st, fr: Loop(e, st, fr).run()


class Loop:
    def __init__(self, e, st, fr, peeled=0):
        self.e, self.st, self.fr = e, st, fr
        self.peeled = peeled
        self.head = fr.b
        self.depth = len(st.frames)
        self.blocks = e.loop_heads(fr.fn)[fr.b]
        self.fresh = {}         # id -> (term, constraint)
        self.bulks = {}         # heap field -> BulkWrite
        self.fold = None        # effect of a loop over a subtree
        self.teardown = None    # effect of taking a tree apart
        self.ledger = None      # effect of holding the node at the cursor
        self.cursor = None      # slot of the traversal cursor: (key, path)
        self.second = None      # a second cursor that walks along
        self.still = set()      # heap fields written and set back

    # ------------------------------------------------------------- shapes
    def mk(self, sort, con=None):
        x = z3.Const("loop%d" % next(counter), sort)
        self.fresh[x.get_id()] = (x, con(x) if con else True)
        return x

    def fresh_val(self, ty):
        e = self.e
        c = e.cls(ty)
        t = e.types[ty]
        if c[0] == "I":
            lo, hi = e.int_range(ty) if t["k"] == "int" else (1, (1 << 64) - 1)
            return self.mk(z3.IntSort(), lambda x: z3.And(x >= lo, x <= hi))
        if c[0] == "B":
            return self.mk(z3.BoolSort())
        if c[0] == "rc" and c[1] == "N":
            return Rc("N", self.mk(N), c[2])
        if c[0] == "optrc" and c[1] == "N":
            return e.opt(c[2], self.mk(N))
        if c[0] == "struct":
            return Agg(None, [self.fresh_val(f) for f in c[1]])
        if c[0] == "enum":
            d = self.mk(z3.IntSort(), lambda x: z3.And(x >= 0, x < len(c[1])))
            return Sym(d, {i: tuple(self.fresh_val(f) for f in v) for i, v in enumerate(c[1])})
        raise Unsupported("loop variable of type " + t["name"])

    def covers(self, h, b):
        """The head value `h` stands for `b` (its fresh leaves for anything)."""
        if h is None or h is b:
            return True
        if isz(h):
            return same(h, b) or h.get_id() in self.fresh
        if isinstance(h, (int, bool)):
            return same(h, b)
        if b is None:
            return False
        if isinstance(h, Rc):
            return isinstance(b, Rc) and (h.t.eq(b.t) or h.t.get_id() in self.fresh)
        if isinstance(h, Sym):
            o = self.e.opt_terms.get(h.d.get_id())
            if o is not None:
                x = self.e.opt_term(b, "N")
                return o[1].get_id() in self.fresh or o[1].eq(x)
            if h.d.get_id() in self.fresh:
                if isinstance(b, Agg):
                    return b.var in h.alts and all(self.covers(x, y) for x, y in zip(h.alts[b.var], b.f))
                return all(i in h.alts and self.covers(x, y) for i in b.alts for x, y in zip(h.alts.get(i, b.alts[i]), b.alts[i]))
            return repr(h) == repr(b)
        if isinstance(h, Agg):
            if isinstance(b, Sym) and not h.f and False:
                return False
            return isinstance(b, Agg) and h.var == b.var and all(self.covers(x, y) for x, y in zip(h.f, b.f))
        return repr(h) == repr(b)

    def widen(self, ty, a, b):
        """A value covering `a` and `b`."""
        if self.covers(a, b):
            return a
        if a is None or b is None:
            return None
        e = self.e
        c = e.cls(ty)
        if c[0] == "struct":
            return Agg(None, [self.widen(f, x, y) for f, x, y in zip(c[1], a.f, b.f)])
        if c[0] == "enum" and isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var:
            return Agg(a.var, [self.widen(f, x, y) for f, x, y in zip(c[1][a.var], a.f, b.f)])
        if c[0] == "enum" and any(c[1]):
            aa = {a.var: a.f} if isinstance(a, Agg) else a.alts
            bb = {b.var: b.f} if isinstance(b, Agg) else b.alts
            alts = {}
            for i in sorted(set(aa) | set(bb)):
                if i in aa and i in bb:
                    alts[i] = tuple(self.widen(f, x, y) for f, x, y in zip(c[1][i], aa[i], bb[i]))
                else:
                    alts[i] = tuple(aa[i] if i in aa else bb[i])
            if len(c[1]) > 1 and all(len(v) == 1 and v[0] == c[1][0][0] for v in c[1]):
                # variants with a payload of one common type: one payload stands for all
                pv = None
                for v in alts.values():
                    pv = v[0] if pv is None else self.widen(c[1][0][0], pv, v[0])
                alts = {i: (pv,) for i in range(len(c[1]))}
            if isinstance(a, Sym) and isz(a.d) and a.d.get_id() in self.fresh and set(alts) <= set(a.alts):
                d = a.d
            else:
                ks = sorted(alts)
                d = self.mk(z3.IntSort(), lambda x: z3.Or(*[x == i for i in ks]))
            return Sym(d, alts)
        if c[0] in ("I", "B", "rc", "optrc", "enum"):
            return self.fresh_val(ty)
        raise Unsupported("loop changes a value of type " + e.types[ty]["name"])

    def pairs(self, h, b, out):
        """Maps fresh leaves of `h` to the terms of `b` they stand for."""
        if h is None or b is None:
            return
        if isz(h):
            if h.get_id() in self.fresh:
                out[h.get_id()] = b
        elif isinstance(h, Rc):
            if h.t.get_id() in self.fresh:
                out[h.t.get_id()] = b.t
        elif isinstance(h, Agg):
            if isinstance(b, Agg):
                for x, y in zip(h.f, b.f):
                    self.pairs(x, y, out)
        elif isinstance(h, Sym):
            o = self.e.opt_terms.get(h.d.get_id())
            if o is not None:
                if o[1].get_id() in self.fresh:
                    out[o[1].get_id()] = self.e.opt_term(b, "N")
            elif h.d.get_id() in self.fresh:
                out[h.d.get_id()] = b.var if isinstance(b, Agg) else b.d
                for i in h.alts:
                    if isinstance(b, Agg):
                        if b.var == i:
                            for x, y in zip(h.alts[i], b.f):
                                self.pairs(x, y, out)
                    elif i in b.alts:
                        for x, y in zip(h.alts[i], b.alts[i]):
                            self.pairs(x, y, out)

    def leaves(self, h, out, nn=True):
        """Fresh leaves of `h`: (term, whether it cannot be null)."""
        if isz(h):
            if h.get_id() in self.fresh:
                out.append((h, nn))
        elif isinstance(h, Rc):
            if h.t.get_id() in self.fresh:
                out.append((h.t, nn and not h.weak))
        elif isinstance(h, Agg):
            for x in h.f:
                self.leaves(x, out, nn)
        elif isinstance(h, Sym):
            o = self.e.opt_terms.get(h.d.get_id())
            if o is not None:
                if o[1].get_id() in self.fresh:
                    out.append((o[1], False))
                return
            self.leaves(h.d, out, nn)
            for i in h.alts:
                for x in h.alts[i]:
                    self.leaves(x, out, False)

    # ---------------------------------------------------------------- main
    def run(self):
        e, fr = self.e, self.fr
        if (fr.id, self.head) in fr.loops:
            return Out("back", self.st)
        for f in SPECIFIC:
            r = f(self)
            if r is not None:
                return r
        nobl = len(e.obls)
        try:
            return self.invariant()
        except Unsupported as x:
            if __import__("os").environ.get("LOOPDBG"):
                print("loop", self.fr.fn["name"], self.peeled, x)
            if self.peeled >= 2:
                raise
            del e.obls[nobl:]
            return self.peel(x)

    def peel(self, x):
        """Executes one pass as it is, then cuts the loop."""
        e, fr = self.e, self.fr
        self.anchors = []
        s = self.st.copy()
        f = s.frames[-1]
        f.loops = f.loops + ((f.id, self.head),)
        res = []
        for o in self.body(s):
            if o.kind not in ("back", "exit"):
                res.append(o)
                continue
            f = o.st.frames[-1]
            f.loops = tuple(y for y in f.loops if y != (f.id, self.head))
            if o.kind == "exit":
                res.append(o.st)
                continue
            try:
                r = Loop(e, o.st, f, self.peeled + 1).run()
            except Infeasible:
                continue
            res += r
        if not res:
            raise Infeasible()
        return res

    def invariant(self):
        e, fr = self.e, self.fr
        entry = self.entry = self.st.copy()
        merged = dict(entry.mem)
        nobl = len(e.obls)
        for it in range(24):
            self.merged = merged
            self.gen_candidates()
            h, outs = self.once()
            again = False
            for o in outs:
                if o.kind != "back":
                    continue
                for k in list(merged):
                    if k not in o.st.mem:
                        del merged[k]
                        again = True
                    elif not self.covers(merged[k], o.st.mem[k]):
                        merged[k] = self.widen(e.key_ty(entry, k), merged[k], o.st.mem[k])
                        again = True
            if not again:
                for o in outs:
                    if o.kind == "back":
                        again |= self.heap_grow(h, o.st)
            if not again:
                break
            del e.obls[nobl:]
        else:
            raise Unsupported("loop shape in " + fr.fn["name"])
        for it in range(60):
            dead = set()
            for o in outs:
                if o.kind == "back":
                    self.prune(o.st, dead)
            if not dead:
                break
            self.cands = [c for c in self.cands if c[0] not in dead]
            del e.obls[nobl:]
            h, outs = self.once()
        else:
            raise Unsupported("loop invariant in " + fr.fn["name"])
        for o in outs:
            if o.kind == "back":
                self.heap_check(h, o.st)
        self.terminates(outs)
        res = []
        for o in outs:
            if o.kind == "exit":
                f = o.st.frames[-1]
                f.loops = tuple(x for x in f.loops if x != (fr.id, self.head))
                res.append(o.st)
            elif o.kind != "back":
                res.append(o)
        if not res:
            raise Infeasible()
        return res

    def once(self):
        """One pass through the body from every arbitrary state at the head."""
        if self.fold is None:
            h = self.build()
            return h, self.body(h)
        outs = []
        for mode in ("live", "dead"):
            h = self.build()
            self.fold.apply(h, mode)
            if self.e.feasible(h):
                outs += self.body(h)
        return h, outs

    def build(self):
        """The arbitrary state at the head."""
        e = self.e
        h = self.entry.copy()
        h.mem = dict(self.merged)
        f = h.frames[-1]
        f.loops = f.loops + ((f.id, self.head),)
        for t, con in self.fresh.values():
            e.assume(h, con)
            if t.sort() == N:
                e.touch(h, "N", t)
        for t, nn in self.terms:
            if nn and t.sort() == N:
                e.assume(h, t != NU)
        for b in self.bulks.values():
            b.apply(e, h)
        if self.teardown is not None:
            self.teardown.apply(h)
        if self.ledger is not None:
            x = self.cursor_node(h)
            f = h.worlds[-1].f
            near = [x, self.start, f("parent")(x), f("parent")(self.start)]
            for t in near:
                e.touch(h, "N", t)
            h.pc = self.paired(h, near).pc
            self.ledger.apply(h, x)
        for i, c in self.cands:
            e.assume(h, c(self.ident))
        self.headst = h
        return h

    def body(self, h):
        res = []
        for o in self.pass_(h):
            # A traversal that has ended: the loop is left in the next pass.
            if o.kind == "back" and self.cursor is not None and self.at(o.st) is False:
                more = self.pass_(o.st)
                if any(x.kind == "back" for x in more):
                    raise Unsupported("loop over a finished traversal in " + self.fr.fn["name"])
                res += more
            else:
                res.append(o)
        return res

    def pass_(self, h):
        return self.e.run(h.copy(), self.depth - 1, (self.depth, self.head, self.blocks, self.fr.id))

    # ---------------------------------------------------------- candidates
    def gen_candidates(self):
        e, entry = self.e, self.entry
        w = entry.worlds[-1]
        f = w.f
        self.terms = []
        init = {}
        for k, v in self.merged.items():
            self.leaves(v, self.terms)
            self.pairs(v, entry.mem.get(k), init)
        self.find_cursor()
        if self.teardown is None and entry.x.get("teardown") is not None and self.root is not None:
            self.teardown = Teardown(self)
        self.init = init
        seen, ts = set(), []
        for t, nn in self.terms:
            if t.get_id() not in seen:
                seen.add(t.get_id())
                ts.append((t, nn))
        self.terms = ts
        self.ident = {i: t for i, (t, _) in self.fresh.items()}
        ns = [t for t, _ in ts if t.sort() == N]
        ints = [t for t, _ in ts if t.sort() == z3.IntSort()]
        bools = [t for t, _ in ts if t.sort() == z3.BoolSort()]
        anchors = {}
        for v in entry.mem.values():
            for k in ("N",):
                rcs = []
                collect_rcs(v, True, k, rcs)
                for t, _ in rcs:
                    anchors.setdefault(t.get_id(), t)
            self.ptr_anchors(v, anchors)
        anchors = list(entry.x.get("anchors", ())) + list(anchors.values())[:10]
        self.anchors = anchors
        cands = []

        def add(nm, c):
            cands.append((nm, c))
        for v in ns:
            i = v.get_id()
            v0 = init.get(i)
            add("nn%d" % i, lambda m, i=i: m[i] != NU)
            add("alive%d" % i, lambda m, i=i: z3.Implies(m[i] != NU, f("alive")(m[i])))
            if v0 is None:
                continue
            add("rt%d" % i, lambda m, i=i, v0=v0: z3.Implies(m[i] != NU, f("rt")(m[i]) == f("rt")(v0)))
            add("par%d" % i, lambda m, i=i, v0=v0: z3.Implies(m[i] != NU, f("parent")(m[i]) == f("parent")(v0)))
            add("npar%d" % i, lambda m, i=i, v0=v0: z3.Implies(m[i] != NU, f("parent")(m[i]) != NU))
            add("ord%d" % i, lambda m, i=i, v0=v0: z3.Implies(m[i] != NU, f("o")(m[i]) >= f("o")(v0)))
            add("up%d" % i, lambda m, i=i, v0=v0: z3.Implies(m[i] != NU, w.contains(m[i], v0)))
            for j, x in enumerate(anchors):
                add("an%d-%d" % (i, j), lambda m, i=i, v0=v0, x=x: z3.Implies(
                    x != NU, z3.And(v0 != NU, w.contains(x, v0)) == z3.And(m[i] != NU, w.contains(x, m[i]))))
            for k in ints:
                k0 = init.get(k.get_id())
                if k0 is None:
                    continue
                for nm, R in self.metrics(w):
                    add("m%s%d-%d" % (nm, i, k.get_id()), lambda m, i=i, k=k, k0=k0, v0=v0, R=R:
                        zi(m[k.get_id()]) + R(m[i]) == zi(k0) + R(v0))
                    # a counter that counts down
                    add("d%s%d-%d" % (nm, i, k.get_id()), lambda m, i=i, k=k, k0=k0, v0=v0, R=R:
                        R(m[i]) - zi(m[k.get_id()]) == R(v0) - zi(k0))
        for b in bools:
            b0 = init.get(b.get_id())
            if b0 is not None:
                add("b%d" % b.get_id(), lambda m, i=b.get_id(), b0=b0: zb(m[i]) == zb(b0))
        self.event_candidates(add, ints, init, anchors, w)
        self.second_candidates(add, init, w)
        ends = {}
        for v in self.merged.values():
            self.limits(v, ends)
        for k in ints:
            k0 = init.get(k.get_id())
            if k0 is not None:
                add("k%d" % k.get_id(), lambda m, i=k.get_id(), k0=k0: zi(m[i]) >= zi(k0))
                add("kd%d" % k.get_id(), lambda m, i=k.get_id(), k0=k0: zi(m[i]) <= zi(k0))
                for j, x in list(ends.items())[:6]:
                    add("kmax%d-%d" % (k.get_id(), j), lambda m, i=k.get_id(), x=x: zi(m[i]) <= x)
        # Keep the candidates that hold on entry.
        for t in init.values():
            if isz(t) and t.sort() == N:
                e.touch(entry, "N", t)
        s = self.paired(entry, [t for t in init.values() if isz(t) and t.sort() == N])
        self.cands = [(nm, c) for nm, c in cands if self.holds(s, c, init)]

    def is_fresh(self, v):
        while isinstance(v, Agg) and v.f:
            v = v.f[0]
        return isinstance(v, Rc) and v.t.get_id() in self.fresh

    def cursor_node(self, st):
        ev = self.event(st)
        if isinstance(ev, Agg):
            return self.e.unwrap(ev)
        x, y = self.e.unwrap(ev.alts[0][0]), self.e.unwrap(ev.alts[1][0])
        return x if x.eq(y) else mkif(ev.d == 0, x, y)

    def event_candidates(self, add, ints, init, anchors, w):
        """Relations between the event at the cursor, the counters and the nodes known at the entry."""
        if self.cursor is None or self.start is None:
            return
        ev = self.event_at_head()
        if not isinstance(ev, Sym):
            return
        f = w.f
        x, y = self.e.unwrap(ev.alts[0][0]), self.e.unwrap(ev.alts[1][0])
        if not x.eq(y) or x.get_id() not in self.fresh or ev.d.get_id() not in self.fresh:
            return
        i, d = x.get_id(), ev.d.get_id()
        e0 = self.event(self.entry)
        v0, x0 = e0.var, self.start
        t0 = (f("o") if v0 == 0 else f("c"))(x0)

        def time(m):
            return z3.If(zi(m[d]) == 0, f("o")(m[i]), f("c")(m[i]))

        def up(v, n):
            return z3.If(zi(v) == 0, 1, 0) - f("dep")(n)
        add("evtime", lambda m: time(m) >= t0)
        for k in ints:
            j = k.get_id()
            if j == d or j not in init:
                continue
            k0 = init[j]
            add("evdep%d" % j, lambda m, j=j, k0=k0: zi(m[j]) + up(m[d], m[i]) == zi(k0) + up(z3.IntVal(v0), x0))
            add("evsum%d" % j, lambda m, j=j, k0=k0: zi(m[j]) - up(m[d], m[i]) == zi(k0) - up(z3.IntVal(v0), x0))
            add("evtk%d" % j, lambda m, j=j, k0=k0: zi(m[j]) - time(m) == zi(k0) - t0)
            add("evlev%d" % j, lambda m, j=j, k0=k0: zi(m[j]) - f("dep")(m[i]) == zi(k0) - f("dep")(x0))
        # nodes whose subtree is not left, and closings that are not passed
        # nodes of a kind (chosen by the contract) that the cursor does not go past
        for n, (y, cond) in enumerate(self.entry.x.get("passed", ())):
            add("evpass%d" % n, lambda m, y=y, cond=cond: z3.Implies(z3.And(cond, f("o")(y) >= t0), f("o")(y) >= time(m)))
        # nodes around the place the walk began at: those that have been left since were closed one after the other
        for n, (b, y, cond) in enumerate(self.entry.x.get("around", ())):
            dep = lambda m: f("dep")(m[i]) - z3.If(zi(m[d]) == 0, 1, 0)
            add("evnear%d" % n, lambda m, b=b: z3.If(zi(m[d]) == 0, z3.And(f("parent")(m[i]) != NU, w.contains(f("parent")(m[i]), b)),
                                                     w.contains(m[i], b)))
            add("evaround%d" % n, lambda m, b=b, y=y, cond=cond: z3.Implies(cond, z3.If(
                f("dep")(y) > dep(m), f("c")(y) == f("c")(b) + f("dep")(b) - f("dep")(y), f("c")(y) >= time(m))))
        as_ = {t.get_id(): t for t in anchors + [x0, f("parent")(x0)]}
        for a in as_.values():
            add("evin%d" % a.get_id(), lambda m, a=a: z3.Implies(a != NU, w.contains(a, m[i])))
            add("evstop%d" % a.get_id(), lambda m, a=a: z3.Implies(
                z3.And(a != NU, f("rt")(a) == f("rt")(x0), f("c")(a) >= t0), f("c")(a) >= time(m)))
            add("evstopo%d" % a.get_id(), lambda m, a=a: z3.Implies(
                z3.And(a != NU, f("rt")(a) == f("rt")(x0), f("o")(a) >= t0), f("o")(a) >= time(m)))

    def event_at_head(self, cur=None):
        s = self.entry.copy()
        s.mem = dict(self.merged)
        return self.event(s, cur)

    def second_candidates(self, add, init, w):
        """A second cursor walks along with the first one."""
        if self.second is None or self.start is None:
            return
        f, ts = w.f, []
        for cur in (self.cursor, self.second):
            ev, e0 = self.event_at_head(cur), self.event(self.entry, cur)
            if not isinstance(ev, Sym) or not isinstance(e0, Agg):
                return
            x, y = self.e.unwrap(ev.alts[0][0]), self.e.unwrap(ev.alts[1][0])
            if not x.eq(y) or x.get_id() not in self.fresh or ev.d.get_id() not in self.fresh:
                return
            x0 = self.e.unwrap(e0)
            ts.append((x.get_id(), ev.d.get_id(), x0, (f("o") if e0.var == 0 else f("c"))(x0)))

        def gone(m, k):
            i, d, x0, t0 = ts[k]
            return z3.If(zi(m[d]) == 0, f("o")(m[i]), f("c")(m[i])) - t0
        i, d, x0, t0 = ts[1]
        add("zip", lambda m: gone(m, 0) == gone(m, 1))
        add("zipin", lambda m: w.contains(x0, m[i]))
        add("zipstop", lambda m: f("c")(x0) >= gone(m, 1) + t0)
        for n, k in enumerate(self.entry.x.get("evmax", ())):
            add("zipmax%d" % n, lambda m, k=k: gone(m, 0) <= k)
            add("zipmay%d" % n, lambda m, k=k: gone(m, 1) <= k)

    def ptr_anchors(self, v, out):
        if isinstance(v, Ptr):
            if v.base[0] == "N":
                out.setdefault(v.base[1].get_id(), v.base[1])
        elif isinstance(v, Agg):
            for x in v.f:
                self.ptr_anchors(x, out)

    def limits(self, v, out):
        """The numbers of the state at the head that the loop does not change."""
        if isz(v) and v.sort() == z3.IntSort() and v.get_id() not in self.fresh:
            out.setdefault(v.get_id(), v)
        elif isinstance(v, Agg):
            for x in v.f:
                self.limits(x, out)

    def holds(self, s, c, m):
        try:
            return self.e.proves(s, c(m))
        except KeyError:
            return False

    def metrics(self, w):
        f = w.f
        one, zero = z3.IntVal(1), z3.IntVal(0)
        return [
            ("fol", lambda v: z3.If(v == NU, zero, z3.If(f("parent")(v) == NU, one, f("nch")(f("parent")(v)) - f("idx")(v)))),
            ("pre", lambda v: z3.If(v == NU, zero, f("idx")(v) + 1)),
            ("anc", lambda v: z3.If(v == NU, zero, f("dep")(v) + 1)),
        ]

    def paired(self, st, ns):
        """`st` with the facts relating the nodes `ns` to each other and to the anchors."""
        e = self.e
        s = st.copy()
        xs = list({t.get_id(): t for t in list(ns) + self.anchors}.values())
        for t in xs:
            e.touch(s, "N", t)
        for w in s.worlds:
            for i, a in enumerate(xs):
                for b in xs[:i]:
                    for c in w.wf_pair(a, b):
                        e.assume(s, c)
        return s

    def prune(self, b, dead):
        m = {}
        for k, v in self.merged.items():
            self.pairs(v, b.mem.get(k), m)
        for i, t in self.ident.items():
            m.setdefault(i, t)      # the leaf means nothing in this variant
        ns = [t for t in m.values() if isz(t) and t.sort() == N]
        ns += [t for t, _ in self.terms if t.sort() == N]
        s = self.paired(b, ns)
        alive = [(nm, c) for nm, c in self.cands if nm not in dead]
        try:
            if self.e.proves(s, z3.And(*[c(m) for _, c in alive]) if alive else True):
                return
        except KeyError:
            pass
        for nm, c in alive:
            if not self.holds(s, c, m):
                dead.add(nm)

    # ------------------------------------------------------- traversal cursors
    def find_cursor(self):
        """The slot of a depth-first cursor: an optional event of a node."""
        e = self.e
        found, held = [], []

        def go(key, ty, v, path):
            if v is None or len(path) > 6:
                return
            t = e.types[ty]
            if t["k"] == "adt" and t["def"].split("::")[-1] in ("Node", "HotNode", "FrozenNode"):
                if self.is_fresh(v):
                    held.append((key, path, ty))
                return
            if t["k"] == "adt" and t["def"] == "traverse::DftEvent" and not e.uninhabited(t["v"][0]["f"][0][1]):
                if isinstance(v, Sym):
                    found.append((key, path, t["v"][0]["f"][0][1]))
                return
            c = e.cls(ty)
            if c[0] == "struct" and isinstance(v, Agg):
                for i, (f, x) in enumerate(zip(c[1], v.f)):
                    go(key, f, x, path + (i,))
            elif c[0] == "enum":
                alts = {v.var: v.f} if isinstance(v, Agg) else v.alts
                for i, fs in alts.items():
                    for j, x in enumerate(fs):
                        go(key, c[1][i][j], x, path + ((i, j),))
        for k, v in self.merged.items():
            if k[0] == "K":
                continue
            try:
                ty = e.key_ty(self.entry, k)
            except Unsupported:
                continue
            go(k, ty, v, ())
        self.cursor = found[0] if len(found) in (1, 2) else held[0] if len(held) == 1 and not found else None
        self.second = found[1] if len(found) == 2 else None
        self.root = self.start = None
        self.holds_kind = None
        if self.cursor is not None:
            ev = self.event(self.entry)
            if not isinstance(ev, Agg):
                self.cursor = None
            else:
                self.start = e.unwrap(ev)
                nm = e.types[self.cursor[2]]["name"]
                for k in ("FrozenNode<", "HotNode<", "Node<"):
                    if k in nm:
                        self.holds_kind = k[:-1]
                        break
                if ev.var == 0 and self.holds_kind is None:
                    self.root = self.start

    def event(self, st, cur=None):
        """The event at the cursor in `st`: None if there is none (the end), else the value; the condition
        of being there is returned by `at`."""
        cur = cur or self.cursor
        v = st.mem.get(cur[0])
        for p in cur[1]:
            if v is None:
                return None
            if isinstance(p, tuple):
                if isinstance(v, Agg):
                    if v.var != p[0]:
                        return None
                    v = v.f[p[1]]
                else:
                    v = v.alts[p[0]][p[1]]
            else:
                v = v.f[p]
        return v

    def at(self, st):
        """Whether the cursor of `st` is at an event (a condition)."""
        v = st.mem.get(self.cursor[0])
        c = True
        for p in self.cursor[1]:
            if v is None:
                return False
            if isinstance(p, tuple):
                if isinstance(v, Agg):
                    if v.var != p[0]:
                        return False
                    v = v.f[p[1]]
                else:
                    c = zand(c, v.d == p[0])
                    v = v.alts[p[0]][p[1]]
            else:
                v = v.f[p]
        return c

    def time(self, st):
        """The point in document order the cursor of `st` stands at."""
        w = st.worlds[-1]
        o, c = w.f("o"), w.f("c")
        end = c(self.root if self.root is not None else w.f("rt")(self.start)) + 1
        ev = self.event(st)
        if ev is None:
            return end
        if isinstance(ev, Agg):
            x = self.e.unwrap(ev.f[0])
            self.e.touch(st, "N", x)
            t = (o if ev.var == 0 else c)(x)
        else:
            x, y = self.e.unwrap(ev.alts[0][0]), self.e.unwrap(ev.alts[1][0])
            self.e.touch(st, "N", x)
            self.e.touch(st, "N", y)
            t = mkif(ev.d == 0, o(x), c(y))
        return mkif(self.at(st), t, end)

    def cursor_decreases(self, backs):
        e = self.e
        for o in backs:
            t1, t2 = self.time(o.x0 if hasattr(o, "x0") else self.headst), self.time(o.st)
            w = o.st.worlds[-1]
            top = self.root if self.root is not None else w.f("rt")(self.start)
            if not e.proves(o.st, z3.And(t2 > t1, t2 <= w.f("c")(top) + 1)):
                return False
        return True

    # ----------------------------------------------------------- termination
    def terminates(self, outs):
        e = self.e
        backs = [o for o in outs if o.kind == "back"]
        if not backs:
            return
        w = self.entry.worlds[-1]
        if self.cursor is not None and self.cursor_decreases(backs):
            e.obls.append(("termination", "loop in " + self.fr.fn["name"], e.where(self.st), True, None))
            return
        for t, _ in self.terms:
            if t.sort() != N:
                continue
            for nm, R in self.metrics(w):
                ok = True
                for o in backs:
                    m = {}
                    for k, v in self.merged.items():
                        self.pairs(v, o.st.mem.get(k), m)
                    x = m.get(t.get_id())
                    if x is None:
                        ok = False
                        break
                    e.touch(o.st, "N", x)
                    if not e.proves(o.st, z3.And(R(t) > R(x), R(x) >= 0)):
                        ok = False
                        break
                if ok:
                    e.obls.append(("termination", "loop in " + self.fr.fn["name"], e.where(self.st), True, None))
                    return
        raise Unsupported("termination of the loop in " + self.fr.fn["name"])

    # ------------------------------------------------------------------ heap
    def heap_grow(self, h, b):
        """Heap fields the body writes: a sibling loop writing one field of the current node."""
        again = False
        if self.fold is None and b.heap.get("mtree") is not h.heap.get("mtree") and self.root is not None:
            self.fold = Fold(self, b)
            return True
        for nm in b.heap:
            w, w0 = b.heap[nm], h.heap.get(nm)
            if w is w0:
                continue
            if self.fold is not None and nm in self.fold.fields:
                continue
            if self.ledger is not None and nm in self.ledger.fields:
                continue
            if self.teardown is not None and nm in self.teardown.fields:
                continue
            if self.ledger is None and self.holds_kind is not None and nm in Ledger.fields:
                self.ledger = Ledger(self)
                return True
            if nm in self.bulks or nm in self.still:
                continue
            if self.unchanged(h, b, nm):
                self.still.add(nm)
                continue
            if w.pred is not None or w.up is not w0:
                raise Unsupported("loop writes %s in %s (shape)" % (nm, self.fr.fn["name"]))
            v = next((t for t, _ in self.terms if t.eq(w.a)), None)
            if v is None or (isz(w.v) and w.v.get_id() in self.fresh):
                raise Unsupported("loop writes %s of %s := %s in %s" % (nm, w.a, w.v, self.fr.fn["name"]))
            self.bulks[nm] = Bulk(self, nm, v, self.init[v.get_id()], w.v)
            again = True
        return again

    def unchanged(self, h, b, nm, oblige=False):
        """The body has set `nm` back to what it was at the head (claimed for every object)."""
        e = self.e
        k = FIELDS[nm][0]
        x = z3.Const("any" + k, SORT[k])
        s = b.copy()
        e.touch(s, k, x)
        g = eqv(e.select_term(s, nm, x), e.select_term(h, nm, x))
        if not oblige:
            return e.proves(s, g)
        e.oblige(s, "loop", "the loop sets %s back" % nm, g)

    def heap_check(self, h, b):
        e = self.e
        if set(b.borrows) != set(h.borrows):
            raise Unsupported("the loop keeps data borrowed")
        for nm in self.still:
            if b.heap.get(nm) is not h.heap.get(nm):
                self.unchanged(h, b, nm, True)
        if self.fold is not None:
            self.fold.check(b)
        if self.ledger is not None:
            self.ledger.check(b)
        if self.teardown is not None:
            self.teardown.check(h, b)
        for nm, bk in self.bulks.items():
            m = {}
            for k, v in self.merged.items():
                self.pairs(v, b.mem.get(k), m)
            x = z3.Const("anyN", N)
            s = b.copy()
            e.touch(s, "N", x)
            v2 = m[bk.v.get_id()]
            s = self.paired(s, [x, bk.v, v2, bk.v0])
            got = e.select_term(s, nm, x)
            pre = self.entry.copy()
            want = mkif(bk.pred(x, v2), bk.val, e.select_term(pre, nm, x))
            e.oblige(s, "loop", "effect of the loop on %s" % nm, zimp(e.select_term(s, "alive", x), eqv(got, want)))


class Bulk:
    """`field` of the siblings from `v0` up to (not including) `v` has been set to `val`."""

    def __init__(self, loop, nm, v, v0, val):
        self.nm, self.v, self.v0, self.val = nm, v, v0, val
        self.w = loop.entry.worlds[-1]

    def pred(self, n, v):
        f = self.w.f
        # `n` must be a node of the tree as it was: nodes made meanwhile are not siblings of `v0`.
        return z3.And(f("alive")(n), self.v0 != NU, f("parent")(n) == f("parent")(self.v0), f("rt")(n) == f("rt")(self.v0),
                      f("parent")(n) != NU,
                      f("o")(n) >= f("o")(self.v0), z3.Or(v == NU, f("o")(n) < f("o")(v)))

    def apply(self, e, h):
        e.bulk(h, self.nm, lambda n: self.pred(n, self.v), self.val)


class Ledger:
    """The handle to the node at the cursor is the only one that has changed since the loop was entered."""
    fields = ("mref", "mstrong", "magg", "mtree", "tstrong", "ng")

    def __init__(self, loop):
        self.loop, self.e, self.entry = loop, loop.e, loop.entry
        self.x0 = loop.start
        self.kind = loop.holds_kind
        self.e.touch(self.entry, "N", self.x0)
        self.tree = self.e.rd(self.entry, "mtree", self.x0)

    def apply(self, h, x):
        """Acquires a handle to `x`, then releases one to the node the loop started at."""
        e = self.e
        if x.eq(self.x0):
            return
        e.touch(h, "N", x)
        sel = lambda nm, n: e.select_term(h, nm, n)
        ts, ng = sel("tstrong", self.tree), sel("ng", self.tree)
        s0, m0 = sel("mstrong", x), zi(sel("magg", x))
        e.write(h, "mref", x, zi(sel("mref", x)) + 1)
        e.write(h, "mstrong", x, True)
        r = zi(sel("mref", self.x0)) - 1
        if self.kind != "Node":
            e.write(h, "magg", x, m0 + 1)
            m = zi(sel("magg", self.x0)) - 1
            e.write(h, "magg", self.x0, m)
            e.write(h, "ng", self.tree, zi(ng) + (1 if self.kind == "HotNode" else -1) * (
                mkif(m0 == 0, z3.IntVal(1), z3.IntVal(0)) - mkif(m == 0, z3.IntVal(1), z3.IntVal(0))))
        e.write(h, "mref", self.x0, r)
        e.write(h, "mstrong", self.x0, r >= 1)
        e.write(h, "tstrong", self.tree, zi(ts) + mkif(zb(s0), z3.IntVal(0), z3.IntVal(1)) - mkif(
            r >= 1, z3.IntVal(0), z3.IntVal(1)))

    def check(self, b):
        e = self.e
        x = self.loop.cursor_node(b)
        y, t = z3.Const("anyN", N), z3.Const("anyT", T)
        s = self.loop.paired(b, [y, x, self.x0])
        e.touch(s, "T", t)
        want = self.entry.copy()
        want.pc, want.touched, want.known = s.pc, s.touched, s.known
        self.apply(want, x)
        s.pc = want.pc
        for nm in self.fields:
            a = y if nm[0] == "m" else t
            al = e.select_term(s, "alive" if nm[0] == "m" else "talive", a)
            e.oblige(s, "loop", "handles held by the loop: " + nm, zimp(al, eqv(
                e.select_term(s, nm, a), e.select_term(want, nm, a))))


chd = z3.Function("chd", N, z3.IntSort(), N)


class Teardown:
    """The tree of root `r` is taken apart in document order: the nodes closed before the cursor are gone, and the first child of
    a node opened before it is the child the cursor is in, or is about to open (`chd`)."""
    fields = ("alive", "first", "next")

    def __init__(self, loop):
        self.loop, self.e, self.entry, self.r = loop, loop.e, loop.entry, loop.root
        self.w = self.entry.worlds[-1]
        if any(self.entry.heap.get(nm) is not None for nm in self.fields):
            raise Unsupported("teardown of a changed tree")
        self.e.touch(self.entry, "N", self.r)

    def inside(self, y):
        return z3.And(self.w.f("alive")(y), self.w.contains(self.r, y))

    def gone(self, y, tau):
        return z3.And(self.inside(y), y != self.r, self.w.f("c")(y) < tau)

    def first(self, y, tau):
        return z3.If(tau > self.w.f("c")(y), NU, chd(y, tau))

    def where(self, s, y, tau):
        """What `chd` is at y and tau."""
        f, z = self.w.f, chd(y, tau)
        self.e.touch(s, "N", z)
        self.e.assume(s, z3.Implies(z3.And(self.inside(y), f("o")(y) < tau, tau < f("c")(y)), z3.And(
            z != NU, f("alive")(z), f("parent")(z) == y, f("rt")(z) == f("rt")(y), f("o")(z) <= tau, tau <= f("c")(z))))
        self.e.assume(s, z3.Implies(tau == f("c")(y), z == NU))
        return z

    def apply(self, h):
        e, f = self.e, self.w.f
        tau = self.loop.time(h)
        gone = lambda y: self.gone(y, tau)
        e.bulk(h, "alive", gone, False)
        e.bulk(h, "next", gone, NU)
        e.bulk(h, "first", lambda y: z3.And(self.inside(y), f("o")(y) < tau), lambda y: self.first(y, tau))
        if self.loop.at(h) is False:
            return
        x = self.loop.cursor_node(h)
        e.touch(h, "N", x)
        p = f("parent")(x)
        near = [x, p, self.r, f("parent")(p), f("prevc")(x), f("next")(x), f("first")(x)]
        for y in (x, p, f("parent")(p)):
            near.append(self.where(h, y, tau))
        h.pc = self.loop.paired(h, near).pc

    def check(self, h, b):
        e, f = self.e, self.w.f
        s = b.copy()
        t1, t2 = self.loop.time(h), self.loop.time(s)
        y = z3.Const("anyN", N)
        near = [y, self.r]
        for st in (h, s):
            if self.loop.at(st) is not False:
                x = self.loop.cursor_node(st)
                near += [x, f("parent")(x)]
        for x in near:
            e.touch(s, "N", x)
        near += [self.where(s, y, t1), self.where(s, y, t2)]
        s = self.loop.paired(s, near)
        al = zand(self.w.f("alive")(y), znot(self.gone(y, t2)))
        e.oblige(s, "loop", "nodes freed by the teardown", eqv(e.select_term(s, "alive", y), al))
        want = mkif(z3.And(self.inside(y), f("o")(y) < t2), self.first(y, t2), f("first")(y))
        e.oblige(s, "loop", "children left by the teardown", zimp(al, eqv(e.select_term(s, "first", y), want)))
        e.oblige(s, "loop", "siblings left by the teardown", zimp(al, eqv(e.select_term(s, "next", y), f("next")(y))))


class Fold:
    """The nodes of the subtree of `n` opened before the cursor have become members of tree `t2`,
    with their locks and references."""
    fields = ("mtree", "ng", "tstrong", "alive", "talive")

    def __init__(self, loop, b):
        e, en = loop.e, loop.entry
        self.loop, self.e, self.entry, self.n = loop, e, en, loop.root
        self.w = en.worlds[-1]
        wr = b.heap["mtree"]
        if wr.pred is not None:
            raise Unsupported("loop writes mtree (shape)")
        self.t2 = wr.v
        e.touch(en, "N", self.n)
        if not e.proves(en, z3.And(self.w.f("alive")(self.n), eqv(e.select_term(en, "first", self.n), self.w.f("first")(self.n)))):
            raise Unsupported("traversal of a changed subtree")
        self.t1 = e.rd(en, "mtree", self.n)
        e.touch(en, "T", self.t1)
        e.touch(en, "T", self.t2)
        if not e.proves(en, self.t1 != self.t2):
            raise Unsupported("membership change within one tree")
        for nm in ("mstrong", "magg", "mtree"):
            x = en.heap.get(nm)
            while x is not None:
                if x.pred is not None or not e.proves(en, zor(
                        eqv(e.select_term(en, nm, x.a), self.w.f(nm)(x.a)), znot(self.inside(x.a)))):
                    raise Unsupported("memberships changed before the loop")
                x = x.up
        self.g1, self.g2 = e.rd(en, "ng", self.t1), e.rd(en, "ng", self.t2)
        self.s1, self.s2 = e.rd(en, "tstrong", self.t1), e.rd(en, "tstrong", self.t2)
        if not e.proves(en, zand(e.select_term(en, "talive", self.t1), zi(self.s1) >= 1)):
            raise Unsupported("life of the old tree before the loop")
        en.x["counts"] = self.n
        e.touch_counts(en)

    def inside(self, y):
        return z3.And(self.w.f("alive")(y), self.w.contains(self.n, y))

    def vals(self, tau):
        f = self.w.f
        r = f("rt")(self.n)
        k = f("cl")(r, tau) - f("cl")(r, f("o")(self.n))
        z = f("cs")(r, tau) - f("cs")(r, f("o")(self.n))
        g1, g2 = zi(self.g1), zi(self.g2)
        return {
            ("ng", 1): z3.If(g1 > 0, g1 - k, z3.If(g1 < 0, g1 + k, g1)),
            ("ng", 2): z3.If(g1 > 0, g2 + k, z3.If(g1 < 0, g2 - k, g2)),
            ("tstrong", 1): zi(self.s1) - z, ("tstrong", 2): zi(self.s2) + z,
        }

    def moved(self, y, tau):
        return z3.And(self.inside(y), self.w.f("o")(y) < tau)

    def killed(self, y):
        e, en = self.e, self.entry
        return zand(e.select_term(en, "alive", y), eqv(e.select_term(en, "mtree", y), self.t1), z3.Not(self.inside(y)))

    def apply(self, h, mode):
        e = self.e
        h.x["counts"] = self.n
        e.touch_counts(h)
        tau = self.loop.time(h)
        v = self.vals(tau)
        e.bulk(h, "mtree", lambda y: self.moved(y, tau), self.t2)
        for (nm, i), x in v.items():
            e.write(h, nm, self.t1 if i == 1 else self.t2, x)
        if mode == "live":
            e.assume(h, v["tstrong", 1] >= 1)
        else:
            e.assume(h, v["tstrong", 1] == 0)
            e.write(h, "talive", self.t1, False)
            e.bulk(h, "alive", self.killed, False)
        h.x["mode"] = mode

    def check(self, b):
        e = self.e
        s = b.copy()
        tau = self.loop.time(s)
        y, t = z3.Const("anyN", N), z3.Const("anyT", T)
        ns = [x for x, _ in self.loop.terms if x.sort() == N]
        s = self.loop.paired(s, [y, self.n] + ns)
        e.touch(s, "T", t)
        dead = e.proves(s, znot(e.select_term(s, "talive", self.t1)))
        if not dead and not e.proves(s, zb(e.select_term(s, "talive", self.t1))):
            raise Unsupported("loop: life of the old tree")
        v = self.vals(tau)
        en = self.entry
        al = e.select_term(s, "alive", y)
        want = mkif(self.moved(y, tau), self.t2, e.select_term(en, "mtree", y))
        e.oblige(s, "loop", "memberships changed by the loop", zimp(al, eqv(e.select_term(s, "mtree", y), want)))
        want = e.select_term(en, "alive", y)
        if dead:
            want = zand(want, znot(self.killed(y)))
        e.oblige(s, "loop", "nodes freed by the loop", eqv(al, want))
        want = e.select_term(en, "talive", t)
        if dead:
            want = zand(want, t != self.t1)
        tal = e.select_term(s, "talive", t)
        e.oblige(s, "loop", "trees freed by the loop", eqv(tal, want))
        for nm in ("ng", "tstrong"):
            want = mkif(t == self.t1, v[nm, 1], mkif(t == self.t2, v[nm, 2], e.select_term(en, nm, t)))
            g = eqv(e.select_term(s, nm, t), want)
            if nm == "ng":
                g = zimp(tal, g)
            e.oblige(s, "loop", "effect of the loop on %s" % ("locks" if nm == "ng" else "tree references"), g)
        e.oblige(s, "loop", "references to the old tree", v["tstrong", 1] == 0 if dead else v["tstrong", 1] >= 1)
