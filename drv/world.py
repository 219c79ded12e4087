"""Well-formedness of the object graph before the operation, instantiated on demand."""
import z3
from val import *

I, B = z3.IntSort(), z3.BoolSort()
BIG = 1 << 62
SIG = {
    "data": (N, D), "parent": (N, N), "first": (N, N), "next": (N, N), "prevc": (N, N), "nch": (N, I),
    "mstrong": (N, B), "mtree": (N, T), "mref": (N, I), "magg": (N, I),
    "root": (T, N), "ng": (T, I), "alive": (N, B), "talive": (T, B), "own": (T, B), "tstrong": (T, I), "bflag": (N, I),
    # ghost
    "rt": (N, N), "o": (N, I), "c": (N, I), "idx": (N, I), "dep": (N, I), "phi": (N, N),
}


class Fn:
    """A function symbol; applications are shared."""

    def __init__(self, d):
        self.d = d
        self.memo = {}

    def __call__(self, *a):
        k = a[0].get_id() if len(a) == 1 else tuple(x if isinstance(x, int) else x.get_id() for x in a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self.d(*a), a)
        return r[0]


def shared(fn):
    nm = fn.__name__

    def go(self, *a):
        k = (nm,) + tuple(x.get_id() for x in a)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (fn(self, *a), a)
        return r[0]
    return go


class World:
    big = BIG

    def __init__(self, name=""):
        self.name = name
        self.fs = {}
        self.memo = {}

    def f(self, n):
        r = self.fs.get(n)
        if r is None:
            if n in ("cl", "cs"):
                self.fs[n] = Fn(z3.Function(n + self.name, N, I, I))
                return self.fs[n]
            if n in SIG:
                a, b = SIG[n]
            else:
                from engine import FIELDS
                k, v = FIELDS[n]
                a, b = SORT[k], SORT[v]
            r = self.fs[n] = Fn(z3.Function(n + self.name, a, b))
        return r

    @shared
    def wf_node(self, n):
        """Clauses of the structural invariant at node n (guarded by alive)."""
        g = self.f("alive")(n)
        return [z3.Implies(g, z3.And(*(self.links(n) + self.counters(n)))), z3.Implies(g, n != NULL["N"])]

    def counters(self, n):
        """What the counters of n and its tree say of each other."""
        f = self.f
        t = f("mtree")(n)
        return [
            z3.Implies(f("mstrong")(n), z3.And(f("mref")(n) >= 1, f("mref")(n) < self.big)),
            z3.Implies(z3.Not(f("mstrong")(n)), z3.And(f("mref")(n) == 0, f("magg")(n) == 0)),
            f("magg")(n) >= 0, f("magg")(n) <= f("mref")(n),
            z3.Implies(f("magg")(n) > 0, f("ng")(t) != 0),
            f("ng")(t) > -self.big, f("ng")(t) < self.big, f("tstrong")(t) < self.big, f("tstrong")(t) >= 1,
        ]

    def links(self, n):
        """Links, document order and membership."""
        f = self.f
        nu = NULL["N"]
        p, fc, x, y = f("parent")(n), f("first")(n), f("next")(n), f("prevc")(n)
        t = f("mtree")(n)
        r = f("rt")(n)
        o, c, idx, dep, nch, al, rt = (f(k) for k in ("o", "c", "idx", "dep", "nch", "alive", "rt"))
        nx, pv, fi, pa = f("next"), f("prevc"), f("first"), f("parent")
        cl = [
            # parent
            z3.Implies(p != nu, z3.And(al(p), fi(p) != nu, rt(p) == r, dep(n) == dep(p) + 1,
                                       o(p) < o(n), c(n) < c(p), idx(n) < nch(p), f("mtree")(p) == t,
                                       idx(n) >= 0, o(n) >= 1, r != n, nch(p) < self.big)),
            # root
            z3.Implies(p == nu, z3.And(x == nu, y == n, r == n, dep(n) == 0, o(n) == 0, idx(n) == 0)),
            # first child
            z3.Implies(fc != nu, z3.And(al(fc), pa(fc) == n, o(fc) == o(n) + 1, idx(fc) == 0, nch(n) >= 1,
                                        nx(pv(fc)) == nu, al(pv(fc)), pa(pv(fc)) == n, rt(fc) == r, fc != n,
                                        idx(pv(fc)) == nch(n) - 1, c(pv(fc)) == c(n) - 1, dep(fc) == dep(n) + 1)),
            z3.Implies(fc == nu, z3.And(c(n) == o(n) + 1, nch(n) == 0)),
            # next sibling
            z3.Implies(x != nu, z3.And(al(x), p != nu, pa(x) == p, pv(x) == n, x != n, o(x) == c(n) + 1,
                                       idx(x) == idx(n) + 1, fi(p) != x, rt(x) == r)),
            z3.Implies(z3.And(x == nu, p != nu), z3.And(c(p) == c(n) + 1, nch(p) == idx(n) + 1, pv(fi(p)) == n)),
            # previous sibling (cyclic)
            y != nu, al(y), pa(y) == p,
            z3.Implies(z3.And(p != nu, fi(p) != n), z3.And(nx(y) == n, idx(y) + 1 == idx(n), y != n, o(n) == c(y) + 1)),
            z3.Implies(z3.And(p != nu, fi(p) == n), z3.And(nx(y) == nu, idx(n) == 0)),
            # ranges
            o(n) >= 0, c(n) > o(n), dep(n) >= 0, c(n) <= c(r), nch(n) >= 0, nch(n) < self.big, c(r) < self.big,
            dep(n) < self.big,
            # root of the tree
            al(r), pa(r) == nu, rt(r) == r, o(r) == 0, dep(r) == 0,
            # membership
            f("talive")(t), t != NULL["T"], f("own")(t), f("root")(t) == r, f("mtree")(r) == t,
        ]
        return cl

    @shared
    def wf_counts(self, n, x):
        """Counting functions over document order: `cl(r, i)` nodes that hold a lock, `cs(r, i)` nodes that hold a
        reference to the tree, among those of the tree of root `r` opened before time `i`."""
        f = self.f
        r = f("rt")(x)
        o, c, al = f("o"), f("c"), f("alive")
        t = f("mtree")(x)
        ng, ts = f("ng")(t), f("tstrong")(t)
        cl, cs = f("cl"), f("cs")
        e = []
        for g, q in ((cl, z3.And(f("mstrong")(x), f("magg")(x) > 0)), (cs, f("mstrong")(x))):
            e += [g(r, o(x) + 1) == g(r, o(x)) + z3.If(q, 1, 0), g(r, c(x) + 1) == g(r, c(x)),
                  0 <= g(r, o(x)), g(r, o(x) + 1) <= g(r, c(x)), g(r, c(x)) <= g(r, c(r)), g(r, c(r) + 1) == g(r, c(r)),
                  z3.Implies(self.contains(n, x), z3.And(g(r, o(n)) <= g(r, o(x)), g(r, c(x)) <= g(r, c(n)))),
                  z3.Implies(z3.And(self.contains(n, x), x != n), g(r, o(n) + 1) <= g(r, o(x)))]
        e += [z3.Or(ng >= cl(r, c(r)), -ng >= cl(r, c(r))), ts >= cs(r, c(r))]
        return [z3.Implies(z3.And(al(x), x != NULL["N"]), z3.And(*e))]

    @shared
    def wf_tree(self, t):
        f = self.f
        r = f("root")(t)
        g = f("talive")(t)
        cl = self.tree_links(t) + [f("ng")(t) > -self.big, f("ng")(t) < self.big, f("tstrong")(t) < self.big, f("tstrong")(t) >= 1]
        return [z3.Implies(g, z3.And(*cl)), z3.Implies(g, t != NULL["T"])]

    def tree_links(self, t):
        f = self.f
        r = f("root")(t)
        o = f("own")(t)
        return [r != NULL["N"],
                # a tree that owns its root: all of its nodes are under it
                z3.Implies(o, z3.And(f("alive")(r), f("mtree")(r) == t, f("parent")(r) == NULL["N"], f("rt")(r) == r)),
                # a tree whose nodes have been moved to another tree knows its former root, if that is alive
                z3.Implies(z3.And(z3.Not(o), f("alive")(r)), f("mtree")(r) != t)]

    @shared
    def wf_pair(self, a, b):
        """Clauses relating two nodes of one tree: intervals are laminar and identify nodes."""
        f = self.f
        o, c, rt, al, pa = f("o"), f("c"), f("rt"), f("alive"), f("parent")
        g = z3.And(al(a), al(b), rt(a) == rt(b), a != b)
        inn = z3.And(o(a) < o(b), c(b) < c(a))
        out = z3.And(o(b) < o(a), c(a) < c(b))
        return [
            z3.Implies(g, z3.Or(c(a) < o(b), c(b) < o(a), inn, out)),
            # the parent is the innermost node around
            z3.Implies(z3.And(g, inn), z3.And(pa(b) != NULL["N"], o(a) <= o(pa(b)), c(pa(b)) <= c(a))),
            z3.Implies(z3.And(g, out), z3.And(pa(a) != NULL["N"], o(b) <= o(pa(a)), c(pa(a)) <= c(b))),
            z3.Implies(z3.And(g, inn, pa(b) != a), o(a) < o(pa(b))),
            z3.Implies(z3.And(g, out, pa(a) != b), o(b) < o(pa(a))),
            # depth grows inwards
            z3.Implies(z3.And(g, inn), f("dep")(a) < f("dep")(b)),
            z3.Implies(z3.And(g, out), f("dep")(b) < f("dep")(a)),
            # siblings
            z3.Implies(z3.And(g, pa(a) == pa(b)), z3.Or(z3.And(f("idx")(a) < f("idx")(b), c(a) < o(b)),
                                                        z3.And(f("idx")(b) < f("idx")(a), c(b) < o(a)))),
        ]

    @shared
    def contains(self, a, b):
        """a is b or an ancestor of b."""
        f = self.f
        return z3.And(f("rt")(a) == f("rt")(b), f("o")(a) <= f("o")(b), f("c")(b) <= f("c")(a))
