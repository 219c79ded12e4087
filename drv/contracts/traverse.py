"""Contracts of the traversals. The position of an event in document order is its time: o(x) for the
opening and c(x) for the closing of x. The events of a tree have the times 0..c(root), each exactly once, so a
step to time + 1 is a step to the next event."""
from speclib import *
from contracts.handles import KINDS

OPEN, CLOSE = 0, 1


def time(S, ev):
    return S.gh("o" if ev[0] == OPEN else "c", ev[1])


def rt(S, n):
    return S.gh("rt", n)


def rank(S, n):
    """The number of events of the tree of `n`, less one."""
    r = rt(S, n)
    S.e.touch(S.st, "N", r)
    return S.gh("c", r)


def step(S, ev, fwd):
    """The event after (before) `ev` in document order: (var, node) or None."""
    var, n = ev
    if fwd:
        if var == OPEN:
            x = S.first(n)
            r = (CLOSE, n) if S.is_null(x) else (OPEN, x)
        else:
            x = S.next(n)
            r = (OPEN, x) if not S.is_null(x) else (CLOSE, S.parent(n))
    else:
        if var == CLOSE:
            x = S.last(n)
            r = (OPEN, n) if S.is_null(x) else (CLOSE, x)
        else:
            x = S.prev(n)
            r = (CLOSE, x) if not S.is_null(x) else (OPEN, S.parent(n))
    if S.is_null(r[1]):
        S.lemma("the traversal ends at the end of the tree", time(S, ev) == (rank(S, n) if fwd else 0))
        return None
    S.lemma("the traversal follows document order",
            zand(time(S, r) == time(S, ev) + (1 if fwd else -1), rt(S, r[1]) == rt(S, n)))
    return r


def event(S, v):
    """(var, node, value of the payload) of an event value."""
    return v.var, S.n(v.f[0])


def some(S, x):
    return None if x is None else ("some", x)


# ------------------------------------------------------------- single events
def ev_step(fwd):
    def mk(K):
        def f(S, a):
            r = step(S, event(S, S.v(a)), fwd)
            if r is None:
                return S.ret(None)
            S.acquire(r[1], K)
            return S.ret(("some", ("var",) + r))
        return f
    return mk


for K in KINDS:
    spec("traverse::DftEvent::<%s<T>>::next" % K, props="C09 C15")(ev_step(True)(K))
    spec("traverse::DftEvent::<%s<T>>::prev" % K, props="C09 C15")(ev_step(False)(K))


# ------------------------------------------------------------- depth first, from one end
def put(S, a, d):
    S.put(a, S.lift(S.argty(a), d))


def dfs(fwd):
    end = CLOSE if fwd else OPEN

    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return S.ret(None)
        e, start = o.f[0].f
        ev, s = event(S, e), S.n(start)
        r = None
        if not (ev[0] == end and S.branch(ev[1] == s)):
            r = step(S, ev, fwd)
        if r is None:
            S.release(s, "Node")
            put(S, a, ("st", None))
        else:
            S.acquire(r[1], "Node")
            put(S, a, ("st", ("some", ("st", ("var",) + r, start))))
        return S.ret(("some", e))
    return f


def dfs_hint(fwd):
    end = CLOSE if fwd else OPEN

    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return Rel(lambda v: hint(v, 0, 0))
        e, start = o.f[0].f
        ev, s = event(S, e), S.n(start)
        if fwd:
            stop = mkif(zand(rt(S, s) == rt(S, ev[1]), time(S, ev) <= S.gh("c", s)), S.gh("c", s), rank(S, ev[1]))
            left = stop - time(S, ev) + 1
        else:
            stop = mkif(zand(rt(S, s) == rt(S, ev[1]), time(S, ev) >= S.gh("o", s)), S.gh("o", s), 0)
            left = time(S, ev) - stop + 1
        S.lemma("an event is left", left >= 1)
        return Rel(lambda v: hint(v, left, left))
    return f


def hint(v, lo, hi):
    """`v` = (lower, Option<upper>) are bounds of a number between lo and hi."""
    a, b = v.f
    c = zimp(True, a <= lo)
    if isinstance(b, Agg):
        return zand(c, True if b.var == 0 else b.f[0] >= hi)
    return zand(c, zimp(b.d == 1, b.alts[1][0] >= hi))


def take_all(S, v, K):
    """Clones every handle inside the value."""
    if isinstance(v, Rc):
        raise Unsupported("bare reference")
    if isinstance(v, Agg):
        if len(v.f) == 0 or not handles(v):
            return
        if is_handle(v):
            S.acquire(S.n(v), K)
            return
        for x in v.f:
            take_all(S, x, K)


def handles(v):
    return isinstance(v, Rc) or isinstance(v, Agg) and any(handles(x) for x in v.f)


def is_handle(v):
    """A value that wraps one reference and nothing else."""
    while isinstance(v, Agg) and v.var is None and len(v.f) == 1:
        v = v.f[0]
    return isinstance(v, Rc)


def drop_all(S, v, K):
    if isinstance(v, Agg) and handles(v):
        if is_handle(v):
            S.release(S.n(v), K)
            return
        for x in v.f:
            drop_all(S, x, K)


def clone(K):
    def f(S, a):
        v = S.v(a)
        take_all(S, v, K)
        return v
    return f


def peek(sel):
    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return Rel(lambda v: isinstance(v, Agg) and v.var == 0)

        def same(v):
            if not isinstance(v, Agg):
                return eqv(v.d, 1) if False else S.e.val_eq(S.st, v, Agg(1, (sel(o),)))
            return v.var == 1 and S.e.val_eq(S.st, S.v(v.f[0]), sel(o))
        return Rel(same)
    return f


def IT(nm):
    return "<traverse::%s<T> as std::iter::Iterator>::" % nm


def BACK(nm):
    return "<traverse::%s<T> as std::iter::DoubleEndedIterator>::" % nm


def start_of(var):
    def f(S, a):
        if a.var == 0:
            return S.ret(("st", None))
        n = S.n(a.f[0])
        S.acquire(n, "Node")
        return S.ret(("st", ("some", ("st", ("var", var, n), n))))
    return f


def next_event(S, s, e):
    if e.var == 0:
        S.release(S.n(s), "Node")
        return S.ret(("st", None))
    return S.ret(("st", ("some", ("st", e.f[0], s))))


for nm, fwd in (("DepthFirstTraverser", True), ("ReverseDepthFirstTraverser", False)):
    P = "traverse::%s::<T>::" % nm
    spec(IT(nm) + "next", props="C09 C15")(dfs(fwd))
    spec(IT(nm) + "size_hint", props="C13")(dfs_hint(fwd))
    spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C09 C15")(clone("Node"))
    spec(P + "peek", props="C09")(peek(lambda o: o.f[0].f[0]))
    spec(P + "with_start", props="C09 C15")(start_of(OPEN if fwd else CLOSE))
    spec(P + "with_next_event", props="C09 C15")(next_event)


# ------------------------------------------------------------- depth first, from both ends
def stable_inv(S, a):
    o = S.v(a).f[0]
    if o.var == 1:
        S.require(ordered(S, *[event(S, x) for x in o.f[0].f]))


def ordered(S, x, y):
    """The events x and y belong to one tree, and y does not come before x."""
    return zand(rt(S, x[1]) == rt(S, y[1]), time(S, x) <= time(S, y))


def same_event(S, x, y):
    return x[0] == y[0] and S.branch(x[1] == y[1])


def both(fwd):
    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return S.ret(None)
        e1, e2 = o.f[0].f
        x, y = event(S, e1), event(S, e2)
        item, other = (e1, e2) if fwd else (e2, e1)
        r = None if same_event(S, x, y) else step(S, x if fwd else y, fwd)
        if r is None:
            S.lemma("the ends meet in the last event", zand(time(S, x) == time(S, y), x[1] == y[1], x[0] == y[0]))
            S.release(S.n(other.f[0]), "FrozenNode")
            put(S, a, ("st", None))
        else:
            S.lemma("the ends stay in order", ordered(S, *((r, y) if fwd else (x, r))))
            S.acquire(r[1], "FrozenNode")
            n = ("var",) + r
            put(S, a, ("st", ("some", ("st", n, other) if fwd else ("st", other, n))))
        return S.ret(("some", item))
    return f


def both_hint(S, a):
    o = S.v(a).f[0]
    if o.var == 0:
        return Rel(lambda v: hint(v, 0, 0))
    x, y = [event(S, e) for e in o.f[0].f]
    left = time(S, y) - time(S, x) + 1
    return Rel(lambda v: hint(v, left, left))


def toplevel(S, a):
    if a.var == 0:
        return S.ret(("st", None))
    n = S.n(a.f[0])
    S.acquire(n, "FrozenNode")
    S.lemma("the ends are in order", ordered(S, (OPEN, n), (CLOSE, n)))
    return S.ret(("st", ("some", ("st", ("var", OPEN, n), ("var", CLOSE, n)))))


nm = "StableDepthFirstTraverser"
P = "traverse::%s::<T>::" % nm
spec(IT(nm) + "next", props="C09 C10 C15", inv=stable_inv)(both(True))
spec(BACK(nm) + "next_back", props="C09 C10 C15", inv=stable_inv)(both(False))
spec(IT(nm) + "size_hint", props="C13", inv=stable_inv)(both_hint)
spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C10 C15")(clone("FrozenNode"))
spec(P + "peek", props="C10")(peek(lambda o: o.f[0].f[0]))
spec(P + "peek_back", props="C10")(peek(lambda o: o.f[0].f[1]))
spec(P + "with_toplevel", props="C09 C10 C15")(toplevel)
spec(P + "with_first_last_event", props="C10")(lambda S, x, y: S.ret(("st", ("some", ("st", x, y)))))


# ------------------------------------------------------------- siblings and ancestors, from one end
def nxt(S, n):
    x = S.next(n)
    nu = S.is_null(x)
    if nu:
        p = S.parent(n)
        S.lemma("the last sibling ends the iteration", zor(p == NN, S.gh("idx", n) + 1 == S.rd("nch", p)))
    else:
        S.lemma("the next sibling", zand(S.gh("idx", x) == S.gh("idx", n) + 1, S.parent(x) == S.parent(n)))
    return None if nu else x


def prv(S, n):
    x = S.prev(n)
    nu = S.is_null(x)
    if nu:
        S.lemma("the first sibling ends the iteration", S.gh("idx", n) == 0)
    else:
        S.lemma("the previous sibling", zand(S.gh("idx", x) + 1 == S.gh("idx", n), S.parent(x) == S.parent(n)))
    return None if nu else x


def up(S, n):
    x = S.parent(n)
    nu = S.is_null(x)
    if nu:
        S.lemma("the root ends the iteration", S.gh("dep", n) == 0)
    else:
        S.lemma("the parent", zand(S.gh("dep", x) + 1 == S.gh("dep", n), S.st.worlds[-1].contains(x, n)))
    return None if nu else x


def following_left(S, n):
    p = S.parent(n)
    return 1 if S.is_null(p) else S.rd("nch", p) - S.gh("idx", n)


def line(mv):
    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return S.ret(None)
        x = mv(S, S.n(o.f[0]))
        if x is not None:
            S.acquire(x, "Node")
        put(S, a, ("st", some(S, x)))
        return S.ret(o)
    return f


def line_hint(left):
    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return Rel(lambda v: hint(v, 0, 0))
        k = left(S, S.n(o.f[0]))
        return Rel(lambda v: hint(v, k, k))
    return f


def peek_line(S, a):
    o = S.v(a).f[0]
    return Rel(lambda v: isinstance(v, Agg) and v.var == o.var and (o.var == 0 or S.e.val_eq(S.st, S.v(v.f[0]), o.f[0])))


for nm, mv, left in (("SiblingsTraverser", nxt, following_left),
                     ("ReverseSiblingsTraverser", prv, lambda S, n: S.gh("idx", n) + 1),
                     ("AncestorsTraverser", up, lambda S, n: S.gh("dep", n) + 1)):
    P = "traverse::%s::<T>::" % nm
    spec(IT(nm) + "next", props="C12 C15")(line(mv))
    spec(IT(nm) + "size_hint", props="C13")(line_hint(left))
    spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C12 C15")(clone("Node"))
    spec(P + "peek", props="C12")(peek_line)
    spec(P + "new", props="C12")(lambda S, x: S.ret(("st", x)))


# ------------------------------------------------------------- siblings, from both ends
def row(S, x, y):
    return zand(S.parent(x) == S.parent(y), S.gh("idx", x) <= S.gh("idx", y), rt(S, x) == rt(S, y))


def row_inv(S, a):
    o = S.v(a).f[0]
    if o.var == 1:
        S.require(row(S, *[S.n(x) for x in o.f[0].f]))


def sib_both(fwd):
    def f(S, a):
        o = S.v(a).f[0]
        if o.var == 0:
            return S.ret(None)
        h1, h2 = o.f[0].f
        x, y = S.n(h1), S.n(h2)
        item, other = (h1, h2) if fwd else (h2, h1)
        r = None if S.branch(x == y) else nxt(S, x) if fwd else prv(S, y)
        if r is None:
            S.lemma("the ends meet in the last item", x == y)
            S.release(S.n(other), "FrozenNode")
            put(S, a, ("st", None))
        else:
            S.lemma("the ends stay in order", row(S, *((r, y) if fwd else (x, r))))
            S.acquire(r, "FrozenNode")
            put(S, a, ("st", ("some", ("st", r, other) if fwd else ("st", other, r))))
        return S.ret(("some", item))
    return f


def sib_both_hint(S, a):
    o = S.v(a).f[0]
    if o.var == 0:
        return Rel(lambda v: hint(v, 0, 0))
    x, y = [S.n(e) for e in o.f[0].f]
    left = S.gh("idx", y) - S.gh("idx", x) + 1
    return Rel(lambda v: hint(v, left, left))


def first_last(S, n):
    return S.first(n), S.last(n)


def make_row(S, x, y):
    """The traverser from x to y (none if there is no such item), with handles of its own."""
    if x is None:
        return S.ret(("st", None))
    S.lemma("the ends are in order", row(S, x, y))
    S.acquire(x, "FrozenNode")
    S.acquire(y, "FrozenNode")
    return S.ret(("st", ("some", ("st", x, y))))


def with_parent(S, a):
    if a.var == 0:
        return S.ret(("st", None))
    n = S.n(a.f[0])
    x, y = first_last(S, n)
    r = make_row(S, None if S.is_null(x) else x, y)
    S.release(n, "FrozenNode")
    return r


nm = "StableSiblingsTraverser"
P = "traverse::%s::<T>::" % nm
spec(IT(nm) + "next", props="C10 C12 C15", inv=row_inv)(sib_both(True))
spec(BACK(nm) + "next_back", props="C10 C12 C15", inv=row_inv)(sib_both(False))
spec(IT(nm) + "size_hint", props="C13", inv=row_inv)(sib_both_hint)
spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C10 C15")(clone("FrozenNode"))
spec(P + "peek", props="C10 C12")(peek(lambda o: o.f[0].f[0]))
spec(P + "peek_back", props="C10 C12")(peek(lambda o: o.f[0].f[1]))
spec(P + "with_parent", props="C10 C12 C15")(with_parent)


# ------------------------------------------------------------- where the traversals start
def each(name, f, props, kinds=KINDS):
    for K in kinds:
        spec("%s::<T>::%s" % (K, name), props=props)(lambda S, a, K=K: f(S, S.n(a)))


def whole(var):
    def f(S, n):
        S.acquire(n, "Node")
        S.acquire(n, "Node")
        return S.ret(("st", ("some", ("st", ("var", var, n), n))))
    return f


def one(sel):
    def f(S, n):
        x = sel(S, n)
        if S.is_null(x):
            return S.ret(("st", None))
        S.acquire(x, "Node")
        return S.ret(("st", ("some", x)))
    return f


from contracts.handles import first_sib, last_sib  # noqa: E402

each("depth_first_traverse", whole(OPEN), "C09 C15")
each("depth_first_reverse_traverse", whole(CLOSE), "C09 C15")
each("children", one(lambda S, n: S.first(n)), "C12 C15")
each("children_reverse", one(lambda S, n: S.last(n)), "C12 C15")
each("ancestors", one(lambda S, n: S.parent(n)), "C12 C15")
each("ancestors_or_self", one(lambda S, n: n), "C12 C15")
each("siblings", one(first_sib), "C12 C15")
each("siblings_reverse", one(last_sib), "C12 C15")
each("preceding_siblings_or_self_reverse", one(lambda S, n: n), "C12 C15")
each("preceding_siblings_reverse", one(lambda S, n: S.prev(n)), "C12 C15")
each("following_siblings_or_self", one(lambda S, n: n), "C12 C15")
each("following_siblings", one(lambda S, n: S.next(n)), "C12 C15")


def prev_row(S, n):
    x = S.prev(n)
    return make_row(S, None, None) if S.is_null(x) else make_row(S, first_sib(S, n), x)


def next_row(S, n):
    x = S.next(n)
    return make_row(S, None, None) if S.is_null(x) else make_row(S, x, last_sib(S, n))


def children_row(S, n):
    x, y = first_last(S, n)
    return make_row(S, None if S.is_null(x) else x, y)


F = ("FrozenNode",)
each("children_stable", children_row, "C10 C12 C15", F)
each("siblings_stable", lambda S, n: make_row(S, first_sib(S, n), last_sib(S, n)), "C10 C12 C15", F)
each("preceding_siblings_or_self_stable", lambda S, n: make_row(S, first_sib(S, n), n), "C10 C12 C15", F)
each("following_siblings_or_self_stable", lambda S, n: make_row(S, n, last_sib(S, n)), "C10 C12 C15", F)
each("preceding_siblings_stable", prev_row, "C10 C12 C15", F)
each("following_siblings_stable", next_row, "C10 C12 C15", F)


def whole_stable(S, n):
    S.acquire(n, "FrozenNode")
    S.acquire(n, "FrozenNode")
    return S.ret(("st", ("some", ("st", ("var", OPEN, n), ("var", CLOSE, n)))))


each("depth_first_traverse_stable", whole_stable, "C09 C10 C15", F)


# ------------------------------------------------------------- depth first with a limited depth, from both ends
MAXU = (1 << 64) - 1


def devent(v):
    """An event value with a depth: (var, handle, depth)."""
    h, d = v.f[0].f
    return v.var, h, d


def limit(S, a):
    """The deepest depth of events."""
    d = S.v(a).f[1]
    if isinstance(d, Agg):
        return MAXU if d.var == 0 else zi(d.f[0]) - 1
    raise Unsupported("depth limit")


def top(S):
    t = S.st.x.get("top")
    if t is None:
        t = z3.Const("top", N)
    S.e.touch(S.st, "N", t)
    return t


def placed(S, m, ev, d, r=None):
    """The event lies in the subtree of the toplevel node, at depth d, within the limit."""
    r, n = top(S) if r is None else r, ev[1]
    w = S.st.worlds[-1]
    return zand(w.f("alive")(r), w.contains(r, n), eqv(S.gh("dep", n) - S.gh("dep", r), d), zi(d) <= m)


def shallow_inv(S, a):
    o = S.v(a).f[0]
    m = limit(S, a)
    S.require(zi(m) >= 0)
    if o.var == 1:
        ps = [devent(e) for e in o.f[0].f]
        es = [(v, S.n(h)) for v, h, d in ps]
        for e, (v, h, d) in zip(es, ps):
            S.require(placed(S, m, e, d))
        S.require(ordered(S, *es))
        S.st.x["anchors"] = (top(S),)
        near(S, [top(S), es[0][1], es[1][1]])


def near(S, ns):
    """The facts that relate the nodes to each other."""
    w = S.st.worlds[-1]
    for i, a in enumerate(ns):
        S.e.touch(S.st, "N", a)
        for b in ns[:i]:
            if not a.eq(b):
                for c in w.wf_pair(a, b):
                    S.e.assume(S.st, c)


def low(S, x, d, y, b):
    """How many events there are at least from x (at depth d) to y (at depth b)."""
    same = zand(x[0] == y[0], eqv(x[1], y[1]))
    d, b = zi(d), zi(b)
    if x[0] == OPEN and y[0] == OPEN:
        r = mkif(d > b, d - b + 3, mkif(d == b, 3, b - d + 1))
    elif x[0] == CLOSE and y[0] == CLOSE:
        r = mkif(d > b, d - b + 1, mkif(d == b, 3, b - d + 3))
    elif x[0] == OPEN:
        r = mkif(d > b, d - b + 2, mkif(d == b, mkif(eqv(x[1], y[1]), 2, 4), b - d + 2))
    else:
        r = mkif(d > b, d - b + 2, mkif(d == b, 2, b - d + 2))
    return mkif(same, 1, r)


def shallow(fwd):
    def f(S, a):
        t = S.v(a)
        o = t.f[0]
        if o.var == 0:
            return S.ret(None)
        m = limit(S, a)
        e1, e2 = o.f[0].f
        (v1, h1, d1), (v2, h2, d2) = devent(e1), devent(e2)
        x, y = (v1, S.n(h1)), (v2, S.n(h2))
        item, other, oh = (e1, e2, h2) if fwd else (e2, e1, h1)
        cur, d = (x, d1) if fwd else (y, d2)
        if same_event(S, x, y):
            S.lemma("the ends meet in the last event", zand(time(S, x) == time(S, y), low(S, x, d1, y, d2) == 1))
            S.release(S.n(oh), "FrozenNode")
            put(S, a, ("st", None, t.f[1]))
            return S.ret(("some", item))
        if cur[0] == (OPEN if fwd else CLOSE) and S.branch(eqv(d, m)):
            r = (1 - cur[0], cur[1])
        else:
            r = step(S, cur, fwd)
        if r is None:
            S.lemma("an event is left", False)
            raise Unsupported("end of the tree")
        nd = d
        if r[0] == cur[0] == (OPEN if fwd else CLOSE):
            nd = zi(d) + 1
        elif r[0] == cur[0]:
            nd = zi(d) - 1
        # whatever is skipped lies too deep
        z = z3.Const("skipped", N)
        S.e.touch(S.st, "N", z)
        near(S, [top(S), x[1], y[1], r[1]])
        w = S.st.worlds[-1]
        t1, t2 = (time(S, cur), time(S, r)) if fwd else (time(S, r), time(S, cur))
        S.lemma("forward" if fwd else "backward", t1 < t2)
        S.lemma("no event is skipped", zimp(zand(w.f("alive")(z), rt(S, z) == rt(S, cur[1]), w.contains(top(S), z),
                                                 S.gh("dep", z) - S.gh("dep", top(S)) <= m),
                                            zand(*[z3.Or(w.f(k)(z) <= t1, w.f(k)(z) >= t2) for k in "oc"])))
        S.lemma("the event lies in the range", zand(placed(S, m, r, nd), ordered(S, *((r, y) if fwd else (x, r)))))
        S.lemma("the bounds on the number of events agree",
                low(S, x, d1, y, d2) <= 1 + (low(S, r, nd, y, d2) if fwd else low(S, x, d1, r, nd)))
        S.acquire(r[1], "FrozenNode")
        n = ("var", r[0], ("st", r[1], nd))
        put(S, a, ("st", ("some", ("st", n, other) if fwd else ("st", other, n)), t.f[1]))
        return S.ret(("some", item))
    return f


def shallow_hint(S, a):
    o = S.v(a).f[0]
    if o.var == 0:
        return Rel(lambda v: hint(v, 0, 0))
    (v1, h1, d1), (v2, h2, d2) = map(devent, o.f[0].f)
    x, y = (v1, S.n(h1)), (v2, S.n(h2))
    lo = low(S, x, d1, y, d2)
    S.lemma("an event is left", lo >= 1)
    # Without a limit, nothing more than all events of the range is to come.
    return Rel(lambda v: hint(v, lo, time(S, y) - time(S, x) + 1))


def shallow_top(S, a, m):
    lim = Agg(0, ()) if m.var == 0 or S.branch(eqv(m.f[0], MAXU)) else ("some", zi(m.f[0]) + 1)
    if a.var == 0:
        return S.ret(("st", None, lim))
    n = S.n(a.f[0])
    S.acquire(n, "FrozenNode")
    return S.ret(("st", ("some", ("st", ("var", OPEN, ("st", n, 0)), ("var", CLOSE, ("st", n, 0)))), lim))


nm = "StableShallowDepthFirstTraverser"
P = "traverse::%s::<T>::" % nm
spec(IT(nm) + "next", props="C09 C10 C15", inv=shallow_inv)(shallow(True))
spec(BACK(nm) + "next_back", props="C09 C10 C15", inv=shallow_inv)(shallow(False))
spec(IT(nm) + "size_hint", props="C13", inv=shallow_inv)(shallow_hint)
spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C10 C15")(clone("FrozenNode"))
spec(P + "peek", props="C10")(peek(lambda o: o.f[0].f[0]))
spec(P + "peek_back", props="C10")(peek(lambda o: o.f[0].f[1]))
spec(P + "max_depth", props="C09")(limit)
spec(P + "with_toplevel", props="C09 C10 C15")(shallow_top)


# ------------------------------------------------------------- skipping to the close of the current node
def ev_close(K):
    def f(S, a):
        var, n = event(S, S.v(a))
        x = n if var == OPEN else S.parent(n)
        if S.is_null(x):
            return S.ret(None)
        S.lemma("the close of the innermost node around", S.st.worlds[-1].contains(x, n))
        S.acquire(x, K)
        return S.ret(("some", x))
    return f


for K in KINDS:
    spec("traverse::DftEvent::<%s<T>>::close_current" % K, props="C09 C15")(ev_close(K))


def close_current(kind, last, after, make):
    """`last(S, o, x, t)`: whether the traversal ends before time t, that is after the event x;
    `after(S, o, p)`: the event after the close of `p`, if the traversal goes on, `make` the state with it;
    what is held besides the next event is released at the end."""
    def f(S, a):
        t = S.v(a)
        o = t.f[0]
        if o.var == 0:
            return S.ret(None)
        ev, oth = o.f[0].f
        h = ev.f[0]
        x = (ev.var, S.n(h))
        oh = oth.f[0] if isinstance(oth, Agg) and oth.var is not None else oth
        if x[0] == CLOSE:
            p, res = x[1], h
        else:
            p = S.parent(x[1])
            if S.is_null(p) or S.branch(last(S, oth, x, p)):
                S.release(x[1], kind)
                S.release(S.n(oh), kind)
                put(S, a, make(None, None, t))
                return S.ret(None)
            S.acquire(p, kind)
            res = level_up(S, h, p)
        r = after(S, oth, (CLOSE, p))
        if r is None:
            if x[0] == OPEN:
                S.release(x[1], kind)
            S.release(S.n(oh), kind)
            put(S, a, make(None, None, t))
        else:
            S.acquire(r[1], kind)
            if x[0] == OPEN:
                S.release(x[1], kind)
            put(S, a, make(next_ev(S, r, res), oth, t))
        return S.ret(("some", res if isinstance(res, (Agg, tuple)) else p))
    return f


def level_up(S, h, p):
    if isinstance(h, Agg) and len(h.f) == 2:
        return ("st", p, zi(h.f[1]) - 1)
    return p


def next_ev(S, r, res):
    if isinstance(res, Agg) and len(res.f) == 2:
        d = zi(res.f[1])
    elif isinstance(res, tuple):
        d = zi(res[2])
    else:
        return ("var",) + r
    return ("var", r[0], ("st", r[1], d if r[0] == OPEN else d - 1))


def ends_at_start(S, oth, x, p):
    s = S.n(oth)
    return zand(rt(S, s) == rt(S, x[1]), S.gh("c", s) >= time(S, x), S.gh("c", s) < S.gh("c", p))


def on_to_start(S, oth, c):
    return None if S.branch(c[1] == S.n(oth)) else step(S, c, True)


spec("traverse::DepthFirstTraverser::<T>::close_current", props="C09 C15")(
    close_current("Node", ends_at_start, on_to_start, lambda n, o, t: ("st", None if n is None else ("some", ("st", n, o)))))


def ends_at_back(S, oth, x, p):
    y = (oth.var, S.n(oth.f[0]))
    return time(S, y) < S.gh("c", p)


def on_to_back(S, oth, c):
    y = (oth.var, S.n(oth.f[0]))
    return None if same_event(S, c, y) else step(S, c, True)


spec("traverse::StableDepthFirstTraverser::<T>::close_current", props="C09 C10 C15", inv=stable_inv)(
    close_current("FrozenNode", ends_at_back, on_to_back,
                  lambda n, o, t: ("st", None if n is None else ("some", ("st", n, o)))))
spec("traverse::StableShallowDepthFirstTraverser::<T>::close_current", props="C09 C10 C15", inv=shallow_inv)(
    close_current("FrozenNode", ends_at_back, on_to_back,
                  lambda n, o, t: ("st", None if n is None else ("some", ("st", n, o)), t.f[1])))
spec("FrozenNode::<T>::shallow_depth_first_traverse_stable", props="C09 C10 C15")(
    lambda S, a, m: shallow_top(S, Agg(1, (own(S, a),)), m))


# ------------------------------------------------------------- breadth first
def bfs_inv(S, a):
    inner, root, k = S.v(a).f
    o, m = inner.f
    m = zi(MAXU if m.var == 0 else zi(m.f[0]) - 1)
    st, e = S.st, S.e
    if root.var == 0:
        return
    r = S.n(root.f[0])
    S.require(m == zi(k))
    w = st.worlds[-1]
    ys = []
    for i in (0, 1):
        y = z3.Const("level%d" % i, N)
        e.touch(st, "N", y)
        ys.append((y, z3.And(w.f("alive")(y), w.contains(r, y), w.f("dep")(y) - w.f("dep")(r) == zi(k) + i)))
    st.x["passed"] = ys
    st.x["anchors"] = (r,) + tuple(y for y, c in ys)
    ns = [r] + [y for y, c in ys]
    if o.var == 1:
        (v1, h1, d1), (v2, h2, d2) = map(devent, o.f[0].f)
        x, y = (v1, S.n(h1)), (v2, S.n(h2))
        S.require(zand(y[0] == CLOSE, eqv(y[1], r), zi(d2) == 0, placed(S, m, x, d1, r)))
        ns += [x[1]]
    near(S, ns)


def bfs(S, a):
    t = S.v(a)
    inner, root, k = t.f
    if root.var == 0:
        return S.ret(None)
    r = S.n(root.f[0])
    k = zi(k)
    o = inner.f[0]
    res = S.result()
    ys = S.st.x["passed"]
    w = S.st.worlds[-1]
    from_ = 0
    if o.var == 1:
        x, y = [(v, S.n(h)) for v, h, d in map(devent, o.f[0].f)]
        from_ = time(S, x)
    lim = lambda d: None if S.branch(eqv(d, MAXU)) else ("some", zi(d) + 1)

    def none_left(i, t0):
        """No node at level i opens at t0 or later."""
        y, c = ys[i]
        return zimp(zand(c, w.f("o")(y) >= t0), False)

    def first(z, i, t0):
        """z is the first node at level i that opens at t0 or later."""
        y, c = ys[i]
        near(S, [r, z, y])
        return zand(w.f("alive")(z), w.contains(r, z), w.f("dep")(z) - w.f("dep")(r) == k + i, w.f("o")(z) >= t0,
                    zimp(zand(c, w.f("o")(y) >= t0), w.f("o")(z) <= w.f("o")(y)))

    found = isinstance(res, Agg) and res.var == 1
    if found:
        h, d = res.f[0].f
        z = S.n(h)
        S.e.touch(S.st, "N", z)
        i = 0 if S.branch(eqv(d, k)) else 1
        if i == 1:
            S.lemma("the depth is this one or the next", eqv(d, k + 1))
        elif o.var == 0:
            S.lemma("the level has been finished", False)
        if i == 1 and o.var == 1:
            S.lemma("no node of the level is skipped", none_left(0, from_))
        S.lemma("the first node of the level", first(z, i, 0 if i == 1 else from_))
        S.acquire(z, "FrozenNode")
        S.acquire(z, "FrozenNode")
        if i == 1:
            S.acquire(r, "FrozenNode")
            if o.var == 1:
                S.release(y[1], "FrozenNode")
        if o.var == 1:
            S.release(x[1], "FrozenNode")
        nxt_ = ("some", ("st", ("var", CLOSE, ("st", z, k + i)), ("var", CLOSE, ("st", r, 0))))
        put(S, a, ("st", ("st", nxt_, lim(k + i)), root, k + i))
        return S.ret(("some", ("st", z, k + i)))
    if o.var == 1:
        S.lemma("no node of the level is skipped", none_left(0, from_))
    S.lemma("there is no further level", zimp(k < MAXU, none_left(1, 0)))
    S.lemma("whatever is left lies in these levels", True)
    last = S.branch(eqv(k, MAXU))
    if o.var == 1:
        S.release(x[1], "FrozenNode")
        S.release(y[1], "FrozenNode")
    S.release(r, "FrozenNode")
    k2 = k if last else k + 1
    put(S, a, ("st", ("st", None, lim(k2)), None, k2))
    return S.ret(None)


def bfs_hint(S, a):
    inner, root, k = S.v(a).f
    if root.var == 0:
        return Rel(lambda v: hint(v, 0, 0))
    r = S.n(root.f[0])
    return Rel(lambda v: hint(v, 0, S.gh("c", r) - S.gh("o", r)))


def bfs_start(S, h, k):
    """A traverser with the handle `h` to its toplevel node."""
    r = S.n(h)
    lim = None if S.branch(eqv(k, MAXU)) else ("some", zi(k) + 1)
    S.acquire(r, "FrozenNode")
    S.acquire(r, "FrozenNode")
    return S.ret(("st", ("st", ("some", ("st", ("var", OPEN, ("st", r, 0)), ("var", CLOSE, ("st", r, 0)))), lim),
                  ("some", r), k))


def own(S, a):
    """A new handle to the node behind `a`."""
    n = S.n(a)
    S.acquire(n, "FrozenNode")
    return S.v(a)


nm = "NonAllocatingBreadthFirstTraverser"
P = "traverse::%s::<T>::" % nm
spec(IT(nm) + "next", props="C11 C15", inv=bfs_inv)(bfs)
spec(IT(nm) + "size_hint", props="C13", inv=bfs_inv)(bfs_hint)
spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C11 C15")(clone("FrozenNode"))
spec(P + "with_toplevel", props="C11 C15")(bfs_start)
spec("FrozenNode::<T>::non_allocating_breadth_first_traverse_stable", props="C11 C15")(
    lambda S, a, k: bfs_start(S, own(S, a), k))


# ------------------------------------------------------------- breadth first, with a queue
# The queue holds the nodes of the level that are still to come, a separator, and the children of those that have
# been yielded; only the separator when there is nothing more, and nothing after the end.
SEP = ("val", Agg(1, ()))


def queue_form(S, r, k, t):
    """The queue after the node of level k that opens at time t: (this level, the following one)."""
    w = S.st.worlds[-1]
    f = w.f
    under = lambda x, d: z3.And(f("alive")(x), w.contains(r, x), f("dep")(x) - f("dep")(r) == d)
    a = lambda x: z3.And(under(x, zi(k)), f("o")(x) > t)
    b = lambda x: z3.And(under(x, zi(k) + 1), f("o")(f("parent")(x)) <= t)
    return a, b, under


def abfs_inv(S, a):
    q, k = S.v(a).f
    if len(q.parts) != 3:
        return
    e, st = S.e, S.st
    r = z3.Const("toplevel", N)
    t = z3.Const("after", z3.IntSort())
    e.touch(st, "N", r)
    e.assume(st, st.worlds[-1].f("alive")(r))
    A, B, under = queue_form(S, r, k, t)
    for (_, P, n), Q in zip((q.parts[0], q.parts[2]), (A, B)):
        e.theory(st, lambda x, P=P, n=n, Q=Q: z3.And(P(x) == Q(x), z3.Implies(P(x), n >= 1)))
    st.x["bfs"] = (r, t)
    st.x["anchors"] = (r,)


def level(S, z, P, Q=None):
    """z is the first of the nodes P."""
    w = S.st.worlds[-1]
    y = z3.Const("any_of_level", N)
    up = w.f("parent")
    near(S, [S.st.x["bfs"][0], z, y, up(y), up(z), up(up(y))])
    return y, zand(P(z), zimp(P(y), w.f("o")(z) <= w.f("o")(y)))


def abfs_item(S, a, res, again=False):
    """(parts, level of the item, item) of the item that comes next, or None."""
    q, k = S.v(a).f
    w = S.st.worlds[-1]
    if len(q.parts) < 3:
        return None
    (_, A, n), _, (_, B, m) = q.parts
    r, t = S.st.x["bfs"]
    FA, FB, under = queue_form(S, r, k, t)
    if not (isinstance(res, Agg) and res.var == 1):
        y = z3.Const("any_of_level", N)
        near(S, [r, y, w.f("parent")(y)])
        S.lemma("nothing is left of the level", z3.Not(FA(y)))
        S.lemma("there is no further level", z3.Not(under(y, zi(k) + 1)))
        return None
    h, d = res.f[0].f
    z = S.n(h)
    S.e.touch(S.st, "N", z)
    i = 0 if S.branch(eqv(d, k)) else 1
    if i == 0:
        y, c = level(S, z, FA)
        S.lemma("the first node of the level", c)
    else:
        S.lemma("the depth is this one or the next", eqv(d, zi(k) + 1))
        y, c = level(S, z, lambda x: under(x, zi(k) + 1))
        S.lemma("nothing is left of the level", z3.Not(FA(y)))
        S.lemma("the first node of the next level", c)
    if not again:
        return i, z, None, None
    # the queue is in the form again
    A2, B2, _ = queue_form(S, r, zi(k) + i, w.f("o")(z))
    rest = FB if i == 0 else (lambda x: z3.BoolVal(False))
    kid = lambda x: z3.And(w.f("alive")(x), w.f("parent")(x) == z)
    S.lemma("what is left of the level", (FA(y) if i == 0 else FB(y)) == z3.Or(A2(y), y == z))
    S.lemma("the children join the next level", z3.Or(rest(y), kid(y)) == B2(y))
    x = z3.Const("any_child", N)
    near(S, [r, z, y, x, w.f("parent")(y)])
    S.lemma("behind those that are there", zimp(z3.And(rest(y), kid(x)), w.f("o")(y) < w.f("o")(x)))
    return i, z, (lambda x: z3.And((A if i == 0 else B)(x), w.f("o")(x) > w.f("o")(z))), n if i == 0 else m


def siblings_in(S, z):
    """The value of the traversal of the children of z."""
    x = S.first(z)
    if S.is_null(x):
        return S.lift(ty_of(S, "StableSiblingsTraverser"), ("st", None))
    y = S.prevc(x)
    S.acquire(x, "FrozenNode")
    S.acquire(y, "FrozenNode")
    return S.lift(ty_of(S, "StableSiblingsTraverser"), ("st", ("some", ("st", x, y))))


def ty_of(S, nm):
    nm = "traverse::%s<T>" % nm
    for i, t in enumerate(S.e.types):
        if t["name"] == nm:
            return i
    raise Unsupported("no " + nm)


def element(S, x):
    fty = next(i for i, t in enumerate(S.e.types) if t["name"] == "FrozenNode<T>")
    return Agg(0, (S.e.wrap(fty, x),))


def abfs(S, a):
    q, k = S.v(a).f
    item = abfs_item(S, a, S.result(), True)
    if item is None:
        S.put(a, Agg(None, (Seq(()), k)))
        return S.ret(None)
    i, z, left, n = item
    kids = ("iter", "traverse::StableSiblingsTraverser<T>", siblings_in(S, z), lambda var, x, d: (True, element(S, x)))
    k2 = k if i == 0 else zi(k) + 1
    this = ("set", left, n - 1)
    S.put(a, Agg(None, (Seq((this,) + q.parts[1:] + (kids,) if i == 0 else (this, SEP, kids)), k2)))
    return S.ret(("some", ("st", z, k2)))


def abfs_peek(S, a):
    item = abfs_item(S, a, S.result())
    if item is None:
        return S.ret(None)
    S.acquire(item[1], "FrozenNode")
    k = S.v(a).f[1]
    return S.ret(("some", ("st", item[1], k if item[0] == 0 else zi(k) + 1)))


def abfs_hint(S, a):
    q, k = S.v(a).f
    if len(q.parts) < 3:
        return Rel(lambda v: hint(v, 0, 0))
    n = q.parts[0][2] + q.parts[2][2]
    if S.branch(n == 0):
        abfs_item(S, a, None)
        return Rel(lambda v: hint(v, 0, 0))
    # all nodes of the queue are to come, and whatever is below them
    return Rel(lambda v: zand(v.f[0] <= n, isinstance(v.f[1], Agg) and v.f[1].var == 0))


def abfs_start(S, h, k):
    n = S.n(h)
    node = ("val", S.lift(ev_ty(S), ("var", 0, h)))
    w = S.st.worlds[-1]
    if S.branch(eqv(k, 0)):
        y = z3.Const("any_of_level", N)
        near(S, [n, y, w.f("parent")(y)])
        A, B, under = queue_form(S, n, 0, w.f("o")(n) - 1)
        S.lemma("the first level is the node itself", z3.And(A(y) == (y == n), z3.Not(B(y))))
        return S.ret(("st", Seq((node, SEP)), k))
    lim = None if S.branch(eqv(k, MAXU)) else ("some", zi(k) + 1)
    S.acquire(n, "FrozenNode")
    it = S.lift(ty_of(S, "StableShallowDepthFirstTraverser"),
                ("st", ("some", ("st", ("var", OPEN, ("st", n, 0)), ("var", CLOSE, ("st", n, 0)))), lim))
    nodes = ("iter", "traverse::StableShallowDepthFirstTraverser<T>", it,
             lambda var, x, d: (zand(var == OPEN, d == k), element(S, x)))
    return S.ret(("st", Seq((nodes, SEP)), k))


def ev_ty(S):
    for i, t in enumerate(S.e.types):
        if t["name"] == "traverse::breadth_first::QueuedEvent<T>":
            return i
    raise Unsupported("no element type")


nm = "AllocatingBreadthFirstTraverser"
AP = "traverse::%s::<T>::" % nm
spec(IT(nm) + "next", props="C11 C15", inv=abfs_inv, unroll=True)(abfs)
spec(AP + "peek", props="C11 C15", inv=abfs_inv)(abfs_peek)
spec(IT(nm) + "size_hint", props="C13", inv=abfs_inv)(abfs_hint)
spec(AP + "with_toplevel", props="C11 C15")(abfs_start)
spec("FrozenNode::<T>::allocating_breadth_first_traverse_stable", props="C11 C15")(
    lambda S, a, k: abfs_start(S, own(S, a), k))
spec("<traverse::breadth_first::QueuedEvent<T> as std::clone::Clone>::clone", props="C11 C15")(clone("FrozenNode"))


@spec("<traverse::%s<T> as std::clone::Clone>::clone" % nm, props="C11 C15", inv=abfs_inv)
def abfs_clone(S, a):
    """The same queue of the same nodes (VecDeque clones them one by one)."""
    return S.v(a)
