"""Contracts of the hierarchy-editing operations."""
from speclib import *


# ------------------------------------------------------------- effects
def cut(S, n, p):
    """The subtree of `n` (a child of `p`) becomes a tree of its own: what that means in document order."""
    g = S.forest()
    r, o, c, i, d = (g(k, n) for k in ("rt", "o", "c", "idx", "dep"))
    L = c - o + 1
    inside = lambda y: zand(g("alive", y), g("rt", y) == r, g("o", y) >= o, g("c", y) <= c)
    rest = lambda y: zand(g("alive", y), g("rt", y) == r, znot(inside(y)))
    S.shift("idx", lambda y: zand(g("alive", y), g("parent", y) == p, g("idx", y) > i), lambda y: g("idx", y) - 1)
    S.shift("idx", lambda y: y == n, z3.IntVal(0))
    S.shift("o", lambda y: zand(rest(y), g("o", y) > c), lambda y: g("o", y) - L)
    S.shift("c", lambda y: zand(rest(y), g("c", y) > c), lambda y: g("c", y) - L)
    S.shift("o", inside, lambda y: g("o", y) - o)
    S.shift("c", inside, lambda y: g("c", y) - o)
    S.shift("dep", inside, lambda y: g("dep", y) - d)
    S.shift("rt", inside, n)


def paste(S, n, p, a):
    """The tree of root `n` becomes the subtree of a child of `p`, after the child `a` if any."""
    g = S.forest()
    r, d = g("rt", p), g("dep", p) + 1
    L = g("c", n) + 1
    t = g("o", p) + 1 if a is None else g("c", a) + 1
    i = z3.IntVal(0) if a is None else g("idx", a) + 1
    inside = lambda y: zand(g("alive", y), g("rt", y) == n)
    rest = lambda y: zand(g("alive", y), g("rt", y) == r)
    S.shift("idx", lambda y: zand(g("alive", y), g("parent", y) == p, g("idx", y) >= i), lambda y: g("idx", y) + 1)
    S.shift("idx", lambda y: y == n, i)
    S.shift("o", lambda y: zand(rest(y), g("o", y) >= t), lambda y: g("o", y) + L)
    S.shift("c", lambda y: zand(rest(y), g("c", y) >= t), lambda y: g("c", y) + L)
    S.shift("o", inside, lambda y: g("o", y) + t)
    S.shift("c", inside, lambda y: g("c", y) + t)
    S.shift("dep", inside, lambda y: g("dep", y) + d)
    S.shift("rt", inside, r)


def single(S, n):
    """`n` is a tree by itself."""
    for k, v in (("rt", n), ("o", z3.IntVal(0)), ("c", z3.IntVal(1)), ("idx", z3.IntVal(0)), ("dep", z3.IntVal(0))):
        S.wr(k, n, v)


def unlink(S, n):
    """`n` (not a root) leaves its parent and its siblings; its subtree stays as it is."""
    p, a, b = S.parent(n), S.prev(n), S.next(n)
    cut(S, n, p)
    an, bn = S.is_null(a), S.is_null(b)
    if an:
        S.wr("first", p, b)
    else:
        S.wr("next", a, b)
    if not bn:
        S.wr("prevc", b, S.prevc(n))
    elif not an:
        S.wr("prevc", S.first(p), a)
    S.wr("nch", p, S.rd("nch", p) - 1)
    S.wr("parent", n, NN)
    S.wr("prevc", n, n)
    S.wr("next", n, NN)


def link(S, n, p, a, b):
    """`n` becomes a child of `p` between the adjacent siblings `a` and `b` (null at the ends)."""
    an, bn = S.is_null(a), S.is_null(b)
    paste(S, n, p, None if an else a)
    S.wr("parent", n, p)
    if an and bn:
        S.wr("prevc", n, n)
    elif an:
        S.wr("prevc", n, S.prevc(b))
        S.wr("prevc", b, n)
    elif bn:
        S.wr("prevc", n, a)
        S.wr("prevc", S.first(p), n)
    else:
        S.wr("prevc", n, a)
        S.wr("prevc", b, n)
    S.wr("next", n, b)
    if an:
        S.wr("first", p, n)
    else:
        S.wr("next", a, n)
    S.wr("nch", p, S.rd("nch", p) + 1)


def place(S, var, x, p=None):
    """The place `InsertAs` / `AdoptAs` variant `var` relative to `x` stands for: (parent, prev, next)."""
    if var == 0:
        return x, NN, S.first(x)
    if var == 1:
        return x, S.last(x), NN
    if p is None:
        p = S.parent(x)
        if S.is_null(p):
            return None
    if var == 2:
        return p, S.prev(x), x
    return p, x, S.next(x)


def new_node(S, data, t):
    """A node with `data` belonging to tree `t`, unlinked, with one handle."""
    n = S.e.fresh_obj(S.st, "N")
    single(S, n)
    S.wr("data", n, data)
    for f in ("parent", "first", "next"):
        S.wr(f, n, NN)
    S.wr("prevc", n, n)
    S.wr("nch", n, 0)
    S.wr("mtree", n, t)
    S.wr("mstrong", n, True)
    S.wr("mref", n, 1)
    S.wr("magg", n, 0)
    S.tacq(t)
    return n


def new_tree(S, root):
    t = S.e.fresh_obj(S.st, "T")
    S.wr("root", t, root)
    S.wr("own", t, True)
    S.wr("ng", t, 0)
    S.wr("tstrong", t, 0)
    return t


def move_tree(S, n, t2):
    """The nodes of the subtree of `n` become members of tree `t2`, taking their locks along."""
    e, st = S.e, S.st
    w = st.worlds[-1]
    f = w.f
    t1 = S.tree(n)
    if not e.proves(st, t1 != t2):
        raise Unsupported("membership change to the same tree")
    if e.proves(st, S.first(n) == NN):
        inside = lambda x: x == n
        K = mkif(zand(S.rd("mstrong", n), S.rd("magg", n) > 0), 1, 0)
        Z = mkif(S.rd("mstrong", n), 1, 0)
        st.x["moves"] = st.x.get("moves", ()) + ((inside, n, t2, None, None),)
    else:
        st.x["counts"] = n
        e.touch_counts(st)
        inside = lambda x: z3.And(f("alive")(x), w.contains(n, x))
        r = f("rt")(n)
        K = f("cl")(r, f("c")(n)) - f("cl")(r, f("o")(n))
        Z = f("cs")(r, f("c")(n)) - f("cs")(r, f("o")(n))
        st.x["moves"] = st.x.get("moves", ()) + ((inside, t1, t2, K, Z),)
    K, Z = zi(K), zi(Z)
    g1, g2 = S.rd("ng", t1), S.rd("ng", t2)
    if S.branch(K > 0):
        if S.branch(g1 > 0):
            if not S.branch(g2 >= 0):
                S.panic("locked")
            S.wr("ng", t1, g1 - K)
            S.wr("ng", t2, g2 + K)
        else:
            if not S.branch(g2 <= 0):
                S.panic("locked")
            S.wr("ng", t1, g1 + K)
            S.wr("ng", t2, g2 - K)
    S.st.x["moved"] = True
    e.bulk(S.st, "mtree", inside, t2)
    S.wr("tstrong", t2, S.rd("tstrong", t2) + Z)
    ts = S.rd("tstrong", t1)
    S.wr("tstrong", t1, ts - Z + 1)
    if S.branch(zand(S.rd("own", t1), eqv(S.rd("root", t1), n))):
        # the entire tree moves
        S.wr("own", t1, False)
    S.drop_tree(t1)


def check_grant(S, n, g):
    if not S.branch(eqv(S.tree(n), S.n(g))):
        S.panic("the grant is for another tree")


def handle(S, K, n):
    """The handle a creating operation returns."""
    if K == "HotNode":
        if not S.lock(n, 1):
            S.panic("lock")
    return n


def kinds(name, f, props, hot=True, **kw):
    """f(S, K, n, args..): on Node with an explicit grant, on HotNode with its own lock."""
    def g(S, a, gr, *x):
        n = S.n(a)
        check_grant(S, n, gr)
        return f(S, "Node", n, *x)

    def h(S, a, *x):
        return f(S, "HotNode", S.n(a), *x)
    spec("Node::<T>::" + name, props=props + " C16", **kw)(g)
    if hot:
        spec("HotNode::<T>::" + name, props=props, **kw)(h)


# ------------------------------------------------------------- creation
def create(S, K, n, data, var):
    pl = place(S, var, n)
    if pl is None:
        return None
    x = new_node(S, data, S.tree(n))
    link(S, x, *pl)
    return handle(S, K, x)


def creates(name, var):
    def f(S, K, n, data):
        x = create(S, K, n, data, var)
        if x is None:
            S.panic("sibling of the root")
        return S.ret(x)
    kinds(name, f, "C01 C02 C19 C23")


def try_creates(name, var):
    def f(S, K, n, data):
        x = create(S, K, n, data, var)
        return S.ret(("err", "SiblingsWithoutParent") if x is None else ("ok", x))
    kinds(name, f, "C01 C02 C06 C19 C23")


creates("create_as_first_child", 0)
creates("create_as_last_child", 1)
creates("create_as_prev_sibling", 2)
creates("create_as_next_sibling", 3)
try_creates("try_create_as_prev_sibling", 2)
try_creates("try_create_as_next_sibling", 3)


def create_as(S, K, n, data, dest):
    x = create(S, K, n, data, dest.var)
    if x is None:
        S.panic("sibling of the root")
    return S.ret(x)


def try_create_as(S, K, n, data, dest):
    x = create(S, K, n, data, dest.var)
    return S.ret(("err", "SiblingsWithoutParent") if x is None else ("ok", x))


kinds("create_node_as", create_as, "C01 C02 C19")
kinds("try_create_node_as", try_create_as, "C01 C02 C06 C19")


def tree_of(S, data):
    t = S.e.fresh_obj(S.st, "T")
    n = S.e.fresh_obj(S.st, "N")
    single(S, n)
    S.wr("root", t, n)
    S.wr("own", t, True)
    S.wr("ng", t, 0)
    S.wr("tstrong", t, 0)
    S.wr("data", n, data)
    for f in ("parent", "first", "next"):
        S.wr(f, n, NN)
    S.wr("prevc", n, n)
    S.wr("nch", n, 0)
    S.wr("mtree", n, t)
    S.wr("mstrong", n, True)
    S.wr("mref", n, 1)
    S.wr("magg", n, 0)
    S.tacq(t)
    return n


@spec("Node::<T>::new_tree", props="C01 C02 C19")
def node_new_tree(S, data):
    return S.ret(tree_of(S, data))


@spec("HotNode::<T>::new_tree", props="C01 C02 C14 C19")
def hot_new_tree(S, data):
    n = tree_of(S, data)
    S.lock(n, 1)
    return S.ret(n)


def interrupting_parent(S, K, n, data):
    p, b, t = S.parent(n), S.next(n), S.tree(n)
    x = new_node(S, data, t)
    if S.is_null(p):
        g = S.forest()
        ins = lambda y: zand(g("alive", y), g("rt", y) == n)
        for k in ("o", "c", "dep"):
            S.shift(k, ins, lambda y, k=k: g(k, y) + 1)
        S.shift("rt", ins, x)
        S.wr("c", x, g("c", n) + 2)
        S.wr("root", t, x)
        S.wr("first", x, n)
        S.wr("parent", n, x)
        S.wr("nch", x, 1)
    else:
        link(S, x, p, n, b)
        unlink(S, n)
        link(S, n, x, NN, NN)
    return S.ret(handle(S, K, x))


def interrupting_child(S, K, n, data):
    f = S.first(n)
    k = S.rd("nch", n)
    w = S.st.worlds[-1]
    x = new_node(S, data, S.tree(n))
    g = S.forest()
    r, o, c = g("rt", n), g("o", n), g("c", n)
    ins = lambda y: zand(g("alive", y), g("rt", y) == r, g("o", y) > o, g("c", y) < c)
    S.shift("o", lambda y: zand(g("alive", y), g("rt", y) == r, g("o", y) > c), lambda y: g("o", y) + 2)
    S.shift("c", lambda y: zand(g("alive", y), g("rt", y) == r, g("c", y) >= c), lambda y: g("c", y) + 2)
    for q in ("o", "c", "dep"):
        S.shift(q, ins, lambda y, q=q: g(q, y) + 1)
    for q, v in (("rt", r), ("o", o + 1), ("c", c + 1), ("dep", g("dep", n) + 1)):
        S.wr(q, x, v)
    if not S.is_null(f):
        S.e.bulk(S.st, "parent", lambda y: z3.And(w.f("alive")(y), w.f("parent")(y) == n), x)
    S.wr("parent", x, n)
    S.wr("first", x, f)
    S.wr("nch", x, k)
    S.wr("first", n, x)
    S.wr("nch", n, 1)
    return S.ret(handle(S, K, x))


kinds("create_as_interrupting_parent", interrupting_parent, "C01 C03 C19")
kinds("create_as_interrupting_child", interrupting_child, "C01 C03 C19")


# ------------------------------------------------------------- detaching
def detach(S, K, n):
    if S.is_null(S.parent(n)):
        return S.ret(None)
    unlink(S, n)
    move_tree(S, n, new_tree(S, n))
    return S.ret(None)


kinds("detach_subtree", detach, "C01 C04 C19 C15")


def move(S, n, dest):
    """Moves the subtree of `n`; returns the error, if any, without having changed anything."""
    x = S.n(dest.f[0])
    pl = place(S, dest.var, x)
    if pl is None:
        return "SiblingsWithoutParent"
    p = pl[0]
    w = S.st.worlds[-1]
    S.e.touch(S.st, "N", p)
    if S.branch(w.contains(n, p)):
        return "AncestorDescendantLoop"
    same = S.branch(eqv(S.tree(n), S.tree(x)))
    if dest.var >= 2 and same and S.branch(eqv(n, x)):
        return None
    root = S.is_null(S.parent(n))
    t1, t2 = S.tree(n), S.tree(x)
    if not root:
        unlink(S, n)
    if not same:
        if root:
            S.tacq(t1)
        move_tree(S, n, t2)
        if root:
            S.drop_tree(t1)
    link(S, n, *place(S, dest.var, x, p))
    return None


def detach_insert(S, K, n, dest):
    err = move(S, n, dest)
    if err:
        S.panic(err)


def try_detach_insert(S, K, n, dest):
    err = move(S, n, dest)
    return S.ret(("err", err) if err else ("ok", UNIT))


kinds("detach_insert_subtree", detach_insert, "C01 C04 C19 C15")
kinds("try_detach_insert_subtree", try_detach_insert, "C01 C04 C06 C19 C15")


# ------------------------------------------------------------- replacing by the children
def replace(S, n):
    p, fc, k, t = S.parent(n), S.first(n), S.rd("nch", n), S.tree(n)
    w = S.st.worlds[-1]
    if S.is_null(p):
        if S.is_null(fc):
            return "EmptyTree"
        if S.branch(k > 1):
            return "SiblingsWithoutParent"
        g = S.forest()
        ins = lambda y: zand(g("alive", y), g("rt", y) == n, y != n)
        for q in ("o", "c", "dep"):
            S.shift(q, ins, lambda y, q=q: g(q, y) - 1)
        S.shift("rt", ins, fc)
        S.wr("parent", fc, NN)
        S.wr("root", t, fc)
    else:
        a, b = S.prev(n), S.next(n)
        an, bn = S.is_null(a), S.is_null(b)
        if S.is_null(fc):
            unlink(S, n)
        else:
            g = S.forest()
            r, o, c, i = (g(q, n) for q in ("rt", "o", "c", "idx"))
            ins = lambda y: zand(g("alive", y), g("rt", y) == r, g("o", y) > o, g("c", y) < c)
            S.shift("idx", lambda y: zand(g("alive", y), g("parent", y) == p, g("idx", y) > i), lambda y: g("idx", y) + k - 1)
            S.shift("idx", lambda y: zand(g("alive", y), g("parent", y) == n), lambda y: g("idx", y) + i)
            for q in ("o", "c"):
                S.shift(q, lambda y, q=q: zand(g("alive", y), g("rt", y) == r, g(q, y) > c), lambda y, q=q: g(q, y) - 2)
                S.shift(q, ins, lambda y, q=q: g(q, y) - 1)
            S.shift("dep", ins, lambda y: g("dep", y) - 1)
            lc = S.prevc(fc)
            last = S.last(p)
            if an:
                S.wr("first", p, fc)
                if not bn:
                    S.wr("prevc", fc, last)
            else:
                S.wr("next", a, fc)
                S.wr("prevc", fc, a)
            if bn:
                S.wr("prevc", S.first(p), lc)
            else:
                S.wr("next", lc, b)
                S.wr("prevc", b, lc)
            S.e.bulk(S.st, "parent", lambda y: z3.And(w.f("alive")(y), w.f("parent")(y) == n), p)
            S.wr("nch", p, S.rd("nch", p) - 1 + k)
    single(S, n)
    S.wr("parent", n, NN)
    S.wr("first", n, NN)
    S.wr("next", n, NN)
    S.wr("prevc", n, n)
    S.wr("nch", n, 0)
    move_tree(S, n, new_tree(S, n))
    return None


def do_replace(S, K, n):
    err = replace(S, n)
    if err:
        S.panic(err)


def try_replace(S, K, n):
    err = replace(S, n)
    return S.ret(("err", err) if err else ("ok", UNIT))


kinds("replace_with_children", do_replace, "C01 C05 C19 C15")
kinds("try_replace_with_children", try_replace, "C01 C05 C06 C19 C15")
