"""Contracts of the comparisons (C22).

`stop(a, b)` (ghost): how many events of the depth-first traversals of the subtrees of `a` and `b`, openings and
closings in document order and the closing of `a` and `b` left out, agree before the first that does not.  Two events agree
if both are openings, the data of both nodes can be read and are equal, or both are closings."""
from speclib import *
from contracts.handles import KINDS
import prims

stop = z3.Function("stop", N, N, z3.IntSort())
EQ = prims.DF["eq"]


def ends(w, a, b):
    """The lengths of the traversals."""
    f = w.f
    return f("c")(a) - f("o")(a), f("c")(b) - f("o")(b)


def bad(w, a, b):
    """A name for the nodes and kinds of the events at `stop(a, b)`."""
    mk = lambda nm, sort: z3.Function(nm, N, N, sort)(a, b)
    return mk("stopL", N), mk("stopR", N), mk("openL", z3.BoolSort()), mk("openR", z3.BoolSort())


def definition(S, a, b):
    """What `stop` is, at a and b."""
    w = S.st.worlds[-1]
    f = w.f
    k = stop(a, b)
    la, lb = ends(w, a, b)
    x, y, ox, oy = bad(w, a, b)
    cl = [k >= 0, z3.Implies(la != lb, z3.And(k <= la, k <= lb))]
    for s, n, o, l in ((a, x, ox, la), (b, y, oy, lb)):
        cl.append(z3.Implies(k < l, z3.And(f("alive")(n), n != NN, w.contains(s, n),
                                           z3.If(o, f("o")(n), f("c")(n)) == f("o")(s) + k)))
    agree = z3.And(k < la, k < lb, ox == oy, z3.Implies(ox, z3.And(f("bflag")(x) >= 0, f("bflag")(y) >= 0,
                                                                  EQ(f("data")(x), f("data")(y)))))
    cl.append(z3.Implies(z3.Or(k < la, k < lb), z3.Not(agree)))
    return cl


def instance(w, a, b, x, y):
    """What `stop` says about events of x (in the subtree of a) and of y (in that of b) passed at the same time, and
    about each of them alone."""
    f = w.f
    k = stop(a, b)
    g = [f("alive")(x), x != NN, f("alive")(y), y != NN, w.contains(a, x), w.contains(b, y)]
    cl = []
    for dx in (0, 1):
        for dy in (0, 1):
            tx, ty = (f("c") if dx else f("o"))(x) - f("o")(a), (f("c") if dy else f("o"))(y) - f("o")(b)
            if dx != dy:
                r = z3.BoolVal(False)
            elif dx:
                continue
            else:
                r = z3.And(f("bflag")(x) >= 0, f("bflag")(y) >= 0, EQ(f("data")(x), f("data")(y)))
            cl.append(z3.Implies(z3.And(*g, tx == ty, tx < k), r))
    return cl


def theory(st, t):
    """The facts about `stop` for a node that comes up."""
    w = st.worlds[0]
    a, b = st.x["eq"]
    cl = []
    ns = [x for k, x in st.touched.values() if k == "N"]
    for x in ns:
        if not x.eq(t):
            cl += w.wf_pair(x, t)
            cl += instance(w, a, b, x, t) + instance(w, a, b, t, x)
    return cl + instance(w, a, b, t, t)


def eq_inv(S, a, b, *r):
    st, e = S.st, S.e
    a, b = S.n(a), S.n(b)
    w = st.worlds[-1]
    for c in definition(S, a, b):
        e.assume(st, c)
    st.x["eq"] = (a, b)
    for x in (a, b) + bad(w, a, b)[:2]:
        e.touch(st, "N", x)
    st.x["theory"] = theory
    for t in [t for k, t in st.touched.values() if k == "N"]:
        for c in theory(st, t):
            e.assume(st, c)
    la, lb = ends(w, a, b)
    st.x["evmax"] = (stop(a, b), la, lb)
    st.x["anchors"] = (a, b) + bad(w, a, b)[:2]


def compared(S, a, b):
    """The outcome of a comparison: True, False or None (a conflicting borrow)."""
    if any(S.st.heap.get(nm) is not None for nm in ("data", "parent", "first", "next", "prevc")) or S.st.borrows:
        raise Unsupported("comparison in a changed tree")
    w = S.st.worlds[-1]
    f = w.f
    if S.branch(a == b):
        return True
    S.e.touch(S.st, "N", a)
    S.e.touch(S.st, "N", b)
    k = stop(a, b)
    la, lb = ends(w, a, b)
    x, y, ox, oy = bad(w, a, b)
    for c in definition(S, a, b):
        S.e.assume(S.st, c)
    if S.branch(z3.And(k >= la, k >= lb)):
        return True
    if S.branch(z3.And(k < la, k < lb, ox, oy, z3.Or(f("bflag")(x) < 0, f("bflag")(y) < 0))):
        return None
    return False


@spec("node::internal::NodeCoreLink::<T>::try_eq::<T>", props="C22", summary=True, inv=eq_inv)
def link_try_eq(S, a, b):
    r = compared(S, S.n(a), S.n(b))
    return S.ret(("err", UNIT) if r is None else ("ok", z3.BoolVal(r)))


def handle_try_eq(S, a, b):
    r = compared(S, S.n(a), S.n(b))
    return S.ret(("err", UNIT) if r is None else ("ok", z3.BoolVal(r)))


def handle_eq(S, a, b):
    r = compared(S, S.n(a), S.n(b))
    if r is None:
        S.panic("borrowed")
    return z3.BoolVal(r)


spec("Node::<T>::try_eq::<T>", props="C22")(handle_try_eq)
for K in KINDS:
    spec("<%s<T> as std::cmp::PartialEq>::eq" % K, props="C22")(handle_eq)
for A in KINDS:
    for B in KINDS:
        for x, y in ((A, B), (A, "&" + B), ("&" + A, B)):
            if A != B:
                spec("<%s<T> as std::cmp::PartialEq<%s<T>>>::eq" % (x, y) if A == "Node" else
                     "node::plain::<impl std::cmp::PartialEq<%s<T>> for %s<T>>::eq" % (y, x), props="C22")(handle_eq)


def tree_compared(S, a, b):
    t, x = S.n(b), S.root(S.n(a))
    y = S.rd("root", t)
    if not S.branch(S.rd("own", t)) and not S.branch(S.alive("N", y)):
        S.acq(x)
        S.panic("released")
    return compared(S, x, y)


@spec("Tree::<T>::try_eq::<T>", props="C22")
def tree_try_eq(S, a, b):
    r = tree_compared(S, a, b)
    return S.ret(("err", UNIT) if r is None else ("ok", z3.BoolVal(r)))


@spec("<Tree<T> as std::cmp::PartialEq>::eq", props="C22")
def tree_eq(S, a, b):
    r = tree_compared(S, a, b)
    if r is None:
        S.panic("borrowed")
    return z3.BoolVal(r)
