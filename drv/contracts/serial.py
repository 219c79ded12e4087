"""Contracts of serialization and of the tree builder."""
from speclib import *
from contracts.handles import KINDS
from contracts.edit import create, tree_of, move
from contracts.traverse import take_all, step, time, event, near, rank
from contracts.data import lend
import prims
from step import Fold

B = "serial::TreeBuilder::<T>::"


# ------------------------------------------------------------- the builder
def parts(S, a):
    v = S.v(a)
    return v.f


def binv(S, a, *x):
    """The tree grows below its root node, or is not begun."""
    root, cur = parts(S, a)
    if root.var == 0:
        if cur.var == 1:
            S.require(False)
    elif cur.var == 1:
        r, c = S.n(root.f[0]), S.n(cur.f[0])
        S.require(S.st.worlds[-1].contains(r, c))
        near(S, [r, c])


def with_root(S, h):
    n = S.n(h)
    S.acq(n)
    return S.ret(("st", ("some", n), ("some", h)))


spec(B + "new", "<serial::TreeBuilder<T> as std::default::Default>::default", props="C20")(
    lambda S: S.ret(("st", None, None)))
spec(B + "with_root", props="C20 C15")(with_root)
spec(B + "is_root_available", props="C20", inv=binv)(lambda S, a: parts(S, a)[0].var == 1)
spec(B + "is_root_closed", props="C20", inv=binv)(lambda S, a: parts(S, a)[0].var == 1 and parts(S, a)[1].var == 0)


def finished(S, a):
    root, cur = a.f
    if cur.var == 1:
        S.release(S.n(cur.f[0]), "HotNode")
    return root


@spec(B + "finish", props="C20 C15", inv=binv)
def finish(S, a):
    r = finished(S, a)
    return S.ret(("err", "RootNotOpened") if r.var == 0 else ("ok", r.f[0]))


@spec(B + "finish_opt", props="C20 C15", inv=binv)
def finish_opt(S, a):
    return finished(S, a)


def put(S, a, root, cur):
    S.put(a, S.lift(S.argty(a), ("st", root, cur)))


def do_open(S, a, data):
    """None or the error."""
    root, cur = parts(S, a)
    if root.var == 0:
        n = tree_of(S, data)
        S.lock(n, 1)
        S.acq(n)
        put(S, a, ("some", n), ("some", n))
        return None
    if cur.var == 0:
        return "RootClosed"
    c = S.n(cur.f[0])
    x = create(S, "HotNode", c, data, 1)
    S.release(c, "HotNode")
    put(S, a, root, ("some", x))
    return None


def do_close(S, a, level, gone=False):
    """`gone`: the builder is not seen any more after an error."""
    root, cur = parts(S, a)
    if S.branch(eqv(level, 0)):
        return None
    if root.var == 0:
        return "RootNotOpened"
    if cur.var == 0:
        return "RootClosed"
    w = S.st.worlds[-1]
    r, c = S.n(root.f[0]), S.n(cur.f[0])
    left = S.gh("dep", c) - S.gh("dep", r) + 1
    if S.branch(left == level):
        S.release(c, "HotNode")
        put(S, a, root, None)
        return None
    if gone and S.branch(zi(level) > left):
        return "RootClosed"
    z = S.after(a).f[1]
    if isinstance(z, Agg) and z.var == 0:
        S.lemma("an open node is left", zi(level) > left)
        S.release(c, "HotNode")
        put(S, a, root, None)
        return "RootClosed"
    z = S.n(z.f[0])
    S.e.touch(S.st, "N", z)
    near(S, [r, c, z])
    bad = S.branch(zi(level) > left)
    S.lemma("the current node is one of those around", zand(w.f("alive")(z), w.contains(z, c), w.contains(r, z)))
    if not bad:
        S.lemma("as many nodes are closed as asked", S.gh("dep", z) == S.gh("dep", c) - level)
    S.acquire(z, "HotNode")
    S.release(c, "HotNode")
    put(S, a, root, ("some", z))
    return "RootClosed" if bad else None


def outcome(S, err):
    return S.ret(("err", err) if err else ("ok", UNIT))


spec(B + "open", props="C20 C15", inv=binv)(lambda S, a, d: outcome(S, do_open(S, a, d)))
spec(B + "close", props="C20 C15", inv=binv)(lambda S, a, k: outcome(S, do_close(S, a, k)))


@spec(B + "push_event", props="C20 C15", inv=binv, relational=True)
def push_event(S, a, ev):
    return outcome(S, do_open(S, a, ev.f[0]) if ev.var == 0 else do_close(S, a, ev.f[0]))


# ------------------------------------------------------------- serialization
def copy_of(S, n):
    """A clone of the data of `n`, or None if it is lent exclusively."""
    if S.branch(S.gh("bflag", n) < 0):
        return None
    return prims.DF["clone"](S.rd("data", n))


def as_event(S, ev, K):
    """The event value that stands for the traversal event, or None."""
    n = S.n(ev.f[0])
    d = copy_of(S, n) if ev.var == 0 else 1
    S.release(n, K)
    return None if d is None else ("var", ev.var, d)


for K in KINDS:
    def conv(S, ev, K=K):
        r = as_event(S, ev, K)
        return S.ret(("err", UNIT) if r is None else ("ok", r))
    spec("<serial::Event<T> as std::convert::TryFrom<traverse::DftEvent<%s<T>>>>::try_from" % K, props="C20 C15")(conv)


@spec(B + "push_dft_event", props="C20 C15", inv=binv)
def push_dft_event(S, a, ev):
    r = as_event(S, ev, "Node")
    if r is None:
        return S.ret(("err", ("var", 2, UNIT)))
    return outcome(S, do_open(S, a, r[2]) if r[1] == 0 else do_close(S, a, r[2]))


def whole(S, a):
    n = S.n(a)
    S.acquire(n, "Node")
    S.acquire(n, "Node")
    return S.ret(("st", ("st", ("some", ("st", ("var", 0, n), n)))))


spec("serial::TreeSerializeIter::<T>::new", props="C20 C15")(whole)
for K in KINDS:
    spec("%s::<T>::to_events" % K, props="C20 C15")(whole)


@spec("<serial::TreeSerializeIter<T> as std::clone::Clone>::clone", props="C20 C15", inv=lambda S, a: ser_inv(S, a))
def ser_clone(S, a):
    v = S.v(a)
    take_all(S, v, "Node")
    return v


def ser_inv(S, a):
    st = S.st
    z = z3.Const("opened", N)
    S.e.touch(st, "N", z)
    st.x["opened"] = z
    w = st.worlds[-1]
    o = S.v(a).f[0].f[0]
    if o.var == 1:
        e, start = o.f[0].f
        n, s = S.n(e.f[0]), S.n(start)
        S.require(w.contains(s, n))
        st.x["passed"] = [(z, z3.And(w.f("alive")(z), w.contains(s, z)))]
        y = z3.Const("around", N)
        st.x["around"] = [(n, y, z3.And(w.f("alive")(y), w.contains(s, y), w.contains(y, n)))]
        st.x["anchors"] = (s, z, y)
        near(S, [n, s, z, y])


@spec("<serial::TreeSerializeIter<T> as std::iter::Iterator>::next", props="C20 C21 C15", inv=ser_inv, relational=True)
def ser_next(S, a):
    return S.ret(ser_step(S, a))


def ser_step(S, a, res=None):
    """An opening, with the data; or as many closings as follow one another.
    `res`: what the iterator has given, according to its contract."""
    o = S.v(a).f[0].f[0]
    if o.var == 0:
        return None
    e, start = o.f[0].f
    ev, s = event(S, e), S.n(start)
    w = S.st.worlds[-1]
    done = lambda r: put_ser(S, a, r, start)
    if ev[0] == 0:
        r = step(S, ev, True)
        d = copy_of(S, ev[1])
        S.acquire(r[1], "Node")
        S.release(ev[1], "Node")
        done(r)
        return ("some", ("err", UNIT) if d is None else ("ok", ("var", 0, d)))
    given = res is not None
    res = res or S.result()
    left = S.pick(S.after(a).f[0].f[0])
    got = res.f[0].f[0] if isinstance(res, Agg) and res.var == 1 and res.f[0].var == 0 else None
    if got is None or got.var != 1:
        S.lemma("closings follow", False)
        S.impossible("result of the serialization")
    k = got.f[0]
    n, t = ev[1], time(S, ev)
    f = w.f
    if left.var == 0:
        (S.given if given else S.lemma)("all the closings left", zand(eqv(zi(k), S.gh("c", s) - t + 1), eqv(zi(k), S.gh("dep", n) - S.gh("dep", s) + 1)))
        S.release(n, "Node")
        S.release(s, "Node")
        done(None)
    else:
        r = event(S, S.pick(left.f[0].f[0]))
        S.e.touch(S.st, "N", r[1])
        near(S, [n, s, r[1]])
        (S.given if given else S.lemma)("an opening follows the closings", zand(r[0] == 0, w.f("alive")(r[1]), w.contains(s, r[1]), eqv(time(S, r), t + k),
                                                        eqv(S.gh("dep", r[1]), S.gh("dep", n) - k + 1)))
        S.acquire(r[1], "Node")
        S.release(n, "Node")
        done(r)
    S.forall("nothing but closings is skipped", "opened", lambda z: zimp(
        z3.And(f("alive")(z), w.contains(s, z), f("o")(z) >= t), f("o")(z) >= t + k), given)
    S.forall("the nodes around are closed one after the other", "around", lambda y: zimp(
        z3.And(f("alive")(y), w.contains(s, y), w.contains(y, n)),
        z3.If(f("dep")(y) > f("dep")(n) - k, f("c")(y) == t + f("dep")(n) - f("dep")(y), f("c")(y) >= t + k)), given)
    return ("some", ("ok", ("var", 1, k)))


def put_ser(S, a, r, start):
    S.put(a, S.lift(S.argty(a), ("st", ("st", None if r is None else ("some", ("st", ("var",) + r, start))))))


# ------------------------------------------------------------- many events
TB = "serial::TreeBuilder<T>"
EV, DV = "<EvIter as std::iter::Iterator>::next", "<DftIter as std::iter::Iterator>::next"


def consume(S, b, item, dft, gone=False):
    """What one event does to the builder: None or the error."""
    if not dft:
        return do_open(S, b, item.f[0]) if item.var == 0 else do_close(S, b, item.f[0], gone)
    r = as_event(S, item, "Node")
    if r is None:
        return ("var", 2, UNIT)
    return do_open(S, b, r[2]) if r[1] == 0 else do_close(S, b, r[2], gone)


def push_all(dft):
    def f(S, a, it):
        if S.phase == "enter":
            return S.at_head({TB: S.v(a)})
        if S.phase != "pass":
            S.impossible("no pass over the events")
        d = S.drawn()
        if d.var == 0:
            return S.ret(("ok", UNIT))
        err = consume(S, S.slot(TB), d.f[0], dft)
        return S.ret(("err", err)) if err else S.again()
    return f


for m in ("push_events", "push_events_impl"):
    spec(B + m + "::<EvIter>", props="C20 C15", inv=binv, fold=Fold({TB: binv}, drawn=EV))(push_all(False))
for m in ("push_dft_events", "push_dft_events_impl"):
    spec(B + m + "::<DftIter>", props="C20 C15", inv=binv, fold=Fold({TB: binv}, drawn=DV))(push_all(True))


def drop_builder(S, b):
    root, cur = parts(S, b)
    if cur.var == 1:
        S.release(S.n(cur.f[0]), "HotNode")
    if root.var == 1:
        S.rel(S.n(root.f[0]))


def unlocked(S):
    """The tree being built is locked by the builder only."""
    root, cur = parts(S, S.slot(TB))
    if root.var == 1:
        t = S.tree(S.n(root.f[0]))
        S.require(zand(S.rd("ng", t) == (1 if cur.var == 1 else 0), S.rd("magg", S.n(cur.f[0])) == 1 if cur.var == 1 else True))


def build_all(dft, kind):
    def f(S, it):
        if S.phase == "enter":
            return S.at_head({TB: ("st", None, None)})
        if S.phase != "pass":
            S.impossible("no pass over the events")
        b, d = S.slot(TB), S.drawn()
        if d.var == 1:
            err = consume(S, b, d.f[0], dft, True)
            if not err:
                return S.again()
            drop_builder(S, b)
            return S.ret(("err", err))
        r = finished(S, S.v(b))
        if r.var == 0:
            return S.ret(("err", "RootNotOpened"))
        n = S.n(r.f[0])
        if kind == "Tree":
            t = S.tree(n)
            S.tacq(t)
            S.rel(n)
            return S.ret(("ok", t))
        if kind in DIR and not S.lock(n, DIR[kind]):
            S.panic("lock")
        return S.ret(("ok", n))
    return f


FI = "serial::<impl std::iter::FromIterator<%s> for std::result::Result<%s<T>, serial::TreeBuildError>>::from_iter::<%s>"
for K in ("Node", "HotNode", "FrozenNode", "Tree"):
    spec(FI % ("serial::Event<T>", K, "EvIter"), props="C20 C15", fold=Fold({TB: binv}, unlocked, drawn=EV))(build_all(False, K))
spec(FI % ("traverse::DftEvent<Node<T>>", "Node", "DftIter"), props="C20 C15", fold=Fold({TB: binv}, unlocked, drawn=DV))(build_all(True, "Node"))


# ------------------------------------------------------------- copies
SI = "serial::TreeSerializeIter<T>"


def mirror(S):
    """The tree being built is the part of the source that has been walked so far: `phi` leads from its nodes to those
    they are copies of, with their data, and all are at the same place in document order (counted from the top)."""
    root, cur = parts(S, S.slot(TB))
    it = S.v(S.slot(SI)).f[0].f[0]
    s = S.st.x["args"].handles_by_type[0][1]
    w = S.st.worlds[-1]
    f = w.f
    phi, o, c, dep, pa = (f(k) for k in ("phi", "o", "c", "dep", "parent"))
    if root.var == 0:
        S.require(it.var == 1)
        if it.var == 1:
            e, start = it.f[0].f
            S.require(zand(e.var == 0, S.n(e.f[0]) == s, S.n(start) == s))
        return
    r = S.n(root.f[0])
    S.require(zand(pa(r) == NN, phi(r) == s, f("mtree")(r) != f("mtree")(s)))
    unlocked(S)
    if it.var == 0 or cur.var == 0:
        S.require(it.var == cur.var)
        S.every("cloned", lambda x: z3.Implies(z3.And(f("alive")(x), w.contains(r, x)), z3.And(
            copied(f, w, s, r, x), c(phi(x)) == c(x) + o(s))))
        return
    e, start = it.f[0].f
    var, n, x = e.var, S.n(e.f[0]), S.n(cur.f[0])
    t = (o if var == 0 else c)(n)
    S.require(zand(S.n(start) == s, c(x) == t - o(s), z3.And(n != s, phi(x) == pa(n)) if var == 0 else phi(x) == n))
    for y in (n, s, x, phi(x), pa(n)):
        S.e.touch(S.st, "N", y)
    near(S, [n, s, phi(x), pa(n)])
    S.every("cloned", lambda y: z3.Implies(z3.And(f("alive")(y), w.contains(r, y)), z3.And(copied(f, w, s, r, y), z3.If(
        w.contains(y, x), z3.And(c(phi(y)) >= t, c(y) == c(x) + dep(x) - dep(y)),
        z3.And(c(y) < c(x), c(phi(y)) == c(y) + o(s))))))


def copied(f, w, s, r, x):
    phi, o, dep, pa = (f(k) for k in ("phi", "o", "dep", "parent"))
    y = phi(x)
    return z3.And(f("alive")(y), w.contains(s, y), o(y) == o(x) + o(s), dep(y) == dep(x) + dep(s),
                  f("data")(x) == prims.DF["clone"](f("data")(y)), z3.Implies(x != r, pa(y) == phi(pa(x))))


def drop_iter(S, a):
    o = S.pick(S.v(a).f[0].f[0])
    if o.var == 1:
        e, start = o.f[0].f
        S.release(S.n(e.f[0]), "Node")
        S.release(S.n(start), "Node")


@spec("Node::<T>::try_clone_subtree", props="C21 C15", fold=Fold({TB: binv, SI: ser_inv}, mirror,
    gives="<serial::TreeSerializeIter<T> as std::iter::Iterator>::next"))
def try_clone_subtree(S, a):
    n = S.n(a)
    if S.phase == "enter":
        S.acquire(n, "Node")
        S.acquire(n, "Node")
        return S.at_head({TB: ("st", None, None), SI: ("st", ("st", ("some", ("st", ("var", 0, n), n))))})
    if S.phase != "pass":
        S.impossible("no pass over the events")
    b, it, d = S.slot(TB), S.slot(SI), S.drawn()
    pending = S.v(it).f[0].f[0]
    ser_step(S, it, d)
    if d.var == 0:
        r = finished(S, S.v(b))
        return S.ret(("ok", r.f[0]))
    ev = d.f[0]
    err = True
    if ev.var == 0:
        ev = ev.f[0]
        err = do_open(S, b, ev.f[0]) if ev.var == 0 else do_close(S, b, ev.f[0], True)
        S.lemma("the events make a tree", not err)
        if not err:
            if ev.var == 0:
                S.wr("phi", S.n(parts(S, b)[1].f[0]), S.n(pending.f[0].f[0]))
            return S.again()
    drop_builder(S, b)
    drop_iter(S, it)
    return S.ret(("err", UNIT))


CLONE = "Node::<T>::try_clone_subtree"


def fresh_tree(S):
    """What try_clone_subtree returns: the root of a tree that nothing locks."""
    d = S.drawn()
    if d.var == 0:
        n = S.n(d.f[0])
        S.require(zand(S.parent(n) == NN, S.rd("ng", S.tree(n)) == 0, S.rd("magg", n) == 0))


AT_CLONE = Fold(rel=fresh_tree, call=CLONE)


def cloning(top, after):
    """Clones the subtree of top(...), and does after(...) with the result."""
    def f(S, *args):
        if S.phase == "enter":
            return S.at_call(top(S, *args))
        if S.phase != "pass":
            top(S, *args)
            S.impossible("nothing is cloned")
        return after(S, S.called(), *args)
    return f


def cloned(S, d, *args):
    return S.ret(d)


def must_clone(S, d, *args):
    if d.var == 1:
        S.panic("borrowed")
    return S.ret(d.f[0])


def cloned_tree(S, d):
    n = S.n(d)
    t = S.tree(n)
    S.tacq(t)
    S.rel(n)
    return t


def tree_root(S, t):
    return S.root(S.v(t).t) if isinstance(S.v(t), Rc) else S.root(S.v(t).f[0].t)


self_ = lambda S, n, *args: S.n(n)
spec("Node::<T>::clone_subtree", props="C21 C15", fold=AT_CLONE)(cloning(self_, must_clone))
for K in ("HotNode", "FrozenNode"):
    spec(K + "::<T>::try_clone_subtree", props="C21 C15", fold=AT_CLONE)(cloning(self_, cloned))
    spec(K + "::<T>::clone_subtree", props="C21 C15", fold=AT_CLONE)(cloning(self_, must_clone))
spec("Tree::<T>::try_clone_tree", props="C21 C15", fold=AT_CLONE)(cloning(
    tree_root, lambda S, d, t: S.ret(("err", UNIT) if d.var == 1 else ("ok", cloned_tree(S, d.f[0])))))
spec("Tree::<T>::clone_tree", props="C21 C15", fold=AT_CLONE)(cloning(
    tree_root, lambda S, d, t: S.panic("borrowed") if d.var == 1 else S.ret(cloned_tree(S, d.f[0]))))


def insert_clone(S, d, n, dest):
    """The error, or the root of the clone in its place."""
    if d.var == 1:
        return ("var", 3, UNIT), None
    x = S.n(d.f[0])
    err = move(S, x, dest)
    if err:
        S.rel(x)
        return err, None
    S.lock(x, 1)
    return None, x


def try_clone_insert(S, d, n, dest):
    err, x = insert_clone(S, d, n, dest)
    return S.ret(("err", err) if err else ("ok", x))


def clone_insert(S, d, n, dest):
    err, x = insert_clone(S, d, n, dest)
    if err:
        S.panic("clone_insert")
    return S.ret(x)


for K in KINDS:
    spec(K + "::<T>::try_clone_insert_subtree", props="C04 C06 C21 C15", fold=AT_CLONE)(cloning(self_, try_clone_insert))
    if K != "FrozenNode":
        spec(K + "::<T>::clone_insert_subtree", props="C04 C21 C15", fold=AT_CLONE)(cloning(self_, clone_insert))
