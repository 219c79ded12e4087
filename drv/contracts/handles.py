"""Contracts of the public handles: Node, HotNode, FrozenNode, NodeWeak, Tree, TreeWeak."""
from speclib import *

KINDS = ("Node", "HotNode", "FrozenNode")


def each(name, f, props, kinds=KINDS, **kw):
    """The contract f(S, kind, args..) for every handle type."""
    for K in kinds:
        def g(S, *a, K=K):
            return f(S, K, *a)
        spec("%s::<T>::%s" % (K, name), props=props, **kw)(g)


# ------------------------------------------------------------- navigation
def nav(name, f):
    def g(S, K, a):
        x = f(S, S.n(a))
        if S.is_null(x):
            return S.ret(None)
        S.acquire(x, K)
        return S.ret(("some", x))
    each(name, g, "C07 C15")


nav("parent", lambda S, n: S.parent(n))
nav("next_sibling", lambda S, n: S.next(n))
nav("prev_sibling", lambda S, n: S.prev(n))
nav("first_child", lambda S, n: S.first(n))
nav("last_child", lambda S, n: S.last(n))


def first_sib(S, n):
    p = S.parent(n)
    return n if S.is_null(p) else S.first(p)


def last_sib(S, n):
    p = S.parent(n)
    return n if S.is_null(p) else S.last(p)


def always(name, f):
    def g(S, K, a):
        x = f(S, S.n(a))
        S.acquire(x, K)
        return S.ret(x)
    each(name, g, "C07 C15" if name != "root" else "C07 C15 C19")


always("first_sibling", first_sib)
always("last_sibling", last_sib)
always("root", lambda S, n: S.rd("root", S.tree(n)))


def first_last_sibling(S, K, a):
    n = S.n(a)
    x, y = first_sib(S, n), last_sib(S, n)
    S.acquire(x, K)
    S.acquire(y, K)
    return S.ret(("st", x, y))


def first_last_child(S, K, a):
    n = S.n(a)
    x, y = S.first(n), S.last(n)
    if S.is_null(x):
        return S.ret(None)
    S.acquire(x, K)
    S.acquire(y, K)
    return S.ret(("some", ("st", x, y)))


each("first_last_sibling", first_last_sibling, "C07 C15")
each("first_last_child", first_last_child, "C07 C15")

# ------------------------------------------------------------- predicates
each("is_root", lambda S, K, a: S.null(S.parent(S.n(a))), "C08")
each("has_prev_sibling", lambda S, K, a: znot(S.null(S.prev(S.n(a)))), "C08")
each("has_next_sibling", lambda S, K, a: znot(S.null(S.next(S.n(a)))), "C08")
each("has_children", lambda S, K, a: znot(S.null(S.first(S.n(a)))), "C08")
each("num_children", lambda S, K, a: S.rd("nch", S.n(a)), "C08")
each("has_one_child", lambda S, K, a: eqv(S.rd("nch", S.n(a)), 1), "C08")
each("has_multiple_children", lambda S, K, a: S.rd("nch", S.n(a)) > 1, "C08")
# the ghost functions: idx(n) preceding siblings, dep(n) ancestors, nch(n) children
each("count_children", lambda S, K, a: S.rd("nch", S.n(a)), "C08")
each("count_preceding_siblings", lambda S, K, a: S.gh("idx", S.n(a)), "C08")
each("count_ancestors", lambda S, K, a: S.gh("dep", S.n(a)), "C08")


def following(S, K, a):
    n = S.n(a)
    p = S.parent(n)
    if S.is_null(p):
        return 0
    return S.rd("nch", p) - S.gh("idx", n) - 1


each("count_following_siblings", following, "C08")


# ------------------------------------------------------------- membership
def tree(S, K, a):
    t = S.tree(S.n(a))
    S.tacq(t)
    return S.ret(t)


each("tree", tree, "C19 C17")
each("belongs_to", lambda S, K, a, t: eqv(S.tree(S.n(a)), S.n(t)), "C19")
each("belongs_to_same_tree", lambda S, K, a, b: eqv(S.tree(S.n(a)), S.tree(S.n(b))), "C19")

# ------------------------------------------------------------- identity, conversion
each("ptr_eq", lambda S, K, a, b: eqv(S.n(a), S.n(b)), "C24")
spec("HotNode::<T>::ptr_eq_plain", props="C24")(lambda S, a, b: eqv(S.n(a), S.n(b)))


def plain(S, K, a):
    n = S.n(a)
    S.acq(n)
    return S.ret(n)


each("plain", plain, "C24 C15", kinds=("HotNode", "FrozenNode"))
for K, m in (("HotNode", "hot"), ("FrozenNode", "frozen")):
    def g(S, a, K=K):
        n = S.n(a)
        S.unlock(n)
        return S.ret(n)
    spec("node::%s::<impl std::convert::From<%s<T>> for Node<T>>::from" % (m, K), props="C24 C15")(g)

for K in KINDS:
    def g(S, v, K=K):
        S.release(S.n(v), K)
    spec("drop %s<T>" % K, props="C15 C17", summary=True)(g)

for K in KINDS:
    def g(S, v, K=K):
        n = S.n(v)
        S.wr("mref", n, S.rd("mref", n) + 1)
        if K in DIR:
            S.wr("magg", n, S.rd("magg", n) + 1)
        return S.ret(n)
    spec("<%s<T> as std::clone::Clone>::clone" % K, props="C15 C17 C24")(g)


# ------------------------------------------------------------- weak references
@spec("Node::<T>::downgrade", props="C17")
def downgrade(S, a):
    return S.ret(S.n(a))


@spec("<NodeWeak<T> as std::clone::Clone>::clone", "<TreeWeak<T> as std::clone::Clone>::clone", props="C17")
def weak_clone(S, a):
    return S.ret(S.n(a))


@spec("NodeWeak::<T>::upgrade", props="C17")
def upgrade(S, a):
    n = S.n(a)
    if not S.branch(S.alive("N", n)):
        return S.ret(None)
    S.acq(n)
    return S.ret(("some", n))


@spec("TreeWeak::<T>::upgrade", props="C17")
def tupgrade(S, a):
    t = S.n(a)
    if not S.branch(S.alive("T", t)):
        return S.ret(None)
    S.tacq(t)
    return S.ret(("some", t))


# ------------------------------------------------------------- trees
@spec("<Tree<T> as std::clone::Clone>::clone", props="C17")
def tclone(S, a):
    t = S.n(a)
    S.tacq(t)
    return S.ret(t)


@spec("Tree::<T>::downgrade", props="C17")
def tdowngrade(S, a):
    return S.ret(S.n(a))


@spec("Tree::<T>::ptr_eq", props="C24")
def tptr_eq(S, a, b):
    return eqv(S.n(a), S.n(b))


@spec("Tree::<T>::root", props="C07 C19")
def troot(S, a):
    r = S.root(S.n(a))
    S.acq(r)
    return S.ret(r)


@spec("drop Tree<T>", props="C17", summary=False)
def tdrop(S, v):
    S.drop_tree(S.n(v))


# ------------------------------------------------------------- locks
def bundle(S, a, K):
    n = S.n(a)
    if S.lock(n, DIR[K]):
        return S.ret(("ok", n))
    S.rel(n)
    return S.ret(("err", ("st",)))


spec("Node::<T>::bundle_new_hierarchy_edit_grant", props="C14 C15")(lambda S, a: bundle(S, a, "HotNode"))
spec("Node::<T>::bundle_new_hierarchy_edit_prohibition", props="C14 C15")(lambda S, a: bundle(S, a, "FrozenNode"))


def bundle_with(S, a, g, K):
    n, t = S.n(a), S.n(g)
    if not S.branch(eqv(S.tree(n), t)):
        S.panic("wrong tree")
    if not S.lock(n, DIR[K]):
        S.panic("lock")
    return S.ret(n)


spec("Node::<T>::bundle_hierarchy_edit_grant", props="C14 C15 C16")(lambda S, a, g: bundle_with(S, a, g, "HotNode"))
spec("Node::<T>::bundle_hierarchy_edit_prohibition", props="C14 C15 C16")(
    lambda S, a, g: bundle_with(S, a, g, "FrozenNode"))


def token(S, a, d):
    t = S.n(a)
    return S.ret(("ok", t) if S.token(t, d) else ("err", ("st",)))


spec("Tree::<T>::grant_hierarchy_edit", props="C14 C15")(lambda S, a: token(S, a, 1))
spec("Tree::<T>::prohibit_hierarchy_edit", props="C14 C15")(lambda S, a: token(S, a, -1))


def extract(S, a, d):
    t = S.tree(S.n(a))
    if not S.token(t, d):
        S.panic("lock")
    return S.ret(t)


spec("HotNode::<T>::extract_hierarchy_edit_grant", props="C14 C15")(lambda S, a: extract(S, a, 1))
spec("FrozenNode::<T>::extract_hierarchy_edit_prohibition", props="C14 C15")(lambda S, a: extract(S, a, -1))


def tok_clone(S, a, d):
    t = S.n(a)
    if S.branch(S.alive("T", t)) and not S.token(t, d):
        return None
    return t


def try_tok_clone(S, a, d):
    t = tok_clone(S, a, d)
    return S.ret(("err", ("st",)) if t is None else ("ok", t))


spec("HierarchyEditGrant::<T>::try_clone", props="C14 C15")(lambda S, a: try_tok_clone(S, a, 1))
spec("HierarchyEditProhibition::<T>::try_clone", props="C14 C15")(lambda S, a: try_tok_clone(S, a, -1))


@spec("<HierarchyEditGrant<T> as std::clone::Clone>::clone", props="C14 C15")
def grant_clone(S, a):
    t = tok_clone(S, a, 1)
    if t is None:
        S.panic("lock")
    return S.ret(t)


def tok_drop(S, v, d):
    t = S.n(v)
    if S.branch(S.alive("T", t)):
        S.wr("ng", t, S.rd("ng", t) - d)


spec("drop HierarchyEditGrant<T>", props="C14 C15")(lambda S, v: tok_drop(S, v, 1))
spec("drop HierarchyEditProhibition<T>", props="C14 C15")(lambda S, v: tok_drop(S, v, -1))
spec("HierarchyEditGrant::<T>::is_valid_for_node", "HierarchyEditProhibition::<T>::is_valid_for_node",
     props="C16")(lambda S, g, a: eqv(S.tree(S.n(a)), S.n(g)))
