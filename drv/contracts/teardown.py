"""Contract of the teardown of a tree (C17, C18)."""
from speclib import *


def inv(S, a):
    """The last reference to the tree has gone, so no node of it holds one."""
    st, t = S.st, a.base[1]
    w = st.worlds[-1]
    f = w.f
    st.x["teardown"] = t

    def theory(st, y):
        return [z3.Implies(z3.And(f("alive")(y), f("mtree")(y) == t), z3.And(z3.Not(f("mstrong")(y)), f("rt")(y) == f("root")(t)))]
    st.x["theory"] = theory
    for y in [y for k, y in list(st.touched.values()) if k == "N"]:
        for c in theory(st, y):
            S.e.assume(st, c)


@spec("<tree::TreeCore<T> as std::ops::Drop>::drop", props="C17 C18", inv=inv)
def tree_drop(S, a):
    """All nodes but the root go away (the root goes with the tree's own reference, and owns nothing then); nothing
    happens if the nodes have been moved to another tree."""
    t = a.base[1]
    r = S.rd("root", t)
    if not S.branch(S.rd("own", t)):
        return UNIT
    w = S.st.worlds[-1]
    S.e.bulk(S.st, "alive", lambda y: z3.And(w.f("alive")(y), w.contains(r, y), y != r), False)
    S.wr("first", r, NN)
    return UNIT
