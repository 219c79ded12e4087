"""Contracts of the data borrows. `bflag(n)`: what is lent of the data of n: below 0 exclusively,
above 0 that many times shared (ghost: the borrows the callers hold)."""
from speclib import *
from contracts.handles import KINDS
import prims


def cell(S, n):
    e = S.e
    return Ptr(("N", n), ([f[0] for f in e.types[e.node_ty]["v"][0]["f"]].index("data"),))


def lend(S, n, mut):
    """A guard of the data of `n`, or None if it is lent in conflict."""
    b = S.gh("bflag", n)
    if S.branch(b != 0 if mut else b < 0):
        return None
    return prims.new_guard(S.e, S.st, cell(S, n), mut)


for K in KINDS:
    for mut in (False, True):
        nm = "borrow_data" + ("_mut" if mut else "")

        def may(S, a, mut=mut):
            g = lend(S, S.n(a), mut)
            return S.ret(("err", UNIT) if g is None else ("ok", g))

        def must(S, a, mut=mut):
            g = lend(S, S.n(a), mut)
            if g is None:
                S.panic("borrowed")
            return g
        spec("%s::<T>::try_%s" % (K, nm), props="C23")(may)
        spec("%s::<T>::%s" % (K, nm), props="C23")(must)
