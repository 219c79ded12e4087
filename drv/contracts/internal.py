"""Contracts of the crate-private layer: node cores, memberships, locks."""
from speclib import *

L = "node::internal::NodeCoreLink::<T>::"


def acc(name, f, props="", **kw):
    spec(L + name, props=props, **kw)(f)


acc("parent_link", lambda S, a: S.ret(S.parent(S.n(a))))
acc("next_sibling_link", lambda S, a: S.ret(S.next(S.n(a))))
acc("first_child_link", lambda S, a: S.ret(S.first(S.n(a))))
acc("prev_sibling_cyclic_link", lambda S, a: S.ret(S.prevc(S.n(a))))
acc("prev_sibling_cyclic_link_weak", lambda S, a: S.ret(S.prevc(S.n(a))))
acc("prev_sibling_link", lambda S, a: S.ret(S.prev(S.n(a))))
acc("last_child_link", lambda S, a: S.ret(S.last(S.n(a))))
acc("is_root", lambda S, a: S.null(S.parent(S.n(a))))
acc("has_prev_sibling", lambda S, a: znot(S.null(S.prev(S.n(a)))))
acc("has_next_sibling", lambda S, a: znot(S.null(S.next(S.n(a)))))
acc("is_first_sibling", lambda S, a: S.null(S.prev(S.n(a))))
acc("is_last_sibling", lambda S, a: S.null(S.next(S.n(a))))
acc("has_children", lambda S, a: znot(S.null(S.first(S.n(a)))))
acc("ptr_eq", lambda S, a, b: eqv(S.n(a), S.n(b)))
acc("downgrade", lambda S, a: S.ret(S.n(a)))


@spec(L + "last_child_link_weak")
def last_weak(S, a):
    x = S.last(S.n(a))
    return S.ret(None if S.is_null(x) else ("some", x))


@spec(L + "first_last_child_link")
def first_last(S, a):
    f = S.first(S.n(a))
    return S.ret(None if S.is_null(f) else ("some", ("st", f, S.prevc(f))))


def replacer(fld, k):
    def f(S, a, b):
        a = S.n(a)
        old = S.rd(fld, a)
        S.wr(fld, a, S.e.opt_term(b, "N") if k == "opt" else S.n(b))
        return S.ret(old)
    return f
