"""Contracts of the values that requests and reports are made of: the anchor of an insertion, the events of a
traversal and of a serialization. None of these functions looks at the trees; a value is what it was given."""
from speclib import *
from prims import DF


def same(S, a):
    """The same variant with the same contents."""
    return a


def into_only(k):
    def f(S, a):
        return S.ret(("some", a.f[0]) if a.var == k else None)
    return f


def ref_to_value(S, a):
    """A reference to what the variant holds."""
    v = S.v(a)
    while isinstance(S.load(a), Ptr):
        a = S.load(a)
    return Ptr(a.base, a.path + ((v.var, 0),))


def eq(S, a, b):
    x, y = S.v(a), S.v(b)
    if x.var != y.var:
        return False
    return zand(*[value_eq(p, q) for p, q in zip(x.f, y.f)])


def value_eq(p, q):
    return DF["eq"](p, q) if isz(p) and p.sort() == DS else eqv(p, q)


DS = DF["eq"].domain(0)

# ---------------------------------------------------------------------- events of a traversal
D = "traverse::DftEvent::<T>::"
spec(D + "into_value", props="C09")(lambda S, a: a.f[0])
spec(D + "as_value", D + "as_value_mut", props="C09")(ref_to_value)
spec(D + "into_open", props="C09")(into_only(0))
spec(D + "into_close", props="C09")(into_only(1))
spec("traverse::DftEvent::<T>::map::<fn(T) -> T {opaque_fn}, T>", props="C09")(
    lambda S, a, f: Agg(a.var, (DF["map"](a.f[0]),)))
spec("<traverse::DftEvent<T> as std::cmp::PartialEq>::eq", props="C09")(eq)


# ------------------------------------------------------------------- events of a serialization
spec("serial::Event::<T>::map::<fn(T) -> T {opaque_fn}, T>", props="C20")(
    lambda S, a, f: Agg(a.var, (DF["map"](a.f[0]) if a.var == 0 else a.f[0],)))
spec("<serial::Event<T> as std::cmp::PartialEq>::eq", props="C20")(eq)

# ---------------------------------------------------------------------------------- anchors
spec("InsertAs::<T>::anchor", props="C02")(ref_to_value)
spec("InsertAs::<T>::as_ref", props="C02")(lambda S, a: Agg(S.v(a).var, (ref_to_value(S, a),)))
spec("InsertAs::<T>::map::<T, fn(T) -> T {opaque_fn}>", props="C02")(
    lambda S, a, f: Agg(a.var, (DF["map"](a.f[0]),)))
spec("<InsertAs<T> as std::cmp::PartialEq>::eq", props="C02")(eq)
spec("<AdoptAs as std::cmp::PartialEq>::eq", props="C02")(eq)
spec("<AdoptAs as std::clone::Clone>::clone", props="C02")(lambda S, a: S.v(a))


def cloned(S, a):
    a = S.v(a)
    return Agg(a.var, tuple(DF["clone"](x) if isz(x) and x.sort() == DS else x for x in a.f))


for E in ("traverse::DftEvent<T>", "serial::Event<T>", "InsertAs<T>"):
    spec("<%s as std::clone::Clone>::clone" % E, props="C02" if E[0] == "I" else "C20" if E[0] == "s" else "C09")(
        cloned)
