"""Models of the standard-library primitives (the trusted base)."""
import z3
from val import *
from engine import Out


class Prims(dict):
    def __init__(self):
        super().__init__()
        self.prefixes = []


P = Prims()


def prim(*names):
    def deco(f):
        for n in names:
            if n.endswith("*"):
                P.prefixes.append((n[:-1], f))
            else:
                P[n] = f
        return f
    return deco


# ------------------------------------------------------------------ panics
@prim("core::panicking::*", "std::panicking::*", "std::rt::panic*", "std::option::expect_failed",
      "std::option::unwrap_failed", "std::result::unwrap_failed*", "std::cell::panic_already*",
      "core::panicking::panic")
def p_panic(e, st, fn, args):
    return e.panic(st, fn["def"].split("::")[-1])


@prim("core::fmt::*", "std::fmt::*", "<core::fmt::*", "<std::fmt::*")
def p_fmt(e, st, fn, args):
    return Opq("fmt")


# ---------------------------------------------------------------------- Rc
def deref_arg(e, st, a):
    return e.load(st, a)


@prim("<std::rc::Rc<T, A> as std::clone::Clone>::clone", "<std::rc::Weak<T, A> as std::clone::Clone>::clone")
def rc_clone(e, st, fn, args):
    v = e.load(st, args[0])
    if v.k == "T" and not v.weak:
        bump(e, st, v.t, 1)
    return v


def bump(e, st, t, d):
    n = e.rd(st, "tstrong", t)
    n = n + d
    if isz(n):
        n = z3.simplify(n)
    e.write(st, "tstrong", t, n)


@prim("<std::rc::Rc<T, A> as std::ops::Deref>::deref")
def rc_deref(e, st, fn, args):
    v = e.load(st, args[0])
    return Ptr((v.k, v.t), ())


@prim("std::rc::Rc::<T, A>::as_ptr", "std::rc::Weak::<T, A>::as_ptr")
def rc_as_ptr(e, st, fn, args):
    v = e.load(st, args[0])
    return Ptr((v.k, v.t), ())


@prim("std::rc::Rc::<T, A>::downgrade")
def rc_downgrade(e, st, fn, args):
    v = e.load(st, args[0])
    return Rc(v.k, v.t, True)


@prim("std::rc::Rc::<T, A>::ptr_eq", "std::rc::Weak::<T, A>::ptr_eq")
def rc_ptr_eq(e, st, fn, args):
    a, b = e.load(st, args[0]), e.load(st, args[1])
    return eqv(a.t, b.t)


def rc_kind(e, fn):
    n = e.types[[a for a in fn["args"] if isinstance(a, int)][0]]["name"]
    if n == "node::internal::NodeCore<T>":
        return "N"
    if n == "tree::TreeCore<T>":
        return "T"
    raise Unsupported("Rc of " + n)


@prim("<std::rc::Weak<T> as std::default::Default>::default", "std::rc::Weak::<T>::new")
def weak_new(e, st, fn, args):
    k = rc_kind(e, fn)
    return Rc(k, NULL[k], True)


@prim("std::rc::Weak::<T, A>::upgrade")
def weak_upgrade(e, st, fn, args):
    v = e.load(st, args[0])
    return upgrade(e, st, v.k, v.t)


def is_alive(e, st, k, t):
    if t.eq(NULL[k]):
        return False
    if any(x.eq(t) for kk, x in st.fresh) and not st.x.get("deaths"):
        return True
    e.touch(st, k, t)
    return zand(t != NULL[k], e.select_term(st, "alive" if k == "N" else "talive", t))


def upgrade(e, st, k, t):
    a = is_alive(e, st, k, t)
    if k == "T" and a is not False:
        if a is not True and e.proves(st, a):
            a = True
        bump(e, st, t, 1 if a is True else z3.If(a, 1, 0))
    if a is False:
        return Agg(0, ())
    if a is True:
        return Agg(1, (Rc(k, t),))
    # `null` or alive is the usual invariant: then the nullable term itself is the option
    if e.proves(st, z3.Or(t == NULL[k], a)):
        if not e.feasible(st, t == NULL[k]):
            return Agg(1, (Rc(k, t),))
        d = z3.If(t == NULL[k], z3.IntVal(0), z3.IntVal(1))
        e.opt_terms[d.get_id()] = (d, t)
        return Sym(d, {0: (), 1: (Rc(k, t),)})
    d = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    return Sym(d, {0: (), 1: (Rc(k, t),)})


@prim("std::rc::Weak::<T, A>::strong_count")
def weak_strong_count(e, st, fn, args):
    v = e.load(st, args[0])
    a = is_alive(e, st, v.k, v.t)
    if a is False:
        return 0
    n = e.gensym(st, "strong_count", z3.IntSort())
    e.assume(st, z3.And(n >= 0, (n == 0) == znot(a) if a is not True else n > 0))
    return n


@prim("std::rc::Rc::<T>::new")
def rc_new(e, st, fn, args):
    k = rc_kind(e, fn)
    t = e.fresh_obj(st, k)
    e.store_ty(st, k, t, "", e.node_ty if k == "N" else e.tree_ty, None) if False else None
    ty = e.node_ty if k == "N" else e.tree_ty
    tt = e.types[ty]
    for i, f in enumerate(tt["v"][0]["f"]):
        e.store_ty(st, k, t, f[0], f[1], args[0].f[i])
    if k == "T":
        e.write(st, "tstrong", t, 1)
    return Rc(k, t)


@prim("<std::rc::Rc<T, A> as std::ops::Drop>::drop")
def rc_drop(e, st, fn, args):
    v = e.load(st, args[0])
    if v.k == "N":
        e.drop_link(st, v.t, True)
        return UNIT
    raise Unsupported("Rc drop")


@prim("<std::rc::Weak<T, A> as std::ops::Drop>::drop")
def weak_drop(e, st, fn, args):
    return UNIT


# ----------------------------------------------------------------- Cell etc.
@prim("std::cell::Cell::<T>::new", "std::cell::RefCell::<T>::new")
def cell_new(e, st, fn, args):
    return Agg(None, (args[0],))


@prim("<std::cell::Cell<T> as std::default::Default>::default")
def cell_default(e, st, fn, args):
    return Agg(None, (0,))


@prim("std::cell::Cell::<T>::get")
def cell_get(e, st, fn, args):
    p = args[0]
    return e.load(st, Ptr(p.base, p.path + ("c",)))


@prim("std::cell::Cell::<T>::set")
def cell_set(e, st, fn, args):
    p = args[0]
    e.store(st, Ptr(p.base, p.path + ("c",)), args[1])
    return UNIT


@prim("std::cell::Cell::<T>::replace")
def cell_replace(e, st, fn, args):
    p = args[0]
    q = Ptr(p.base, p.path + ("c",))
    v = e.load(st, q)
    e.store(st, q, args[1])
    return v


@prim("std::cell::Cell::<T>::swap")
def cell_swap(e, st, fn, args):
    p, q = (Ptr(x.base, x.path + ("c",)) for x in args)
    v, w = e.load(st, p), e.load(st, q)
    e.store(st, p, w)
    e.store(st, q, v)
    return UNIT


@prim("std::cell::Cell::<T>::into_inner", "std::cell::RefCell::<T>::into_inner")
def cell_into_inner(e, st, fn, args):
    return args[0].f[0]


@prim("std::cell::Cell::<T>::get_mut", "std::cell::RefCell::<T>::get_mut")
def cell_get_mut(e, st, fn, args):
    p = args[0]
    return Ptr(p.base, p.path + ("c",))


def cell_name(e, p):
    if p.base[0] == "L":
        return None
    return e.resolve(p.base[0], p.path)[0]


def conflict(e, st, p, mut):
    """Formula: the cell at `p` is already borrowed incompatibly (tracked borrows)."""
    fs = []
    for g, (k, name, t, m) in st.borrows.items():
        if k == p.base[0] and name == cell_name(e, p) and (m or mut):
            d = e.decide_eq(st, t, p.base[1])
            if d is True:
                return True
            if d is None:
                fs.append(t == p.base[1])
    return zor(*fs)


def user_borrow(e, st, p, mut):
    """Formula: user code holds an incompatible borrow of the cell (only possible for data)."""
    if p.base[0] == "L" or cell_name(e, p) != "data":
        return False
    if any(x.eq(p.base[1]) for _, x in st.fresh):
        return False
    n = st.worlds[-1].f("bflag")(p.base[1])
    return n != 0 if mut else n < 0


def new_guard(e, st, p, mut):
    n = st.nid.get("guard", 0)
    st.nid["guard"] = n + 1
    q = Ptr(p.base, p.path + ("c",))
    if p.base[0] != "L":
        st.borrows[n] = (p.base[0], cell_name(e, p), p.base[1], mut)
    return Guard(n, q, mut)


def borrow(e, st, p, mut, fallible):
    bad = zor(conflict(e, st, p, mut), user_borrow(e, st, p, mut))
    res = []
    if bad is not False and e.feasible(st, bad):
        s = st.copy()
        e.assume(s, bad)
        if fallible:
            res.append((s, Agg(1, (Agg(None, ()),))))
        else:
            res.append(Out("panic", s, msg="RefCell already borrowed", span=e.where(s)))
    if bad is True:
        return res
    if not res or e.feasible(st, znot(bad)):
        if res:
            e.assume(st, znot(bad))
        g = new_guard(e, st, p, mut)
        res.append((st, Agg(0, (g,)) if fallible else g))
    return res


@prim("std::cell::RefCell::<T>::borrow")
def refcell_borrow(e, st, fn, args):
    return borrow(e, st, args[0], False, False)


@prim("std::cell::RefCell::<T>::borrow_mut")
def refcell_borrow_mut(e, st, fn, args):
    return borrow(e, st, args[0], True, False)


@prim("std::cell::RefCell::<T>::replace")
def refcell_replace(e, st, fn, args):
    """As `mem::replace(&mut *cell.borrow_mut(), value)`: the borrow ends with the call."""
    res = []
    for o in borrow(e, st, args[0], True, False):
        if isinstance(o, Out):
            res.append(o)
            continue
        s, g = o
        v = e.load(s, g.ptr)
        e.store(s, g.ptr, args[1])
        s.borrows.pop(g.id, None)
        res.append((s, v))
    return res


@prim("std::cell::RefCell::<T>::try_borrow")
def refcell_try_borrow(e, st, fn, args):
    return borrow(e, st, args[0], False, True)


@prim("std::cell::RefCell::<T>::try_borrow_mut")
def refcell_try_borrow_mut(e, st, fn, args):
    return borrow(e, st, args[0], True, True)


@prim("<std::cell::Ref<'_, T> as std::ops::Deref>::deref", "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref",
      "<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut")
def guard_deref(e, st, fn, args):
    return e.load(st, args[0]).ptr


def call_closure(e, st, f, args, hook):
    """Pushes a call of closure / fn item value `f`."""
    raise Unsupported("closure call")


def closure_fn(e, fn):
    """The function record of the closure (or fn item) a skipped std function was given."""
    if len(fn["clos"]) != 1:
        raise Unsupported("closure argument of " + fn["name"])
    return e.mir.fns[fn["clos"][0]]


def run_guard_map(e, st, fn, args, filt):
    g = args[0]
    f = closure_fn(e, fn)

    def hook(s, v):
        if not filt:
            if g.id in s.borrows and isinstance(v, Ptr):
                pass
            return Guard(g.id, v, g.mut)
        # Option<&U> -> Result<Ref<U>, Ref<T>>
        if isinstance(v, Agg):
            return Agg(0, (Guard(g.id, v.f[0], g.mut),)) if v.var == 1 else Agg(1, (g,))
        return Sym(z3.If(v.d == 1, z3.IntVal(0), z3.IntVal(1)), {0: (Guard(g.id, v.alts[1][0], g.mut),), 1: (g,)})
    env = args[1]
    if "closure#" in f["def"]:
        a = [env, g.ptr]
    else:
        a = [g.ptr]
    e.push(st, f, a, None, None, hook)
    return ("pushed",)


@prim("std::cell::RefMut::<'b, T>::map", "std::cell::Ref::<'b, T>::map")
def guard_map(e, st, fn, args):
    return run_guard_map(e, st, fn, args, False)


@prim("std::cell::Ref::<'b, T>::filter_map")
def guard_filter_map(e, st, fn, args):
    return run_guard_map(e, st, fn, args, True)


@prim("std::cell::Ref::<'b, T>::clone")
def ref_clone(e, st, fn, args):
    g = args[0]
    if isinstance(g, Ptr):
        g = e.load(st, g)
    n = st.nid.get("guard", 0)
    st.nid["guard"] = n + 1
    if g.id in st.borrows:
        st.borrows[n] = st.borrows[g.id]
    return Guard(n, g.ptr, g.mut)


# --------------------------------------------------------------------- mem
@prim("std::mem::replace")
def mem_replace(e, st, fn, args):
    v = e.load(st, args[0])
    e.store(st, args[0], args[1])
    return v


@prim("std::mem::swap")
def mem_swap(e, st, fn, args):
    v, w = e.load(st, args[0]), e.load(st, args[1])
    e.store(st, args[0], w)
    e.store(st, args[1], v)
    return UNIT




# --------------------------------------------------------------------- num
MAXU = (1 << 64) - 1


@prim("std::num::NonZero::<T>::new")
def nz_new(e, st, fn, args):
    v = args[0]
    if not isz(v):
        return Agg(0, ()) if v == 0 else Agg(1, (v,))
    return Sym(z3.If(v == 0, z3.IntVal(0), z3.IntVal(1)), {0: (), 1: (v,)})


@prim("std::num::NonZero::<T>::get")
def nz_get(e, st, fn, args):
    return args[0]


def checked(v, lo, hi):
    if not isz(v):
        return Agg(1, (v,)) if lo <= v <= hi else Agg(0, ())
    return Sym(z3.If(z3.And(v >= lo, v <= hi), z3.IntVal(1), z3.IntVal(0)), {0: (), 1: (v,)})


def clamp(v, lo, hi):
    if not isz(v):
        return min(max(v, lo), hi)
    return z3.If(v < lo, z3.IntVal(lo), z3.If(v > hi, z3.IntVal(hi), v))


def wrap(v, lo, hi):
    """v modulo the number of values of the type."""
    n = hi - lo + 1
    if not isz(v):
        return (v - lo) % n + lo
    return z3.If(z3.And(v >= lo, v <= hi), v, z3.If(z3.And(v > hi, v <= hi + n), v - n, z3.If(
        z3.And(v < lo, v >= lo - n), v + n, (v - lo) % n + lo)))


def int_prims():
    ops = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}
    for nm, bits in (("usize", 64), ("u64", 64), ("u32", 32), ("u16", 16), ("u8", 8), ("u128", 128)):
        for t, lo, hi in ((nm, 0, (1 << bits) - 1), (nm.replace("u", "i", 1), -(1 << bits - 1), (1 << bits - 1) - 1)):
            p = "core::num::<impl %s>::" % t
            for o, f in ops.items():
                P[p + "checked_" + o] = lambda e, st, fn, a, f=f, lo=lo, hi=hi: checked(f(*a), lo, hi)
                P[p + "saturating_" + o] = lambda e, st, fn, a, f=f, lo=lo, hi=hi: clamp(f(*a), lo, hi)
                P[p + "wrapping_" + o] = lambda e, st, fn, a, f=f, lo=lo, hi=hi: wrap(f(*a), lo, hi)

                def over(e, st, fn, a, f=f, lo=lo, hi=hi):
                    v = f(*a)
                    bad = z3.Or(v < lo, v > hi) if isz(v) else not lo <= v <= hi
                    return Agg(None, (wrap(v, lo, hi), bad))
                P[p + "overflowing_" + o] = over
            P[p + "signum"] = lambda e, st, fn, a: \
                (a[0] > 0) - (a[0] < 0) if not isz(a[0]) else z3.If(a[0] > 0, 1, z3.If(a[0] < 0, -1, 0))
            P[p + "is_positive"] = lambda e, st, fn, a: a[0] > 0
            P[p + "is_negative"] = lambda e, st, fn, a: a[0] < 0
            P[p + "abs_diff"] = lambda e, st, fn, a: \
                abs(a[0] - a[1]) if not isz(a[0] - a[1]) else z3.If(a[0] < a[1], a[1] - a[0], a[0] - a[1])


int_prims()
P["std::num::NonZero::<usize>::checked_add"] = P["core::num::<impl usize>::checked_add"]
P["std::num::NonZero::<usize>::saturating_add"] = P["core::num::<impl usize>::saturating_add"]


# ------------------------------------------------------------- opaque data
DF = {
    "clone": z3.Function("data_clone", D, D),
    "eq": z3.Function("data_eq", D, D, z3.BoolSort()),
    "map": z3.Function("data_map", D, D),
}


@prim("<T as std::clone::Clone>::clone")
def data_clone(e, st, fn, args):
    return DF["clone"](e.load(st, args[0]))


@prim("<T as std::cmp::PartialEq>::eq")
def data_eq(e, st, fn, args):
    return DF["eq"](e.load(st, args[0]), e.load(st, args[1]))


@prim("<T as std::cmp::PartialEq>::ne")
def data_ne(e, st, fn, args):
    return z3.Not(DF["eq"](e.load(st, args[0]), e.load(st, args[1])))


@prim("opaque_fn")
def opaque_fn(e, st, fn, args):
    return DF["map"](args[0])


@prim("<T as std::ops::Drop>::drop")
def data_drop(e, st, fn, args):
    return UNIT


@prim("<EvIter as std::iter::Iterator>::next", "<DftIter as std::iter::Iterator>::next")
def draw(e, st, fn, args):
    """The events a user hands over are arbitrary; one is drawn in a pass."""
    if "drawn" not in st.x or st.x["drew"]:
        raise Unsupported("an event drawn outside of a pass")
    st.x["drew"] = True
    return st.x["drawn"]


# ------------------------------------------------------------------ queues
VD = "std::collections::VecDeque::<T, A>::"


def seq_at(e, st, ptr):
    v = e.load(st, ptr)
    if not isinstance(v, Seq):
        raise Unsupported("queue expected")
    return v.parts


def elem_ty(e, fn):
    for a in fn["args"]:
        if isinstance(a, int):
            return a
    raise Unsupported("queue of what")


def node_elem(e, ty, x):
    """The element that holds a handle to the node x."""
    for i, v in enumerate(e.types[ty]["v"]):
        if len(v["f"]) == 1:
            return Agg(i, (e.wrap(v["f"][0][1], x),))
    raise Unsupported("queue of " + e.types[ty]["name"])


def front(e, st, parts, ty):
    """[(state, parts)] with an element in front, or no parts."""
    if not parts or parts[0][0] == "val":
        return [(st, parts)]
    if parts[0][0] != "set":
        raise Unsupported("front of a queue filled from an iterator")
    _, P, n = parts[0]
    w = st.worlds[-1]
    res = []
    a = st.copy()
    e.theory(a, lambda x: z3.Not(P(x)))
    e.assume(a, n == 0)
    if e.feasible(a):
        res += front(e, a, parts[1:], ty)
    b = st.copy()
    m = e.gensym(b, "front", N)
    e.touch(b, "N", m)
    t = w.f("mtree")(m)
    e.touch(b, "T", t)
    # the queue holds a handle to it
    e.assume(b, z3.And(P(m), n >= 1, w.f("alive")(m), w.f("mstrong")(m), w.f("mref")(m) >= 1, w.f("magg")(m) >= 1,
                       w.f("ng")(t) < 0, w.f("tstrong")(t) >= 1))
    e.theory(b, lambda x: z3.Implies(P(x), w.f("o")(m) <= w.f("o")(x)))
    for k, x in list(b.touched.values()):
        if k == "N" and not x.eq(m):
            for c in w.wf_pair(m, x):
                e.assume(b, c)
    if e.feasible(b):
        res.append((b, (("val", node_elem(e, ty, m)), ("set", lambda x: z3.And(P(x), x != m), n - 1)) + parts[1:]))
    return res


@prim("std::collections::VecDeque::<T>::new", "<std::collections::VecDeque<T> as std::default::Default>::default")
def vd_new(e, st, fn, args):
    return Seq(())


@prim(VD + "push_back")
def vd_push_back(e, st, fn, args):
    e.store(st, args[0], Seq(seq_at(e, st, args[0]) + (("val", args[1]),)))
    return UNIT


@prim(VD + "pop_front")
def vd_pop_front(e, st, fn, args):
    res = []
    for s, ps in front(e, st, seq_at(e, st, args[0]), elem_ty(e, fn)):
        if not ps:
            e.store(s, args[0], Seq(()))
            res.append((s, Agg(0, ())))
        else:
            e.store(s, args[0], Seq(ps[1:]))
            res.append((s, Agg(1, (ps[0][1],))))
    return res


@prim(VD + "is_empty")
def vd_is_empty(e, st, fn, args):
    res = front(e, st, seq_at(e, st, args[0]), elem_ty(e, fn))
    for s, ps in res:
        e.store(s, args[0], Seq(ps))
    return [(s, not ps) for s, ps in res]


def borrow_elem(e, st, ty, v):
    n = st.nid.get("elem", 0)
    st.nid["elem"] = n + 1
    k = ("elem", n)
    st.mem[k] = v
    st.x[("ty", k)] = ty
    return Agg(1, (Ptr(("L", k)),))


def nth(e, st, parts, i, ty):
    res = []
    for s, ps in front(e, st, parts, ty):
        if ps and i > 0:
            res += nth(e, s, ps[1:], i - 1, ty)
        else:
            res.append((s, borrow_elem(e, s, ty, ps[0][1]) if ps else Agg(0, ())))
    return res


@prim(VD + "front")
def vd_front(e, st, fn, args):
    return nth(e, st, seq_at(e, st, args[0]), 0, elem_ty(e, fn))


@prim(VD + "get")
def vd_get(e, st, fn, args):
    i = args[1]
    if isz(i):
        i = z3.simplify(i)
        if not z3.is_int_value(i):
            raise Unsupported("index into a queue")
        i = i.as_long()
    return nth(e, st, seq_at(e, st, args[0]), i, elem_ty(e, fn))


@prim(VD + "len")
def vd_len(e, st, fn, args):
    n = 0
    for p in seq_at(e, st, args[0]):
        if p[0] == "iter":
            raise Unsupported("length of a queue filled from an iterator")
        n = n + (1 if p[0] == "val" else p[2])
    if isz(n):
        # there is memory for it
        e.assume(st, n < (1 << 62))
    return n


@prim(VD + "shrink_to_fit", VD + "shrink_to")
def vd_shrink(e, st, fn, args):
    return UNIT


@prim(VD + "capacity")
def vd_capacity(e, st, fn, args):
    x = e.gensym(st, "capacity", z3.IntSort())
    e.assume(st, z3.And(x >= 0, x < (1 << 62)))
    return x


# What the iterators a queue is filled from yield: (alternative of the event, or None; has a depth).
ITEMS = {"traverse::StableSiblingsTraverser<T>": ((None, False),),
         "traverse::StableShallowDepthFirstTraverser<T>": ((0, True), (1, True))}
ADAPTORS = {"std::iter::Map": "map", "std::iter::FilterMap": "filter_map", "std::iter::Filter": "filter"}


def strip(e, ty, v, out):
    """(type of the base iterator, its value); the adaptors (kind, function, its value) go to `out`, the innermost last."""
    t = e.types[ty]
    if t["k"] == "adt" and t["def"] in ADAPTORS:
        it, f = t["args"][:2]
        out.append((ADAPTORS[t["def"]], f, v.f[1]))
        return strip(e, it, v.f[0], out)
    return t["name"], v


def temp(e, st, ty, v):
    return borrow_elem(e, st, ty, v).f[0]


def closure(e, f):
    t = e.types[f]
    fns = [g for g in e.mir.fns.values() if t["k"] == "closure" and g["def"] == t["def"] and g["blocks"] is not None]
    if len(fns) != 1:
        raise Unsupported("adaptor with " + t["name"])
    return fns[0]


def apply(e, st, f, env, args):
    """Outcomes of calling the function or closure of type `f`."""
    t = e.types[f]
    if t["k"] == "fndef":
        fn = e.mir.fns[t["inst"]]
        if fn["blocks"] is None:
            v = e.construct(fn, args)
            if v is None:
                raise Unsupported("adaptor with " + fn["name"])
            return [Out("ret", st, v)]
    elif t["k"] == "closure":
        fn = closure(e, f)
        args = [temp(e, st, f, env) if e.types[fn["locals"][1]]["k"] in ("ref", "ptr") else env] + args
    else:
        raise Unsupported("adaptor with " + t["name"])
    e.push(st, fn, args, None, None)
    return e.run(st)


def yielded(e, st, base, chain):
    """[(alternative, condition, element or None)]: what becomes of an item of the base iterator, an arbitrary node
    at an arbitrary depth. Obligations: nothing but this happens, and a node that is left out is let go of."""
    import speclib
    import verify
    x, d = z3.Const("item", N), z3.Const("item_depth", z3.IntSort())
    fty = next(i for i, t in enumerate(e.types) if t["name"] == "FrozenNode<T>")
    s0 = st.copy()
    s0.frames = []
    e.touch(s0, "N", x)
    t = e.rd(s0, "mtree", x)
    e.touch(s0, "T", t)
    e.assume(s0, z3.And(s0.worlds[-1].f("alive")(x), e.rd(s0, "mstrong", x), e.rd(s0, "mref", x) >= 1, e.rd(s0, "magg", x) >= 1,
                        e.rd(s0, "ng", t) < 0, e.rd(s0, "tstrong", t) >= 1, d >= 0, d < 1 << 64))
    res = []
    for var, deep in ITEMS[base]:
        h = e.wrap(fty, x)
        item = Agg(var, (Agg(None, (h, d)) if deep else h,)) if var is not None else h
        work = [(s0.copy(), item)]
        done = []
        for kind, f, env in reversed(chain):
            nxt = []
            for s, v in work:
                if kind == "filter":
                    # the closure looks at the item
                    ity = e.types[closure(e, f)["locals"][2]]["to"]
                    for o in apply(e, s, f, env, [temp(e, s, ity, v)]):
                        if o.kind != "ret":
                            raise Unsupported("filter that panics")
                        for b in (True, False):
                            s2 = o.st.copy()
                            e.assume(s2, o.val == b)
                            if not e.feasible(s2):
                                continue
                            if b:
                                nxt.append((s2, v))
                            elif not holds(v, x):
                                done.append((s2, None))
                            else:
                                done += [(q.st, None) for q in e.run_spec(s2, letting_go(x), (), None)]
                    continue
                for o in apply(e, s, f, env, [v]):
                    if o.kind != "ret":
                        if e.feasible(o.st):
                            e.obls.append(("adaptor", "an item makes the adaptors panic", "", False, None))
                        continue
                    if kind == "map":
                        nxt.append((o.st, o.val))
                        continue
                    for var2, s2, fs in alternatives(e, o.st, o.val):
                        if var2 == 1:
                            nxt.append((s2, fs[0]))
                        else:
                            done.append((s2, None))
            work = nxt
        for s, v in work + done:
            if not e.feasible(s):
                continue
            q0 = s0.copy()
            q0.pc, q0.touched, q0.known = s.pc, dict(s.touched), dict(s.known)
            if "theory" in s.x:
                q0.x["theory"] = s.x["theory"]
            if v is None:
                outs = e.run_spec(q0, letting_go(x), (), None)
            else:
                outs = [Out("ret", q0)]
            for q in outs:
                if q.kind != "ret":
                    if e.feasible(q.st):
                        raise Unsupported("letting an item go panics")
                    continue
                goals = []
                verify.Checker.heap_goals(None, e, q.st, Out("ret", s), goals, False)
                e.oblige(q.st, "adaptor", "an item left out is let go of, and nothing else happens", zand(*[g for _, g, _ in goals]))
            c, pc = [], s.pc
            while pc is not None and pc is not s0.pc:
                c.append(pc.f)
                pc = pc.up
            res.append((var, zand(*c), v))
    return res


class Letting:
    pass


def letting_go(x):
    r = Letting()
    r.fn = lambda S: S.release(x, "FrozenNode")
    return r


def holds(v, x):
    """Whether the value holds the handle to x."""
    if isinstance(v, Rc):
        return not v.weak and isz(v.t) and v.t.eq(x)
    return isinstance(v, Agg) and any(holds(f, x) for f in v.f)


def alternatives(e, st, v):
    """[(alternative, state, fields)] of an enum value."""
    if isinstance(v, Agg):
        return [(v.var, st, v.f)]
    if isinstance(v, Sym):
        r = []
        for i, fs in v.alts.items():
            s = st.copy()
            e.assume(s, v.d == i)
            if e.feasible(s):
                r.append((i, s, fs))
        return r
    raise Unsupported("alternatives of %r" % (v,))


@prim("<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend")
def vd_extend(e, st, fn, args):
    """The queue takes what the iterator yields: nothing more happens to locks and references until then."""
    chain = []
    ty = [a for a in fn["args"] if isinstance(a, int)][-1]
    base, v = strip(e, ty, args[1], chain)
    if base not in ITEMS:
        raise Unsupported("queue filled from " + base)
    e.store(st, args[0], Seq(seq_at(e, st, args[0]) + (("iter", base, v, yielded(e, st, base, chain)),)))
    st.x["extended"] = True
    return UNIT


@prim("<std::collections::VecDeque<T, A> as std::clone::Clone>::clone")
def vd_clone(e, st, fn, args):
    """Element by element (Clone of the elements is under contract)."""
    v = Seq(seq_at(e, st, args[0]))
    st.x["extended"] = True
    return v
