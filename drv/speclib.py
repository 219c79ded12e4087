"""The vocabulary contracts are written in."""
import z3
import step
from val import *
from engine import SpecCtx, SpecPanic, Infeasible

NN = NULL["N"]
NT = NULL["T"]
SPECS = {}
ORDER = []


class Spec:
    def __init__(self, name, fn, props, summary, pre, inv, fold, relational, unroll=False):
        self.unroll = unroll            # loops of the function itself end after a few passes
        self.name, self.fn, self.props, self.summary, self.pre, self.inv = name, fn, props, summary, pre, inv
        self.fold = fold                # step.Fold
        self.relational = relational    # other contracts with a fold may rely on it
        self.usable = summary


def spec(*names, props="", summary=False, pre=None, inv=None, fold=None, relational=False, unroll=False):
    def deco(f):
        for n in names:
            s = Spec(n, f, tuple(props.split()), summary, pre, inv, fold, relational, unroll)
            assert n not in SPECS, n
            SPECS[n] = s
            ORDER.append(n)
        return f
    return deco


class S(SpecCtx):
    goals = None
    # ------------------------------------------------------------- arguments
    def v(self, x):
        """The value behind (nested) references."""
        while isinstance(x, Ptr):
            x = self.load(x)
        return x

    def n(self, x):
        """The object a handle (or a reference to one) stands for."""
        x = self.v(x)
        while isinstance(x, Agg):
            x = self.v(x.f[0])
        if isinstance(x, Rc):
            return x.t
        raise Unsupported("handle expected, got %r" % (x,))

    # ----------------------------------------------------------- navigation
    def parent(self, n):
        return self.rd("parent", n)

    def first(self, n):
        return self.rd("first", n)

    def next(self, n):
        return self.rd("next", n)

    def prevc(self, n):
        return self.rd("prevc", n)

    def null(self, x):
        return True if x.eq(NN) else x == NN

    def is_null(self, x):
        """Branches on the reference being absent."""
        return self.branch(self.null(x))

    def last(self, n):
        """The last child, or null."""
        f = self.first(n)
        if self.is_null(f):
            return NN
        return self.prevc(f)

    def prev(self, n):
        """The previous sibling, or null."""
        y = self.prevc(n)
        if self.is_null(self.next(y)):
            return NN
        return y

    def tree(self, n):
        return self.rd("mtree", n)

    def root(self, t):
        """The root of tree `t`; of a tree whose nodes have been moved away, its former root while that is alive."""
        r = self.rd("root", t)
        if not self.branch(self.rd("own", t)) and not self.branch(self.alive("N", r)):
            self.panic("released")
        return r

    # -------------------------------------------------------------- handles
    def gh(self, name, n):
        """A ghost function of the tree as it was before the call."""
        self.e.touch(self.st, "N", n)
        return self.st.worlds[-1].f(name)(n)

    def alive(self, k, t):
        self.e.touch(self.st, k, t)
        return zand(t != NULL[k], self.e.select_term(self.st, "alive" if k == "N" else "talive", t))

    def tacq(self, t):
        self.wr("tstrong", t, self.rd("tstrong", t) + 1)

    def put(self, ptr, v):
        self.e.store(self.st, ptr, v)

    def acq(self, n):
        """A new plain handle to `n` comes into being."""
        if self.branch(self.rd("mstrong", n)):
            self.wr("mref", n, self.rd("mref", n) + 1)
        else:
            t = self.tree(n)
            self.wr("mstrong", n, True)
            self.wr("mref", n, 1)
            self.wr("magg", n, 0)
            self.wr("tstrong", t, self.rd("tstrong", t) + 1)

    def rel(self, n):
        """A plain handle to `n` goes away."""
        r = self.rd("mref", n) - 1
        if self.branch(r != 0):
            self.wr("mref", n, r)
            return
        t = self.tree(n)
        self.wr("mstrong", n, False)
        self.wr("mref", n, 0)
        self.wr("magg", n, 0)
        self.drop_tree(t)

    def drop_tree(self, t):
        """A strong reference to tree `t` goes away."""
        rs = self.e.drop_tree_rc(self.st, Rc("T", t))
        if rs is None:
            return
        for x in rs[:-1]:
            if self.choose2():
                self.st = x
                return
        self.st = rs[-1]

    def choose2(self):
        if self.pos < len(self.dec):
            r = self.dec[self.pos]
            self.pos += 1
            return r
        self.work.append(self.dec + [False])
        self.dec = self.dec + [True]
        self.pos += 1
        return True

    def lock(self, n, d):
        """`n` takes one more lock of direction d (+1: edits allowed, -1: edits forbidden).
        False if the tree is locked the other way."""
        t = self.tree(n)
        g = self.rd("ng", t)
        if self.branch(g < 0 if d > 0 else g > 0):
            return False
        m = self.rd("magg", n)
        if self.branch(m != 0):
            self.wr("magg", n, m + 1)
        else:
            self.wr("magg", n, 1)
            self.wr("ng", t, g + d)
        return True

    def unlock(self, n):
        m = self.rd("magg", n) - 1
        self.wr("magg", n, m)
        if self.branch(m == 0):
            t = self.tree(n)
            g = self.rd("ng", t)
            self.wr("ng", t, g - 1 if self.branch(g > 0) else g + 1)

    def acquire(self, n, kind):
        self.acq(n)
        if kind in DIR:
            if not self.lock(n, DIR[kind]):
                self.panic("lock")

    def release(self, n, kind):
        if kind in DIR:
            self.unlock(n)
        self.rel(n)

    def token(self, t, d):
        """A new free-standing lock on tree `t`; False if locked the other way."""
        g = self.rd("ng", t)
        if self.branch(g < 0 if d > 0 else g > 0):
            return False
        self.wr("ng", t, g + d)
        return True

    # ------------------------------------------------- ghosts of the new forest
    def forest(self):
        """The ghost functions as they are now: g(name, node)."""
        e, snap = self.e, self.st.copy()
        return lambda nm, y: e.select_term(snap, nm, y)

    def shift(self, name, pred, val):
        """Ghost `name` of the nodes satisfying `pred` changes to `val` (both functions of the node)."""
        self.e.bulk(self.st, name, pred, val)

    # ------------------------------------------------------------- theory
    def lemma(self, name, f):
        """What the contract means in terms of the ghost functions: an obligation of its own."""
        if self.e.unknown:
            self.e.assume(self.st, f)       # proved of the code
        elif self.e.target is None and self.e.lemmas is not None:
            self.e.lemmas.append((self.st, name, f))

    def given(self, name, f):
        """What the contract of a callee says of its result."""
        self.e.assume(self.st, f)

    def forall(self, name, var, f, given=False):
        """A lemma about every node; to prove it, it is stated of the arbitrary node `var`."""
        if self.e.unknown or given:
            self.e.theory(self.st, f)
        elif self.e.target is None and self.e.lemmas is not None:
            x = z3.Const(var, N)
            self.e.touch(self.st, "N", x)
            self.e.lemmas.append((self.st, name, f(x)))

    def every(self, var, f):
        """A part of an invariant that is about every node."""
        if self.goals is None:
            self.e.theory(self.st, f)
            return
        x = z3.Const(var, N)
        self.e.touch(self.st, "N", x)
        phi = self.st.worlds[-1].f("phi")(x)
        for y in (x, phi):
            self.e.touch(self.st, "N", y)
            for w in self.st.worlds:
                for z in self.old + [phi]:
                    if not z.eq(y):
                        for c in w.wf_pair(y, z):
                            self.e.assume(self.st, c)
        self.goals.append((var, f(x)))

    def result(self):
        """The result of the code, for a contract that says what it has to satisfy."""
        o = self.e.outcome
        if self.e.unknown:
            return self.some(self.rty)
        if o is None:
            raise Unsupported("a contract over its result is no summary")
        return o.val if o.kind == "ret" else None

    # ------------------------------------------------------------- folds
    @property
    def phase(self):
        return self.st.x.get("phase")

    def slot(self, ty):
        return Ptr(("L", self.st.x["slots"][ty]))

    def drawn(self):
        return self.st.x["drawn"]

    def at_call(self, *args):
        """The call is reached with these arguments."""
        for kind, n in self.st.x["temps"]:
            self.acquire(n, kind)
        return step.AtHead(args)

    def called(self):
        """The result of the call."""
        for kind, n in self.st.x["temps"]:
            self.release(n, kind)
        return self.drawn()

    def at_head(self, vals):
        return step.AtHead(vals)

    def again(self):
        return step.AGAIN

    def require(self, f):
        """A part of the invariant of a value."""
        if self.goals is None:
            self.e.assume(self.st, f)
        else:
            self.goals.append(f)

    def impossible(self, what):
        """The code has left something the contract does not speak of."""
        if self.e.unknown:
            raise Infeasible()
        raise Unsupported(what)

    def some(self, ty):
        """An arbitrary value."""
        e, st = self.e, self.st
        c = e.cls(ty)
        nm = e.types[ty]["name"]
        if c[0] == "I":
            x = e.gensym(st, "some", z3.IntSort())
            lo, hi = e.int_range(ty)
            e.assume(st, z3.And(x >= lo, x <= hi))
            return x
        if c[0] == "data":
            return e.gensym(st, "some", D)
        if nm in ("Node<T>", "HotNode<T>", "FrozenNode<T>", "node::internal::NodeLink<T>"):
            x = e.gensym(st, "some", N)
            e.touch(st, "N", x)
            return e.wrap(ty, x)
        if c[0] == "struct":
            return Agg(None, [self.some(f) for f in c[1]])
        if c[0] in ("enum", "optrc"):
            vs = [i for i, v in enumerate(e.types[ty]["v"]) if not any(e.uninhabited(f[1]) for f in v["f"])]
            i = 0
            while i < len(vs) - 1 and self.choose2():
                i += 1
            return Agg(vs[i], [self.some(f[1]) for f in e.types[ty]["v"][vs[i]]["f"]])
        raise Unsupported("an arbitrary " + nm)

    def pick(self, v):
        """The alternative an enum value is of."""
        if isinstance(v, Sym):
            ks = sorted(v.alts)
            for i in ks[:-1]:
                if self.branch(eqv(v.d, i)):
                    return Agg(i, v.alts[i])
            return Agg(ks[-1], v.alts[ks[-1]])
        return v

    def after(self, a):
        """What the code has left behind the reference `a`."""
        o = self.e.outcome
        if self.e.unknown:
            return self.some(self.argty(a))
        if o is None:
            raise Unsupported("a contract over its result is no summary")
        return self.e.load(o.st, a)

    def argty(self, p):
        """The type behind an argument."""
        if p.path:
            raise Unsupported("argument inside another value")
        ty = self.st.x["argty"].get(p.base[1])
        return self.e.key_ty(self.st, p.base[1]) if ty is None else ty

    # -------------------------------------------------------------- results
    def ret(self, a):
        return self.lift(self.rty, a)

    def lift(self, ty, a):
        """A value of type `ty` from its abstract description."""
        e = self.e
        if isinstance(a, (Agg, Sym, Rc, Ptr, Guard, Opq, Seq)):
            return a
        if a is None:
            c = e.cls(ty)
            if c[0] in ("enum", "optrc"):
                return Agg(0, ())
            return UNIT
        c = e.cls(ty)
        if isinstance(a, tuple):
            k = a[0]
            if k == "some":
                return Agg(1, (self.lift(self.payload(ty, 1), a[1]),))
            if k == "ok":
                return Agg(0, (self.lift(self.payload(ty, 0), a[1]),))
            if k == "err":
                return Agg(1, (self.lift(self.payload(ty, 1), a[1]),))
            if k == "var":
                fs = [f[1] for f in e.types[ty]["v"][a[1]]["f"]]
                return Agg(a[1], [self.lift(t, x) for t, x in zip(fs, a[2:])])
            if k == "st":
                if c[0] != "struct" or len(c[1]) != len(a) - 1:
                    raise Unsupported("representation of " + e.types[ty]["name"])
                return Agg(None, [self.lift(t, x) for t, x in zip(c[1], a[1:])])
            raise Exception(k)
        if isinstance(a, str):
            vs = e.types[ty]["v"]
            return Agg([v["n"] for v in vs].index(a), ())
        if isz(a) and a.sort() in (N, T):
            if c[0] == "optrc":
                return e.opt(c[2], a)
            if c[0] == "enum" and e.types[ty]["def"] == "std::option::Option":
                nu = NN if a.sort() == N else NT
                if a.eq(nu):
                    return Agg(0, ())
                if self.branch(a == nu):
                    return Agg(0, ())
                return Agg(1, (e.wrap(self.payload(ty, 1), a),))
            return e.wrap(ty, a)
        return a

    def payload(self, ty, var):
        return self.e.types[ty]["v"][var]["f"][0][1]


class Rel:
    """A result that is only constrained: `f(S-free result value)` is the postcondition."""

    def __init__(self, f):
        self.f = f


DIR = {"HotNode": 1, "FrozenNode": -1}
