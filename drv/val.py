"""Values of the symbolic interpreter (immutable)."""
import z3

N = z3.DeclareSort("Node")
T = z3.DeclareSort("Tree")
D = z3.DeclareSort("Data")
NULL = {"N": z3.Const("null_node", N), "T": z3.Const("null_tree", T)}
SORT = {"N": N, "T": T, "D": D, "I": z3.IntSort(), "B": z3.BoolSort()}


class Unsupported(Exception):
    pass


class Agg:
    __slots__ = ("var", "f")

    def __init__(self, var, f):
        self.var = var
        self.f = tuple(f)

    def __repr__(self):
        return "%s(%s)" % ("" if self.var is None else "#%d" % self.var, ", ".join(map(repr, self.f)))


class Sym:
    """An enum with a symbolic discriminant (variant index)."""
    __slots__ = ("d", "alts")

    def __init__(self, d, alts):
        self.d = d
        self.alts = alts

    def __repr__(self):
        return "Sym[%s]{%s}" % (self.d, self.alts)


class Ptr:
    """base: ('L', key) memory slot | ('N', term) | ('T', term)"""
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        self.base = base
        self.path = path

    def __repr__(self):
        return "&%s%s" % (self.base, list(self.path))


class Rc:
    __slots__ = ("k", "t", "weak")

    def __init__(self, k, t, weak=False):
        self.k = k
        self.t = t
        self.weak = weak

    def __repr__(self):
        return "%s(%s)" % ("Weak" if self.weak else "Rc", self.t)


class Guard:
    __slots__ = ("id", "ptr", "mut")

    def __init__(self, id, ptr, mut):
        self.id = id
        self.ptr = ptr
        self.mut = mut

    def __repr__(self):
        return "Guard%d(%r)" % (self.id, self.ptr)


class FnV:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return "fn(%s)" % self.m


class Opq:
    """A value the verifier never looks into (format arguments, strings)."""
    __slots__ = ("w",)

    def __init__(self, w=""):
        self.w = w

    def __repr__(self):
        return "?" + self.w


class Seq:
    """A queue (VecDeque) as the parts it consists of, front to back:
    ("val", v)           the element v;
    ("set", P, n)        a handle to every node x with P(x), by increasing opening time; n of them;
    ("iter", base, v, f) whatever an iterator of type `base` with the value v yields, passed through adaptors: f is what becomes
                         of an item (a list of cases in the code, a function (alternative, node, depth) -> (kept, element) in a contract)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "Seq[%s]" % ", ".join("%s %r" % (p[0], p[1:] if p[0] != "set" else "") for p in self.parts)


UNIT = Agg(None, ())


def isz(v):
    return isinstance(v, z3.ExprRef)


def same(a, b):
    """Syntactic identity of scalar terms."""
    if isz(a):
        return isz(b) and a.eq(b)
    return (not isz(b)) and a == b


def zb(v):
    return v if isz(v) else z3.BoolVal(bool(v))


def zi(v):
    return v if isz(v) else z3.IntVal(int(v))


def mkif(c, a, b):
    if c is True or (isz(c) and z3.is_true(c)):
        return a
    if c is False or (isz(c) and z3.is_false(c)):
        return b
    if same(a, b):
        return a
    if not isz(a) and not isz(b):
        if isinstance(a, bool):
            return c if a else z3.Not(c)
        a, b = z3.IntVal(a), z3.IntVal(b)
    elif not isz(a):
        a = z3.BoolVal(a) if isinstance(a, bool) else z3.IntVal(a)
    elif not isz(b):
        b = z3.BoolVal(b) if isinstance(b, bool) else z3.IntVal(b)
    return z3.If(c, a, b)


def eqv(a, b):
    """Equality of scalars as bool or z3 Bool."""
    if same(a, b):
        return True
    if not isz(a) and not isz(b):
        return a == b
    if not isz(a):
        a = z3.BoolVal(a) if isinstance(a, bool) else z3.IntVal(a)
    if not isz(b):
        b = z3.BoolVal(b) if isinstance(b, bool) else z3.IntVal(b)
    return a == b


def zand(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def zor(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def znot(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def zimp(a, b):
    return zor(znot(a), b)
