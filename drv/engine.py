"""Symbolic execution of MIR over a symbolic heap, generating proof obligations."""
import os
import z3
import step
from val import *

NODE_TY = "node::internal::NodeCore<T>"
TREE_TY = "tree::TreeCore<T>"
CANON = {
    ("N", "data"): "data",
    ("N", "neighbors.parent"): "parent",
    ("N", "neighbors.first_child"): "first",
    ("N", "neighbors.next_sibling"): "next",
    ("N", "neighbors.prev_sibling_cyclic"): "prevc",
    ("N", "num_children"): "nch",
    ("N", "membership"): "mem",
    ("N", "membership.Weak.tree_core"): "mtree",
    ("N", "membership.Strong.tree_core"): "mtree",
    ("N", "membership.Strong.tree_refcount"): "mref",
    ("N", "membership.Strong.lock_aggregator.aggregated_count"): "magg",
    ("T", "root.Owned.0"): "root",
    ("T", "root.Moved.0"): "root",
    ("T", "lock_manager.num_grants"): "ng",
}
CANON_KEYS = set(CANON)
# name -> (key kind, value kind)
FIELDS = {
    "data": ("N", "D"), "parent": ("N", "N"), "first": ("N", "N"), "next": ("N", "N"),
    "prevc": ("N", "N"), "nch": ("N", "I"), "mstrong": ("N", "B"), "mtree": ("N", "T"),
    "mref": ("N", "I"), "magg": ("N", "I"), "root": ("T", "N"), "ng": ("T", "I"),
    "alive": ("N", "B"), "talive": ("T", "B"),
    "own": ("T", "B"), "tstrong": ("T", "I"),
    # ghost
    "rt": ("N", "N"), "o": ("N", "I"), "c": ("N", "I"), "idx": ("N", "I"), "dep": ("N", "I"), "phi": ("N", "N"),
}
GHOST = ("rt", "o", "c", "idx", "dep", "phi")


class PC:
    __slots__ = ("up", "f", "n")

    def __init__(self, up, f):
        self.up = up
        self.f = f
        self.n = 0 if up is None else up.n + 1


class W:
    """A heap write: point (addr, val) or bulk (pred, fn)."""
    __slots__ = ("up", "a", "v", "pred")

    def __init__(self, up, a, v, pred=None):
        self.up = up
        self.a = a
        self.v = v
        self.pred = pred


class Frame:
    __slots__ = ("fn", "id", "b", "i", "dest", "ret", "hook", "loops")

    def __init__(self, fn, id, dest, ret, hook=None):
        self.fn = fn
        self.id = id
        self.b = 0
        self.i = 0
        self.dest = dest
        self.ret = ret
        self.hook = hook
        self.loops = ()

    def copy(self):
        f = Frame(self.fn, self.id, self.dest, self.ret, self.hook)
        f.b, f.i, f.loops = self.b, self.i, self.loops
        return f


class St:
    __slots__ = ("mem", "heap", "pc", "frames", "borrows", "known", "touched", "nid", "fresh",
                 "log", "worlds", "infeasible", "x")

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.frames = [f.copy() for f in self.frames]
        s.borrows = dict(self.borrows)
        s.known = dict(self.known)
        s.touched = dict(self.touched)
        s.nid = dict(self.nid)
        s.fresh = self.fresh
        s.log = self.log
        s.worlds = self.worlds
        s.x = dict(self.x)
        s.infeasible = False
        return s


class Out:
    """Outcome of a path."""
    __slots__ = ("kind", "st", "val", "msg", "span")

    def __init__(self, kind, st, val=None, msg="", span=""):
        self.kind, self.st, self.val, self.msg, self.span = kind, st, val, msg, span


class Infeasible(Exception):
    pass


class SpecPanic(Exception):
    pass


class Engine:
    def __init__(self, mir, prims, specs):
        self.mir = mir
        self.types = mir.types
        self.prims = prims
        self.specs = specs
        self.solver = z3.Solver()
        self.solver.set("timeout", 8000)
        self.stack = []
        self.opt_terms = {}
        self.keep = []
        self.nqueries = 0
        self.clscache = {}
        self.rescache = {}
        self.reccache = {}
        self.steps = 0
        self.max_paths = 4000
        self.max_steps = 3000000
        self.loops = {}
        self.node_ty = mir.ty(NODE_TY)
        self.tree_ty = mir.ty(TREE_TY)
        self.loopinfo = {}
        self.obls = []          # obligations raised during execution
        self.used_specs = set()
        self.inlined = set()
        self.target = None
        self.lemmas = self.outcome = None
        self.unknown = False    # results that are only constrained are arbitrary (forest.py)
        import time
        self.time = time.time
        self.solver_time = 0.0

    # ---------------------------------------------------------------- solver
    def goto(self, pc):
        chain = []
        p = pc
        while p is not None and p.n >= len(self.stack):
            chain.append(p)
            p = p.up
        while len(self.stack) and (p is None or len(self.stack) - 1 > p.n):
            self.stack.pop()
            self.solver.pop()
        while p is not None and self.stack[p.n] is not p:
            chain.append(p)
            p = p.up
            self.stack.pop()
            self.solver.pop()
        for p in reversed(chain):
            self.solver.push()
            self.solver.add(p.f)
            self.stack.append(p)

    def check(self, st, *extra):
        if st.infeasible:
            return z3.unsat
        self.goto(st.pc)
        self.nqueries += 1
        t = self.time()
        ex = [e for e in extra if e is not True]
        if any(e is False for e in ex):
            return z3.unsat
        r = self.solver.check(*ex)
        self.solver_time += self.time() - t
        return r

    def feasible(self, st, *extra):
        return self.check(st, *extra) != z3.unsat

    def proves(self, st, f):
        if f is True:
            return True
        if f is False:
            return st.infeasible or not self.feasible(st)
        return self.check(st, z3.Not(f)) == z3.unsat

    def assume(self, st, f):
        if f is True:
            return
        if f is False:
            st.infeasible = True
            return
        st.pc = PC(st.pc, f)

    # ---------------------------------------------------------------- states
    def new_state(self, world):
        s = St()
        s.mem, s.heap, s.pc, s.frames, s.borrows = {}, {}, None, [], {}
        s.known, s.touched, s.nid, s.fresh, s.log = {}, {}, {}, (), ()
        s.worlds = (world,)
        s.infeasible = False
        s.x = {}
        self.assume(s, z3.Not(world.f("alive")(NULL["N"])))
        self.assume(s, z3.Not(world.f("talive")(NULL["T"])))
        return s

    def gensym(self, st, base, sort):
        n = st.nid.get(base, 0)
        st.nid[base] = n + 1
        return z3.Const("%s!%d" % (base, n), sort)

    def fresh_obj(self, st, k):
        t = self.gensym(st, "new" + k, SORT[k])
        al = "alive" if k == "N" else "talive"
        self.assume(st, t != NULL[k])
        for w in st.worlds:
            self.assume(st, z3.Not(w.f(al)(t)))
        for k2, o in st.fresh:
            if k2 == k:
                self.assume(st, t != o)
        # an object is new: not equal to anything the state already mentions
        old = st.x.get("entry")
        for x in list(st.touched.values()):
            if x[0] == k and not x[1].eq(t) and (old is None or x[1].get_id() in old):
                self.assume(st, t != x[1])
                self.keep.append((t, x[1]))
                st.known[(t.get_id(), x[1].get_id())] = False
        st.fresh = st.fresh + ((k, t),)
        st.touched[t.get_id()] = (k, t)
        self.write(st, al, t, True)
        return t

    def touch(self, st, k, t):
        i = t.get_id()
        if i in st.touched or t.eq(NULL[k]):
            return
        st.touched[i] = (k, t)
        if k == "D":
            return
        for w in st.worlds:
            for c in (w.wf_node(t) if k == "N" else w.wf_tree(t)):
                self.assume(st, c)
            if k == "N" and st.x.get("counts") is not None:
                for c in w.wf_counts(st.x["counts"], t):
                    self.assume(st, c)
        if k == "N" and st.x.get("theory") is not None:
            for c in st.x["theory"](st, t):
                self.assume(st, c)

    def theory(self, st, f):
        """Assumes `f` of every node (as they come up)."""
        old = st.x.get("theory")
        st.x["theory"] = lambda s, t: (old(s, t) if old is not None else []) + [f(t)]
        for k, t in list(st.touched.values()):
            if k == "N":
                self.assume(st, f(t))

    def touch_counts(self, st):
        """The counting functions are used from here on."""
        for k, t in list(st.touched.values()):
            if k == "N":
                for c in st.worlds[-1].wf_counts(st.x["counts"], t):
                    self.assume(st, c)

    # ------------------------------------------------------------------ heap
    def base(self, st, name, t):
        w = st.worlds[-1]
        return w.f(name)(t)

    def decide_eq(self, st, a, b):
        """True / False / None (undetermined)."""
        if a.eq(b):
            return True
        k = (a.get_id(), b.get_id())
        r = st.known.get(k)
        if r is None:
            r = st.known.get((k[1], k[0]))
        if r is not None:
            return r
        if not self.feasible(st, a == b):
            r = False
        elif not self.feasible(st, a != b):
            r = True
        if r is not None:
            st.known[k] = r
            self.keep.append((a, b))
        return r

    def select(self, st, name, t):
        """Current value of field `name` of object `t`."""
        w = st.heap.get(name)
        conds = []
        res = None
        while w is not None:
            if w.pred is not None:
                c = w.pred(t)
                v = w.v(t) if callable(w.v) else w.v
                if c is True:
                    res = v
                    break
                if c is not False:
                    # bulk update: try to decide
                    if not self.feasible(st, c):
                        pass
                    elif not self.feasible(st, z3.Not(c)):
                        res = v
                        break
                    else:
                        conds.append((c, v))
            else:
                d = self.decide_eq(st, w.a, t)
                if d is True:
                    res = w.v
                    break
                if d is None:
                    conds.append((w.a == t, w.v))
            w = w.up
        if res is None:
            res = self.base(st, name, t)
        for c, v in reversed(conds):
            res = mkif(c, v, res)
        return res

    def select_term(self, st, name, t):
        """Like `select`, but without solver queries."""
        w = st.heap.get(name)
        conds = []
        res = None
        while w is not None:
            if w.pred is not None:
                conds.append((w.pred(t), w.v(t) if callable(w.v) else w.v))
            else:
                if w.a.eq(t):
                    res = w.v
                    break
                kn = st.known.get((w.a.get_id(), t.get_id()))
                if kn is None:
                    kn = st.known.get((t.get_id(), w.a.get_id()))
                if kn is True:
                    res = w.v
                    break
                if kn is None:
                    conds.append((w.a == t, w.v))
            w = w.up
        if res is None:
            res = self.base(st, name, t)
        for c, v in reversed(conds):
            res = mkif(c, v, res)
        return res

    def write(self, st, name, t, v):
        st.heap[name] = W(st.heap.get(name), t, v)

    def bulk(self, st, name, pred, v):
        st.heap[name] = W(st.heap.get(name), None, v, pred)

    def rd(self, st, name, t):
        if st.x.get("extended") and name in ("mstrong", "mref", "magg", "ng", "tstrong"):
            raise Unsupported("locks and references after a queue took handles from an iterator")
        self.touch(st, FIELDS[name][0] if name in FIELDS else "N", t)
        v = self.select(st, name, t)
        vk = FIELDS[name][1] if name in FIELDS else None
        if vk in ("N", "T"):
            self.touch(st, vk, v)
        return v

    # ----------------------------------------------------------------- types
    def cls(self, ty):
        c = self.clscache.get(ty)
        if c is None:
            c = self.clscache[ty] = self._cls(ty)
        return c

    def _cls(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k in ("int", "bool", "char"):
            return ("I" if k != "bool" else "B",)
        if k == "tuple":
            return ("struct", t["f"])
        if k == "closure":
            if t["up"] is None:
                return ("struct", [])
            return ("struct", self.types[t["up"]].get("f", []))
        if k in ("ref", "ptr"):
            return ("ptr", t["to"])
        if k == "adt":
            d = t["def"]
            if d in ("std::rc::Rc", "std::rc::Weak"):
                to = t["args"][0]
                kk = {NODE_TY: "N", TREE_TY: "T"}.get(self.types[to]["name"])
                if kk is None:
                    return ("opq",)
                return ("rc", kk, d == "std::rc::Weak")
            if d in ("std::cell::RefCell", "std::cell::Cell"):
                return ("cell", t["args"][0], d)
            if d in ("std::cell::Ref", "std::cell::RefMut"):
                return ("guard", [a for a in t["args"] if isinstance(a, int)][0])
            if d == "std::num::NonZero":
                return ("I",)
            if t["name"] == "T":
                return ("data",)
            if d in ("std::collections::VecDeque",):
                return ("seq", t["args"][0])
            if d.startswith("std::fmt") or d.startswith("core::fmt") or d.startswith("alloc::") or \
                    d.startswith("std::string") or d.startswith("std::vec"):
                return ("opq",)
            if t["kind"] == "struct":
                return ("struct", [f[1] for f in t["v"][0]["f"]])
            if t["kind"] == "enum":
                if d == "std::option::Option":
                    w = self.wraps_rc(t["args"][0])
                    if w:
                        return ("optrc", w, t["args"][0])
                return ("enum", [[f[1] for f in v["f"]] for v in t["v"]])
        if k == "fndef":
            return ("fn",)
        return ("opq",)

    def wraps_rc(self, ty):
        """Kind of the object if the type is a struct of a single strong Rc, without drop glue
        other than the reference's."""
        c = self.cls(ty)
        if c[0] == "rc" and not c[2]:
            return c[1]
        t = self.types[ty]
        if c[0] == "struct" and len(c[1]) == 1 and t["k"] == "adt" and t["def"] == "node::internal::NodeCoreLink":
            return self.wraps_rc(c[1][0])
        return None

    def wrap(self, ty, term):
        c = self.cls(ty)
        if c[0] == "rc":
            return Rc(c[1], term, c[2])
        if c[0] == "struct" and len(c[1]) == 1:
            return Agg(None, (self.wrap(c[1][0], term),))
        raise Unsupported("wrap " + self.types[ty]["name"])

    def unwrap(self, v):
        while isinstance(v, Agg):
            v = v.f[0]
        return v.t

    def opt(self, ty, term):
        """Option<..Rc..> value from a nullable term; `ty` the payload type."""
        k = self.wraps_rc(ty)
        if term.eq(NULL[k]):
            return Agg(0, ())
        d = z3.If(term == NULL[k], z3.IntVal(0), z3.IntVal(1))
        self.opt_terms[d.get_id()] = (d, term)
        return Sym(d, {0: (), 1: (self.wrap(ty, term),)})

    def opt_term(self, v, k):
        if isinstance(v, Agg):
            return NULL[k] if v.var == 0 else self.unwrap(v.f[0])
        e = self.opt_terms.get(v.d.get_id())
        t = self.unwrap(v.alts[1][0])
        if e is not None and e[1].eq(t):
            return t
        return mkif(v.d == 1, t, NULL[k])

    # heap layout: resolve a path inside NodeCore / TreeCore
    def resolve(self, k, path):
        key = (k, path)
        r = self.rescache.get(key)
        if r is None:
            ty = self.node_ty if k == "N" else self.tree_ty
            name = []
            for s in path:
                t = self.types[ty]
                c = self.cls(ty)
                if s == "c":
                    ty = c[1]
                elif isinstance(s, tuple):
                    v = t["v"][s[0]]
                    if c[0] == "optrc":
                        ty = v["f"][s[1]][1]
                    else:
                        name += [v["n"], v["f"][s[1]][0]]
                        ty = v["f"][s[1]][1]
                else:
                    if t["k"] == "adt" and t["def"] in ("node::internal::NodeCoreLink", "node::internal::NodeCoreLinkWeak"):
                        ty = c[1][s]
                    elif t["k"] == "adt":
                        name.append(t["v"][0]["f"][s][0])
                        ty = t["v"][0]["f"][s][1]
                    else:
                        name.append(str(s))
                        ty = c[1][s]
            r = self.rescache[key] = (".".join(name), ty)
        return r

    def canon(self, k, name, kind):
        c = CANON.get((k, name))
        if c is None:
            c = k + "." + name
            if c not in FIELDS:
                FIELDS[c] = (k, kind)
        return c

    def hload(self, st, k, t, path):
        name, ty = self.resolve(k, path)
        self.touch(st, k, t)
        return self.load_ty(st, k, t, name, ty)

    def load_ty(self, st, k, t, name, ty):
        c = self.cls(ty)
        if c[0] in ("I", "B"):
            return self.rd(st, self.canon(k, name, c[0]), t)
        if c[0] == "data":
            return self.rd(st, self.canon(k, name, "D"), t)
        if c[0] == "rc":
            return Rc(c[1], self.rd(st, self.canon(k, name, c[1]), t), c[2])
        if c[0] == "optrc":
            return self.opt(c[2], self.rd(st, self.canon(k, name, c[1]), t))
        if c[0] == "cell":
            raise Unsupported("load of a cell by value")
        tt = self.types[ty]
        if c[0] == "struct":
            if tt["k"] == "adt" and tt["def"] in ("node::internal::NodeCoreLink", "node::internal::NodeCoreLinkWeak"):
                return Agg(None, (self.load_ty(st, k, t, name, c[1][0]),))
            return Agg(None, [self.load_ty(st, k, t, name + "." + f[0], f[1]) for f in tt["v"][0]["f"]])
        if c[0] == "enum":
            alts = {}
            for i, v in enumerate(tt["v"]):
                alts[i] = tuple(self.load_ty(st, k, t, "%s.%s.%s" % (name, v["n"], f[0]), f[1]) for f in v["f"])
            return Sym(self.load_discr(st, k, t, name, ty), alts)
        raise Unsupported("load " + tt["name"])

    def load_discr(self, st, k, t, name, ty):
        tt = self.types[ty]
        c = self.cls(ty)
        if c[0] == "optrc":
            v = self.rd(st, self.canon(k, name, c[1]), t)
            return self.opt(c[2], v)
        if self.canon(k, name, "I") == "mem" and [v["n"] for v in tt["v"]] == ["Weak", "Strong"]:
            b = self.rd(st, "mstrong", t)
            return mkif(b, 1, 0)
        if self.is_root(k, name, tt):
            return mkif(self.rd(st, "own", t), 0, 1)
        return self.rd(st, self.canon(k, name + ".d", "I"), t)

    def is_root(self, k, name, tt):
        """The link of a tree to its root node: strong if it owns the nodes, else weak."""
        return (k, name) == ("T", "root") and [v["n"] for v in tt["v"]] == ["Owned", "Moved"]

    def hstore(self, st, k, t, path, v):
        name, ty = self.resolve(k, path)
        self.touch(st, k, t)
        self.store_ty(st, k, t, name, ty, v)

    def store_ty(self, st, k, t, name, ty, v):
        c = self.cls(ty)
        if v is None:
            return
        if c[0] in ("I", "B"):
            return self.write(st, self.canon(k, name, c[0]), t, v)
        if c[0] == "data":
            return self.write(st, self.canon(k, name, "D"), t, v)
        if c[0] == "rc":
            return self.write(st, self.canon(k, name, c[1]), t, v.t)
        if c[0] == "optrc":
            return self.write(st, self.canon(k, name, c[1]), t, self.opt_term(v, c[1]))
        if c[0] == "cell":
            return self.store_ty(st, k, t, name, c[1], v.f[0])
        tt = self.types[ty]
        if c[0] == "struct":
            if tt["k"] == "adt" and tt["def"] in ("node::internal::NodeCoreLink", "node::internal::NodeCoreLinkWeak"):
                return self.store_ty(st, k, t, name, c[1][0], v.f[0])
            for f, x in zip(tt["v"][0]["f"], v.f):
                self.store_ty(st, k, t, name + "." + f[0], f[1], x)
            return
        if c[0] == "enum":
            if self.canon(k, name, "I") == "mem" and [x["n"] for x in tt["v"]] == ["Weak", "Strong"]:
                def leaves(alts):
                    w, s = alts.get(0), alts.get(1)
                    return w, s
                if isinstance(v, Agg):
                    if v.var == 0:
                        self.write(st, "mstrong", t, False)
                        self.write(st, "mtree", t, v.f[0].t)
                        self.write(st, "mref", t, 0)
                        self.write(st, "magg", t, 0)
                    else:
                        self.write(st, "mstrong", t, True)
                        for f, x in zip(tt["v"][1]["f"], v.f):
                            self.store_ty(st, k, t, name + ".Strong." + f[0], f[1], x)
                    return
                raise Unsupported("store of a symbolic membership")
            if self.is_root(k, name, tt):
                if not isinstance(v, Agg):
                    raise Unsupported("store of a symbolic root link")
                self.write(st, "own", t, v.var == 0)
                self.write(st, "root", t, self.unwrap(v.f[0]))
                return
            if isinstance(v, Agg):
                self.write(st, self.canon(k, name + ".d", "I"), t, v.var)
                vv = tt["v"][v.var]
                for f, x in zip(vv["f"], v.f):
                    self.store_ty(st, k, t, "%s.%s.%s" % (name, vv["n"], f[0]), f[1], x)
                return
            self.write(st, self.canon(k, name + ".d", "I"), t, v.d)
            for i, fs in v.alts.items():
                vv = tt["v"][i]
                for f, x in zip(vv["f"], fs):
                    self.store_ty(st, k, t, "%s.%s.%s" % (name, vv["n"], f[0]), f[1], x)
            return
        if c[0] in ("opq",):
            return
        raise Unsupported("store " + tt["name"])

    # --------------------------------------------------------------- values
    def getf(self, v, s):
        if isinstance(s, tuple):
            if isinstance(v, Agg):
                if v.var != s[0]:
                    raise Infeasible()
                return v.f[s[1]]
            if isinstance(v, Sym):
                return v.alts[s[0]][s[1]]
            raise Unsupported("variant field of %r" % (v,))
        if isinstance(v, Agg):
            return v.f[s]
        if s == "c" and isinstance(v, Agg):
            return v.f[0]
        raise Unsupported("field %r of %r" % (s, v))

    def read_path(self, v, path):
        for s in path:
            v = self.getf(v, 0 if s == "c" else s)
        return v

    def write_path(self, v, path, x, ty):
        if not path:
            return x
        s = path[0]
        if s == "c":
            return Agg(None, (self.write_path(v.f[0] if v else None, path[1:], x, self.cls(ty)[1]),))
        if isinstance(s, tuple):
            fty = self.types[ty]["v"][s[0]]["f"][s[1]][1]
            if isinstance(v, Sym):
                alts = dict(v.alts)
                fs = list(alts[s[0]])
                fs[s[1]] = self.write_path(fs[s[1]], path[1:], x, fty)
                alts[s[0]] = tuple(fs)
                return Sym(v.d, alts)
            if v is None:
                fs = [None] * len(self.types[ty]["v"][s[0]]["f"])
            else:
                fs = list(v.f)
            fs[s[1]] = self.write_path(fs[s[1]], path[1:], x, fty)
            return Agg(s[0], fs)
        c = self.cls(ty)
        if c[0] != "struct":
            raise Unsupported("write into " + self.types[ty]["name"])
        fs = list(v.f) if v is not None else [None] * len(c[1])
        fs[s] = self.write_path(fs[s], path[1:], x, c[1][s])
        return Agg(None, fs)

    def load(self, st, ptr):
        b = ptr.base
        if b[0] == "O":
            return Opq("const")
        if b[0] == "L":
            v = st.mem.get(b[1])
            if v is None:
                v = self.zst_val(self.key_ty(st, b[1]))
                if v is None:
                    raise Unsupported("read of uninitialized %r" % (b,))
            return self.read_path(v, ptr.path)
        return self.hload(st, b[0], b[1], ptr.path)

    def store(self, st, ptr, v):
        b = ptr.base
        if b[0] == "L":
            if not ptr.path:
                st.mem[b[1]] = v
            else:
                st.mem[b[1]] = self.write_path(st.mem.get(b[1]), ptr.path, v, self.key_ty(st, b[1]))
            return
        self.hstore(st, b[0], b[1], ptr.path, v)

    def clear(self, st, ptr):
        """The place is moved out of: nothing is owned there any more."""
        if ptr.base[0] in "NT":
            name, ty = self.resolve(ptr.base[0], ptr.path)
            self.clear_ty(st, ptr.base[0], ptr.base[1], name, ty)
            return
        if ptr.base[0] == "L":
            k = ptr.base[1]
            st.mem[k] = self.clear_path(st.mem.get(k), ptr.path)

    def clear_ty(self, st, k, t, name, ty):
        c = self.cls(ty)
        if c[0] == "rc" and not c[2] or c[0] == "optrc":
            self.write(st, self.canon(k, name, c[1]), t, NULL[c[1]])
        elif c[0] == "struct":
            tt = self.types[ty]
            if tt["k"] == "adt" and tt["def"] in ("node::internal::NodeCoreLink", "node::internal::NodeCoreLinkWeak"):
                return self.clear_ty(st, k, t, name, c[1][0])
            for f in tt["v"][0]["f"]:
                self.clear_ty(st, k, t, name + "." + f[0], f[1])
        elif c[0] == "cell":
            self.clear_ty(st, k, t, name, c[1])
        elif c[0] == "enum" and self.drop_kind(ty) != "none":
            if self.canon(k, name, "I") == "mem":
                self.write(st, "mstrong", t, False)
            elif self.is_root(k, name, self.types[ty]):
                self.write(st, "own", t, False)
            else:
                raise Unsupported("drop of an enum in place")

    def clear_path(self, v, path):
        if not path or v is None:
            return None
        s = path[0]
        if s == "c":
            s = 0
        if isinstance(s, tuple):
            if isinstance(v, Sym):
                alts = dict(v.alts)
                fs = list(alts[s[0]])
                fs[s[1]] = self.clear_path(fs[s[1]], path[1:])
                alts[s[0]] = tuple(fs)
                return Sym(v.d, alts)
            s = s[1]
        fs = list(v.f)
        fs[s] = self.clear_path(fs[s], path[1:])
        return Agg(v.var, fs)

    def key_ty(self, st, key):
        if key[0] == "arg":
            return st.x["argty"][key]
        for f in st.frames:
            if f.id == key[0]:
                return f.fn["locals"][key[1]]
        if ("ty", key) in st.x:
            return st.x[("ty", key)]
        raise Unsupported("no type for %r" % (key,))

    # ---------------------------------------------------------------- places
    def place(self, st, fr, p):
        ptr = Ptr(("L", (fr.id, p[0])), ())
        var = None
        for e in p[1]:
            if e == "*":
                v = self.load(st, ptr)
                if isinstance(v, Ptr):
                    ptr = v
                elif isinstance(v, Opq):
                    ptr = Ptr(("O", 0))
                else:
                    raise Unsupported("deref of %r" % (v,))
            elif e[0] == "f":
                if var is not None:
                    ptr = Ptr(ptr.base, ptr.path + ((var, e[1]),))
                    var = None
                else:
                    ptr = Ptr(ptr.base, ptr.path + (e[1],))
            elif e[0] == "d":
                var = e[1]
            else:
                raise Unsupported("projection %r" % (e,))
        return ptr

    def place_ty(self, st, fr, p):
        ty = fr.fn["locals"][p[0]]
        var = None
        for e in p[1]:
            if e == "*":
                ty = self.types[ty]["to"]
            elif e[0] == "f":
                ty = e[2]
        return ty

    def read_const(self, ty, b, prov, off):
        """The value of type `ty` at offset `off` of a constant allocation, or None."""
        t = self.types[ty]
        c = self.cls(ty)
        k = t["k"]
        if k in ("int", "bool", "char"):
            sz = t["b"] // 8 if k == "int" else 1 if k == "bool" else 4
            bs = b[off:off + sz]
            if len(bs) < sz or any(x is None for x in bs) or any(off <= p[0] < off + sz for p in prov):
                return None
            n = int.from_bytes(bytes(bs), "little", signed=bool(t.get("s")))
            return bool(n) if k == "bool" else n
        lay = t.get("lay")
        if lay is None or c[0] not in ("struct", "enum", "optrc"):
            return None
        if "one" in lay:
            i, offs = lay["one"], lay["off"]
        else:
            o, sz = lay["tag"]
            bs = b[off + o:off + o + sz]
            if len(bs) < sz or any(x is None for x in bs) or any(off + o <= p[0] < off + o + sz for p in prov):
                return None
            n = int.from_bytes(bytes(bs), "little")
            if lay["niche"] is None:
                i = next((j for j, v in enumerate(t["v"]) if v["d"] % (1 << (8 * sz)) == n), None)
            else:
                un, lo, hi, start = lay["niche"]
                i = (n - int(start)) % (1 << (8 * sz)) + lo
                if i > hi:
                    i = un
            if i is None:
                return None
            offs = lay["voff"][i]
        if k == "tuple":
            fs = t["f"]
        else:
            fs = [f[1] for f in t["v"][i]["f"]]
        if c[0] == "struct" and len(fs) != len(c[1]):
            return None
        out = []
        for f, o in zip(fs, offs):
            x = self.read_const(f, b, prov, off + o)
            if x is None:
                return None
            out.append(x)
        return Agg(i if k == "adt" and t["kind"] == "enum" else None, out)

    def const(self, ty, a):
        t = self.types[ty]
        k = t["k"]
        if k == "fndef":
            return FnV(t["inst"])
        if isinstance(a, dict) and "v" in a:
            return a["v"]
        if k in ("int", "bool", "char"):
            b = a["b"]
            n = int.from_bytes(bytes(x or 0 for x in b), "little", signed=bool(t.get("s")))
            return bool(n) if k == "bool" else n
        if k in ("struct", "tuple") and a == "zst":
            return Agg(None, ())
        c = self.cls(ty)
        if a == "zst" and t.get("lay"):
            a = {"b": [], "p": []}
        if isinstance(a, dict) and a.get("b") is not None and "lay" in t and c[0] in ("struct", "enum", "optrc"):
            r = self.read_const(ty, a["b"], a.get("p") or [], 0)
            if r is not None:
                return r
            a = "zst" if a["b"] == [] else a
        if a == "zst":
            if c[0] == "struct":
                return Agg(None, [self.const(x, "zst") for x in c[1]])
            if c[0] in ("enum", "optrc"):
                vs = [i for i, v in enumerate(t["v"]) if not any(self.uninhabited(x[1]) for x in v["f"])]
                return Agg(vs[0], [self.const(x[1], "zst") for x in t["v"][vs[0]]["f"]])
            return Opq("zst")
        if k == "adt" and t["kind"] == "enum" and isinstance(a, dict) and a.get("b") is not None and not a["p"]:
            bs = a["b"]
            if all(not v["f"] for v in t["v"]):
                n = int.from_bytes(bytes(x or 0 for x in bs), "little")
                m = 1 << (8 * len(bs))
                for i, v in enumerate(t["v"]):
                    if v["d"] % m == n:
                        return Agg(i, ())
        if c[0] == "I" and isinstance(a, dict):
            return int.from_bytes(bytes(x or 0 for x in a["b"]), "little")
        if k in ("ref", "ptr"):
            to = self.types[t["to"]]
            if to["k"] in ("int", "bool") or (to["k"] == "adt" and to["kind"] == "enum" and all(not v["f"] for v in to["v"])):
                try:
                    inner = a["p"][0][1]
                    v = self.const(t["to"], inner)
                    return ("constref", v, t["to"])
                except Exception:
                    pass
            elif "lay" in to and isinstance(a, dict) and a.get("p") and self.cls(t["to"])[0] in ("struct", "enum", "optrc"):
                inner = a["p"][0][1]
                if isinstance(inner, dict) and inner.get("b") is not None:
                    v = self.read_const(t["to"], inner["b"], inner.get("p") or [], 0)
                    if v is not None:
                        return ("constref", v, t["to"])
            return Opq("const")
        return Opq("const")

    def operand(self, st, fr, o):
        if o[0] == "copy":
            return self.load(st, self.place(st, fr, o[1]))
        if o[0] == "move":
            ptr = self.place(st, fr, o[1])
            v = self.load(st, ptr)
            if ptr.base[0] == "L" and self.drop_kind(self.place_ty(st, fr, o[1])) != "none":
                self.clear(st, ptr)
            return v
        if o[0] == "const":
            v = self.const(o[1], o[2])
            if isinstance(v, tuple):
                key = ("K", len(st.mem))
                st.mem[key] = v[1]
                st.x[("ty", key)] = v[2]
                return Ptr(("L", key))
            return v
        if o[0] == "rt":
            return False
        raise Unsupported("operand %r" % (o,))

    def zst_val(self, ty):
        """The only value of a zero-sized type, else None."""
        t = self.types[ty]
        c = self.cls(ty)
        if c[0] == "struct":
            fs = [self.zst_val(f) for f in c[1]]
            return None if None in fs else Agg(None, fs)
        if t["k"] == "adt" and t["kind"] == "enum":
            vs = [i for i, v in enumerate(t["v"]) if not any(self.uninhabited(x[1]) for x in v["f"])]
            if len(vs) == 1:
                fs = [self.zst_val(x[1]) for x in t["v"][vs[0]]["f"]]
                return None if None in fs else Agg(vs[0], fs)
        return None

    def uninhabited(self, ty):
        t = self.types[ty]
        if t["k"] == "never":
            return True
        if t["k"] == "adt" and t["kind"] == "enum":
            return all(any(self.uninhabited(x[1]) for x in v["f"]) for v in t["v"])
        return False

    def discr(self, st, ptr):
        b = ptr.base
        if b[0] == "L":
            v = self.load(st, ptr)
        elif b[0] == "O":
            raise Unsupported("discriminant of a constant")
        else:
            name, ty = self.resolve(b[0], ptr.path)
            self.touch(st, b[0], b[1])
            v = self.load_discr(st, b[0], b[1], name, ty)
        if isinstance(v, Agg):
            if v.var is None:
                raise Unsupported("discriminant of %r" % (v,))
            return v.var
        if isinstance(v, Sym):
            return v.d
        if isz(v) or isinstance(v, int):
            return v
        raise Unsupported("discriminant of %r" % (v,))

    def discr_val(self, st, fr, p):
        v = self.discr(st, self.place(st, fr, p))
        ty = self.place_ty(st, fr, p)
        t = self.types[ty]
        if t["k"] == "adt":
            ds = [x["d"] for x in t["v"]]
            if ds != list(range(len(ds))):
                if isinstance(v, int):
                    return ds[v]
                r = z3.IntVal(ds[-1])
                for i in range(len(ds) - 1):
                    r = z3.If(v == i, z3.IntVal(ds[i]), r)
                return r
        return v

    RANGE = {64: 1 << 64}

    def binop(self, st, op, a, b, ty):
        if op in ("Eq", "Ne"):
            r = self.val_eq(st, a, b)
            return r if op == "Eq" else znot(r)
        if isinstance(a, Ptr) or isinstance(a, Opq) or isinstance(b, Opq):
            raise Unsupported("binop %s on pointers" % op)
        if op in ("Add", "AddUnchecked"):
            return a + b
        if op in ("Sub", "SubUnchecked"):
            return a - b
        if op in ("Mul", "MulUnchecked"):
            return a * b
        if op == "Lt":
            return a < b
        if op == "Le":
            return a <= b
        if op == "Gt":
            return a > b
        if op == "Ge":
            return a >= b
        t = self.types[ty]
        if op in ("BitAnd", "BitOr", "BitXor") and t["k"] == "bool":
            if op == "BitXor":
                return znot(eqv(a, b))
            return zand(a, b) if op == "BitAnd" else zor(a, b)
        if t["k"] == "int" and not t["s"]:
            if op in ("Div", "Rem"):
                if isz(a) or isz(b):
                    return zi(a) / zi(b) if op == "Div" else zi(a) % zi(b)
                return a // b if op == "Div" else a % b
            if op == "BitAnd" and (not isz(b) and b & (b + 1) == 0 or not isz(a) and a & (a + 1) == 0):
                if isz(b):
                    a, b = b, a
                return a % (b + 1) if isz(a) else a & b
            if op in ("Shr", "Shl", "ShrUnchecked", "ShlUnchecked") and not isz(b):
                n = 1 << b
                if op[:3] == "Shr":
                    return a / z3.IntVal(n) if isz(a) else a // n
                return (a * n) % (self.int_range(ty)[1] + 1)
        if op == "Cmp":
            lt, eq = a < b, eqv(a, b)
            if isinstance(lt, bool) and isinstance(eq, bool):
                return Agg(0 if lt else 1 if eq else 2, ())
            return Sym(z3.If(zb(lt), z3.IntVal(0), z3.If(zb(eq), z3.IntVal(1), z3.IntVal(2))), {0: (), 1: (), 2: ()})
        raise Unsupported("binop " + op)

    def int_range(self, ty):
        t = self.types[ty]
        b = t["b"]
        if t["s"]:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def ptr_eq(self, st, a, b):
        """Address equality of two pointers."""
        if isinstance(a, Rc) and isinstance(b, Rc):
            return eqv(a.t, b.t)
        if a.base[0] != b.base[0]:
            if "L" in (a.base[0], b.base[0]):
                return False
            return False
        if a.base[0] == "L":
            if a.base[1] == b.base[1]:
                return a.path == b.path
            al = st.x.get("alias", {})
            k = (a.base[1], a.path, b.base[1], b.path)
            if k in al:
                return al[k]
            if a.base[1][0] == "arg" and b.base[1][0] == "arg" and a.path == b.path == () and \
                    st.x["argty"].get(a.base[1]) == st.x["argty"].get(b.base[1]):
                # Two references handed in by the caller may be the same one.
                c = self.gensym(st, "alias", z3.BoolSort())
                self.assume(st, z3.Implies(c, zb(self.val_eq(st, self.load(st, a), self.load(st, b)))))
                al = dict(al)
                al[k] = c
                st.x["alias"] = al
                return c
            return False
        if a.path != b.path:
            return False
        return eqv(a.base[1], b.base[1])

    def val_eq(self, st, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptr_eq(st, a, b)
        if isinstance(a, Rc) and isinstance(b, Rc):
            return eqv(a.t, b.t)
        if isinstance(a, FnV) and isinstance(b, FnV):
            return a.m == b.m
        if isinstance(a, (Opq, FnV)) and isinstance(b, (Opq, FnV)):
            return True
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var:
                return False
            if len(a.f) != len(b.f):
                raise Unsupported("comparison of values of different shapes")
            return zand(*[self.val_eq(st, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
            def alts(v):
                return ({v.var: v.f}, v.var) if isinstance(v, Agg) else (v.alts, v.d)
            aa, ad = alts(a)
            ba, bd = alts(b)
            r = [eqv(ad, bd)]
            for i in aa:
                if i in ba:
                    e = zand(*[self.val_eq(st, x, y) for x, y in zip(aa[i], ba[i])])
                    if e is not True:
                        r.append(zimp(eqv(ad, i), e))
            return zand(*r)
        if isinstance(a, Guard) and isinstance(b, Guard):
            return self.ptr_eq(st, a.ptr, b.ptr)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq_eq(st, a, b)
        if a is None or b is None:
            raise Unsupported("comparison of uninitialized values")
        if isinstance(a, (Agg, Sym, Ptr, Rc, Guard, Opq)) or isinstance(b, (Agg, Sym, Ptr, Rc, Guard, Opq)):
            if isinstance(a, Opq) or isinstance(b, Opq):
                return True
            raise Unsupported("comparison of %r and %r" % (a, b))
        return eqv(a, b)

    def seq_eq(self, st, a, b):
        if [p[0] for p in a.parts] != [p[0] for p in b.parts]:
            return False
        r = []
        for p, q in zip(a.parts, b.parts):
            if p[0] == "val":
                r.append(self.val_eq(st, p[1], q[1]))
            elif p[0] == "set":
                if p is not q:
                    x = z3.Const("queued", N)
                    self.touch(st, "N", x)
                    r.append(p[1](x) == q[1](x))
            else:
                if p is q:
                    continue
                if p[1] != q[1] or not callable(q[3]):
                    raise Unsupported("queue filled from another iterator than the contract's")
                r.append(self.val_eq(st, p[2], q[2]))
                # what becomes of each item
                for var, c, v in p[3]:
                    keep, w = q[3](var, z3.Const("item", N), z3.Const("item_depth", z3.IntSort()))
                    r.append(zimp(c, znot(keep) if v is None else zand(keep, self.val_eq(st, v, w))))
        return zand(*r)

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr", "reborrow"):
            return self.place(st, fr, r[2])
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r[2]]
            ak = r[1]
            if ak[0] == "adt":
                t = self.types[ak[1]]
                if t["kind"] == "enum":
                    return Agg(ak[2], fs)
                if t["kind"] == "union":
                    raise Unsupported("union")
                return Agg(None, fs)
            if ak[0] in ("tuple", "closure"):
                return Agg(None, fs)
            if ak[0] == "array":
                return Opq("array")
            raise Unsupported("aggregate %r" % (ak,))
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, dty)
        if k == "cbin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            v = self.binop(st, r[1], a, b, dty)
            ity = self.types[dty]["f"][0]
            lo, hi = self.int_range(ity)
            if not isz(v):
                return Agg(None, (v, not (lo <= v <= hi)))
            # Counters bounded by the number of live objects never reach 2^63.
            ov = z3.Or(v < lo, v > hi)
            return Agg(None, (v, ov))
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.types[dty]["k"] == "int":
                    lo, hi = self.int_range(dty)
                    return hi + lo - a
                return znot(a)
            if r[1] == "Neg":
                return -a
            raise Unsupported("unop " + r[1])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3])
        if k == "discr":
            return self.discr_val(st, fr, r[1])
        raise Unsupported("rvalue %r" % (r,))

    def cast(self, st, kind, v, ty):
        if kind in ("PtrToPtr",) or kind.startswith("PointerCoercion") or kind == "Transmute":
            return v
        t = self.types[ty]
        if kind == "IntToInt" and t["k"] == "int":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, (int, z3.ArithRef)):
                lo, hi = self.int_range(ty)
                n = hi - lo + 1
                if isinstance(v, int):
                    return (v - lo) % n + lo
                return z3.If(z3.And(v >= lo, v <= hi), v, (v - lo) % n + lo)
        raise Unsupported("cast " + kind)

    # ------------------------------------------------------------------ loops
    def loop_heads(self, fn):
        li = self.loopinfo.get(fn["m"])
        if li is None:
            li = self.loopinfo[fn["m"]] = find_loops(fn)
        return li

    # -------------------------------------------------------------- execution
    def push(self, st, fn, args, dest, ret, hook=None):
        if fn["blocks"] is None:
            raise Unsupported("no body: " + fn["name"])
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        n = st.nid.get("frame", 0)
        st.nid["frame"] = n + 1
        fr = Frame(fn, n, dest, ret, hook)
        argc = fn["argc"]
        if fn["spread"] is not None:
            # last argument is a tuple in the body, spread at the call
            sp = fn["spread"]
            if len(args) != argc:
                args = list(args[:sp - 1]) + [Agg(None, args[sp - 1:])]
        if len(args) != argc:
            raise Unsupported("arity of %s: %d given, %d expected" % (fn["name"], len(args), argc))
        for i, a in enumerate(args):
            st.mem[(n, i + 1)] = a
        ty0 = fn["locals"][0]
        c = self.cls(ty0)
        if c == ("struct", []):
            st.mem[(n, 0)] = UNIT
        st.frames.append(fr)
        self.inlined.add(fn["name"])

    def where(self, st):
        for f in reversed(st.frames):
            l = f.fn["blocks"][f.b]["l"]
            if l.startswith("src/") and f.fn["crate"] == "dendron":
                return l
        return "?"

    def run(self, st, depth=0, loop=None):
        """Runs until the frame stack returns to `depth` frames. Returns outcomes.
        `loop` = (depth, head, blocks, frame): stop when leaving the loop."""
        outs = []
        if loop is not None:
            # the head block itself must not be cut again
            st.frames[-1].i = -1
        work = [st]
        while work:
            s = work.pop()
            if len(outs) + len(work) > self.max_paths:
                raise Unsupported("too many paths")
            try:
                while True:
                    if loop is not None:
                        f = s.frames[-1]
                        if len(s.frames) == loop[0] and f.i == 0 and f.b not in loop[2]:
                            outs.append(Out("exit", s))
                            break
                    r = self.step(s, depth)
                    if r is None:
                        continue
                    if isinstance(r, Out):
                        outs.append(r)
                        break
                    # list of successor states or outcomes
                    nxt = None
                    for x in r:
                        if isinstance(x, Out):
                            if x.kind == "cont":
                                if nxt is None:
                                    nxt = x.st
                                else:
                                    work.append(x.st)
                            else:
                                outs.append(x)
                        elif nxt is None:
                            nxt = x
                        else:
                            work.append(x)
                    if nxt is None:
                        break
                    s = nxt
            except Infeasible:
                continue
        return outs

    def step(self, st, depth):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")
        fr = st.frames[-1]
        blk = fr.fn["blocks"][fr.b]
        if fr.i == 0:
            heads = self.loop_heads(fr.fn)
            if fr.b in heads:
                r = self.at_loop(st, fr)
                if r is not None:
                    return r
        if fr.i < 0:
            fr.i = 0
        ss = blk["s"]
        while fr.i < len(ss):
            s = ss[fr.i]
            fr.i += 1
            k = s[0]
            if k == "=":
                ty = self.place_ty(st, fr, s[1])
                v = self.rvalue(st, fr, s[2], ty)
                self.store(st, self.place(st, fr, s[1]), v)
            elif k == "dead":
                st.mem.pop((fr.id, s[1]), None)
            elif k == "setd":
                raise Unsupported("set discriminant")
            elif k == "assume":
                v = self.operand(st, fr, s[1])
                self.assume(st, v)
            else:
                raise Unsupported("statement %r" % (s,))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            fr.b, fr.i = t[1], 0
            return None
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t[2], t[3])
        if k == "ret":
            return self.do_return(st, depth)
        if k == "call":
            return self.call(st, fr, t)
        if k == "drop":
            fr.b, fr.i = t[2], 0
            if t[3] is None:
                return None
            p = self.place_at(st, fr, t[1])
            return self.drop_place(st, p, t[4], t[3])
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = znot(c)
            res = []
            if c is True:
                fr.b, fr.i = t[4], 0
                return None
            if c is False or self.feasible(st, znot(c)):
                if "overflow" in t[3] or "overflow" in t[3].lower():
                    pass
                b = st.copy()
                self.assume(b, znot(c))
                res.append(self.panic(b, "assert: " + t[3]))
            if c is not False and self.feasible(st, c):
                self.assume(st, c)
                fr.b, fr.i = t[4], 0
                res.append(st)
            return res
        if k == "unreachable":
            if not self.feasible(st):
                raise Infeasible()
            return Out("unreachable", st, msg="unreachable reached", span=self.where(st))
        raise Unsupported("terminator " + k)

    def place_at(self, st, fr, p):
        return self.place(st, fr, p)

    def switch(self, st, fr, v, branches, other):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for n, b in branches:
                if n == v:
                    fr.b, fr.i = b, 0
                    return None
            fr.b, fr.i = other, 0
            return None
        isb = z3.is_bool(v)
        conds = []
        rest = []
        for n, b in branches:
            c = (v if n else z3.Not(v)) if isb else v == n
            conds.append((c, b))
            rest.append(z3.Not(c))
        conds.append((z3.And(*rest) if len(rest) > 1 else rest[0], other))
        ok = []
        for c, b in conds:
            blk = fr.fn["blocks"][b]
            if blk["t"][0] == "unreachable" and not blk["s"] and b == other and len(conds) > 2:
                # exhaustive match: prove instead of exploring
                if not self.feasible(st, c):
                    continue
            elif not self.feasible(st, c):
                continue
            ok.append((c, b))
        if not ok:
            raise Infeasible()
        res = []
        for i, (c, b) in enumerate(ok):
            s = st if i == len(ok) - 1 else st.copy()
            if len(ok) > 1:
                self.assume(s, c)
            f = s.frames[-1]
            f.b, f.i = b, 0
            res.append(s)
        return res

    def do_return(self, st, depth):
        fr = st.frames.pop()
        v = st.mem.get((fr.id, 0))
        for i in range(len(fr.fn["locals"])):
            st.mem.pop((fr.id, i), None)
        if fr.hook is not None:
            v = fr.hook(st, v)
        if len(st.frames) == depth:
            return Out("ret", st, v)
        if fr.dest is not None:
            self.store(st, fr.dest, v)
        f = st.frames[-1]
        if fr.ret is not None:
            f.b, f.i = fr.ret, 0
        return None

    def panic(self, st, msg):
        return Out("panic", st, msg=msg, span=self.where(st))

    def finish(self, st, dest, ret, v):
        """Completes a modelled call."""
        if ret is None:
            raise Unsupported("return from diverging call")
        if dest is not None:
            self.store(st, dest, v)
        f = st.frames[-1]
        f.b, f.i = ret, 0

    def call(self, st, fr, t):
        _, m, ops, dst, ret, fop = t
        args = [self.operand(st, fr, o) for o in ops]
        dest = self.place(st, fr, dst) if ret is not None else None
        if m is None:
            f = self.operand(st, fr, fop)
            if isinstance(f, FnV):
                m = f.m
            else:
                raise Unsupported("indirect call")
        return self.call_fn(st, self.mir.fns[m], args, dest, ret)

    def call_fn(self, st, fn, args, dest, ret, hook=None):
        """Calls `fn`; on return `hook(st, v)` maps the value, which goes to `dest`, block `ret`."""
        d = fn["def"]
        p = self.prims.get(d)
        if p is None:
            for pre, q in self.prims.prefixes:
                if d.startswith(pre):
                    p = q
                    break
        if p is not None:
            res = p(self, st, fn, args)
            return self.settle(st, res, dest, ret, hook)
        if self.target is not None and self.target.fold is not None and self.target.fold.call == fn["name"]:
            self.used_specs.add(fn["name"])
            return self.settle(st, step.cut(self, st, fn, args), dest, ret, hook)
        sp = self.specs.get(fn["name"]) or self.specs.get(d)
        if sp is not None and sp is not self.target and sp.usable:
            self.used_specs.add(sp.name)
            outs = self.run_spec(st, sp, args, fn)
            return self.settle(st, outs, dest, ret, hook)
        if sp is not None and sp.relational and self.target is not None and self.target.fold is not None:
            self.used_specs.add(sp.name)
            return self.settle(st, step.call(self, st, sp, fn, args), dest, ret, hook)
        if fn["blocks"] is None:
            v = self.construct(fn, args)
            if v is not None:
                return self.settle(st, v, dest, ret, hook)
        # closure call through the Fn* traits: the arguments come as a tuple
        if "{closure#" in d and fn["blocks"] is not None and len(args) == 2 and fn["argc"] != 2 or \
                ("{closure#" in d and fn["blocks"] is not None and len(args) == 2 and isinstance(args[1], Agg)
                 and self.is_tuple_call(fn, args)):
            args = [args[0]] + list(args[1].f)
        self.push(st, fn, args, dest, ret, hook)
        return None

    def construct(self, fn, args):
        """The value a constructor that is used as a function makes, or None."""
        vs = [(t, i) for t in self.types if t["k"] == "adt" and t["kind"] == "enum" for i, v in enumerate(t["v"])
              if t["def"] + "::" + v["n"] == fn["def"] and len(v["f"]) == len(args)]
        if len(vs) > 1:
            vs = [(t, i) for t, i in vs if t.get("args") == fn["args"]]
        return Agg(vs[0][1], list(args)) if len(vs) == 1 else None

    def is_tuple_call(self, fn, args):
        # argc == 2: one closure argument; called with (f, (x,)).
        a = args[1]
        if a.var is not None or len(a.f) != 1:
            return False
        return self.types[fn["locals"][2]]["k"] != "tuple" or len(self.types[fn["locals"][2]]["f"]) != 1

    def settle(self, st, res, dest, ret, hook):
        """`res`: list of (st, value) | Out | a bare value."""
        if not isinstance(res, list):
            if isinstance(res, tuple) and res and res[0] == "pushed":
                # the primitive pushed a frame itself: patch its destination
                f = st.frames[-1]
                f.dest, f.ret = dest, ret
                if hook is not None:
                    inner = f.hook
                    f.hook = (lambda s, v: hook(s, inner(s, v))) if inner else hook
                return None
            if isinstance(res, Out):
                return res
            v = hook(st, res) if hook else res
            self.finish(st, dest, ret, v)
            return None
        r = []
        for x in res:
            if isinstance(x, Out):
                if x.kind == "ret":
                    s, v = x.st, x.val
                    if hook:
                        v = hook(s, v)
                    self.finish(s, dest, ret, v)
                    r.append(s)
                else:
                    if not x.span:
                        x.span = self.where(x.st)
                    r.append(x)
            else:
                s, v = x
                if hook:
                    v = hook(s, v)
                self.finish(s, dest, ret, v)
                r.append(s)
        if not r:
            raise Infeasible()
        return r

    # ------------------------------------------------------------------ drops
    def drop_kind(self, ty, seen=()):
        """'none', 'links' (only node links/weak references inside), or 'glue'."""
        k = self.reccache.get(ty)
        if k is not None:
            return k
        if ty in seen:
            return "none"
        c = self.cls(ty)
        t = self.types[ty]
        if c[0] in ("I", "B", "ptr", "fn", "opq"):
            r = "none"
        elif c[0] == "data":
            r = "links"
        elif c[0] == "rc":
            r = "links" if c[1] == "N" or c[2] else "glue"
        elif c[0] == "optrc":
            r = "links" if c[1] == "N" else "glue"
        elif c[0] in ("guard",):
            r = "glue"
        elif c[0] in ("cell", "seq"):
            r = "glue"
        else:
            fs = c[1] if c[0] == "struct" else [f for v in c[1] for f in v]
            ks = [self.drop_kind(f, seen + (ty,)) for f in fs]
            if t["k"] == "adt" and self.has_drop_impl(t):
                r = "glue"
            elif "glue" in ks:
                r = "glue"
            elif "links" in ks:
                r = "links"
            else:
                r = "none"
        self.reccache[ty] = r
        return r

    def has_drop_impl(self, t):
        if not hasattr(self, "_drops"):
            self._drops = set()
            for f in self.mir.fns.values():
                if f["def"].endswith("as std::ops::Drop>::drop"):
                    n = f["def"][1:].split(" as std::ops::Drop")[0]
                    self._drops.add(n.split("<")[0])
        return t["def"] in self._drops

    def drop_place(self, st, ptr, ty, glue):
        k = self.drop_kind(ty)
        if k == "none":
            return None
        if k == "links":
            v = self.load(st, ptr)
            self.clear(st, ptr)
            return self.drop_links(st, v, True)
        c = self.cls(ty)
        if c[0] == "rc":
            v = self.load(st, ptr)
            self.clear(st, ptr)
            return self.drop_tree_rc(st, v)
        if c[0] == "optrc":
            v = self.load(st, ptr)
            if isinstance(v, Agg):
                self.clear(st, ptr)
                return None if v.var == 0 else self.drop_tree_rc(st, v.f[0])
        if c[0] == "guard":
            g = self.load(st, ptr)
            self.clear(st, ptr)
            st.borrows.pop(g.id, None)
            return None
        if c[0] == "seq":
            v = self.load(st, ptr)
            if any(p[0] != "val" or len(p[1].f) for p in v.parts):
                raise Unsupported("drop of a queue with nodes")
            return None
        sp = self.specs.get("drop " + self.types[ty]["name"])
        if sp is not None and sp is not self.target and sp.usable:
            v = self.load(st, ptr)
            self.clear(st, ptr)
            self.used_specs.add(sp.name)
            outs = self.run_spec(st, sp, [v], None)
            return self.plain_states(outs)
        # the glue pushes its own frame; its return continues at the drop's target
        fn = self.mir.fns[glue]
        f = st.frames[-1]
        self.push(st, fn, [ptr], None, f.b)
        return None

    def plain_states(self, outs):
        r = []
        for x in outs:
            if x.kind == "ret":
                r.append(x.st)
            else:
                x.span = self.where(x.st)
                r.append(x)
        if not r:
            raise Infeasible()
        return r

    def drop_links(self, st, v, cond):
        """Drops every node link inside `v` (no Drop impls inside)."""
        todo = []
        collect_rcs(v, cond, "N", todo)
        for i, (t, c) in enumerate(todo):
            self.drop_link(st, t, c, todo[i + 1:])
        return None

    def live(self, st, k):
        """The strong references of kind `k` held by live values: [(term, condition)]."""
        out = []
        for v in st.mem.values():
            collect_rcs(v, True, k, out)
        return out

    def heap_owners(self, st, t, fresh=False):
        fs = []
        w = st.worlds[-1]
        p = w.f("parent")(t)
        y = w.f("prevc")(t)
        m = w.f("mtree")(t)
        # The world before the call does not refer to nodes made since.
        # (A tree that owns no nodes any more keeps nothing alive.)
        cand = {"first": [], "next": [], "root": []} if fresh else {"first": [p], "next": [y], "root": [m]}
        for nm in cand:
            wr = st.heap.get(nm)
            seen = {x.get_id() for x in cand[nm]}
            while wr is not None:
                if wr.pred is None and wr.a.get_id() not in seen:
                    seen.add(wr.a.get_id())
                    cand[nm].append(wr.a)
                wr = wr.up
        for nm, addrs in cand.items():
            al = "talive" if nm == "root" else "alive"
            for a in addrs:
                own = self.select_term(st, "own", a) if nm == "root" else True
                fs.append(zand(eqv(self.select_term(st, nm, a), t), self.select_term(st, al, a), own))
        return fs

    def drop_link(self, st, t, cond, rest=()):
        """A strong reference to node `t` goes away (if `cond`)."""
        live = self.live(st, "N") + list(rest)
        for x, c in live:
            if c is True and x.eq(t):
                return
        fresh = any(k == "N" and o.eq(t) for k, o in st.fresh)
        if not fresh and not any(n in st.heap for n in ("first", "next", "root", "own", "alive")) and self.is_old(st, t):
            return
        alive = zand(t != NULL["N"], self.select_term(st, "alive", t))
        goal = zor(znot(alive), *(self.heap_owners(st, t, fresh) + [zand(c, x == t) for x, c in live]))
        goal = zimp(cond, goal)
        if self.proves(st, goal):
            return
        if fresh and cond is True and not self.feasible(st, goal):
            return self.destroy_fresh(st, t)
        if not fresh:
            # The owner recorded before the call, and its position relative to the nodes changed since.
            s = st.copy()
            w = s.worlds[-1]
            near = [t, w.f("parent")(t), w.f("prevc")(t)]
            far = []
            for nm in ("first", "next", "parent"):
                x = s.heap.get(nm)
                while x is not None:
                    if x.pred is None and not any(x.a.eq(y) for y in far):
                        far.append(x.a)
                    x = x.up
            for x in near + far:
                self.touch(s, "N", x)
            for a in near:
                for b in far:
                    for c in w.wf_pair(a, b):
                        self.assume(s, c)
            if self.proves(s, goal):
                return
            if st.x.get("teardown") is not None and cond is True and not self.feasible(s, goal):
                return self.destroy_old(st, t)
            if os.environ.get("LOOPDBG"):
                m = self.model(s, znot(goal)) if hasattr(self, "model") else None
                print("OWN", t, m)
        self.oblige(st, "ownership", "a node must not lose its last owner here: %s" % t, goal)

    def destroy_fresh(self, st, t):
        """The last reference to a node made by this very call is dropped."""
        self.write(st, "alive", t, False)
        if self.proves(st, zb(self.select_term(st, "mstrong", t))):
            raise Unsupported("fresh node dropped with a strong membership")
        for f in ("first", "next"):
            x = self.select_term(st, f, t)
            if not x.eq(NULL["N"]) and self.feasible(st, x != NULL["N"]):
                self.drop_link(st, x, x != NULL["N"])

    def destroy_old(self, st, t):
        """The last reference to a node of a tree that is torn down is dropped."""
        self.oblige(st, "recursion", "a node freed by the teardown owns no other node",
                    zand(*[eqv(self.select_term(st, f, t), NULL["N"]) for f in ("first", "next")]))
        self.oblige(st, "ownership", "a node freed by the teardown holds no tree", znot(self.select_term(st, "mstrong", t)))
        self.write(st, "alive", t, False)

    def is_old(self, st, t):
        """Every initially-alive node is owned by its tree, unless a link was overwritten."""
        return self.proves(st, z3.Or(st.worlds[-1].f("alive")(t), t == NULL["N"]))

    def drop_tree_rc(self, st, v):
        """A strong reference to a tree core goes away."""
        if not isinstance(v, Rc):
            v = Rc("T", self.unwrap(v))
        if v.weak or v.k != "T":
            return None
        t = v.t
        post = self.rd(st, "tstrong", t) - 1
        if isz(post):
            post = z3.simplify(post)
        self.write(st, "tstrong", t, post)
        for x, c in self.live(st, "T"):
            self.assume(st, zimp(zand(c, eqv(x, t)), post >= 1))
        for k, x in list(st.touched.values()):
            if k == "N":
                m = zand(self.select_term(st, "alive", x), self.select_term(st, "mstrong", x),
                         eqv(self.select_term(st, "mtree", x), t))
                if m is not False:
                    self.assume(st, zimp(m, post >= 1))
        if self.proves(st, post >= 1):
            return None
        res = []
        if self.feasible(st, post >= 1):
            s = st.copy()
            self.assume(s, post >= 1)
            res.append(s)
        self.assume(st, post == 0)
        return res + self.dismantle(st, t)

    def detached(self, st):
        """The subtrees that have been unlinked from their parents: (root, predicate)."""
        w = st.worlds[-1]
        out = []
        x = st.heap.get("parent")
        seen = set()
        while x is not None:
            if x.pred is None and x.a.get_id() not in seen:
                seen.add(x.a.get_id())
                a = x.a
                if x.v.eq(NULL["N"]) and self.proves(st, z3.And(w.f("alive")(a), w.f("parent")(a) != NULL["N"])):
                    if self.proves(st, eqv(self.select_term(st, "first", a), NULL["N"])):
                        out.append((a, lambda n, a=a: n == a))
                    elif self.proves(st, eqv(self.select_term(st, "first", a), w.f("first")(a))):
                        out.append((a, lambda n, a=a: z3.And(w.f("alive")(n), w.contains(a, n))))
                    else:
                        raise Unsupported("release of a tree being edited")
            x = x.up
        return out

    def dismantle(self, st, t):
        """Contract of `<TreeCore as Drop>::drop` and the fields' drop: the tree and its nodes go away,
        unless the nodes have been moved to another tree."""
        self.used_specs.add("drop TreeCore")
        r = self.rd(st, "root", t)
        self.write(st, "talive", t, False)
        occ = zb(self.rd(st, "own", t))
        st.x["deaths"] = True
        res = []
        if self.feasible(st, znot(occ)):
            s = st.copy()
            self.assume(s, znot(occ))
            res.append(s)
        if self.feasible(st, occ):
            self.assume(st, occ)
            snap = st.copy()
            cut = [lambda n, c=c, a=a: zand(a != r, c(n)) for a, c in self.detached(st)]
            self.bulk(st, "alive", lambda n: zand(eqv(self.select_term(snap, "mtree", n), t),
                                                  self.select_term(snap, "alive", n), *[znot(c(n)) for c in cut]), False)
            res.append(st)
        return res

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, text, f):
        """Records the obligation pc => f and decides it."""
        ok = self.proves(st, f) if f is not False else not self.feasible(st)
        self.obls.append((kind, text, self.where(st) if st.frames else "", ok, None))
        if not ok and z3.is_expr(f):
            self.assume(st, f)
        return ok

    # ------------------------------------------------------------------ specs
    def run_spec(self, st, sp, args, fn):
        outs = []
        work = [[]]
        while work:
            dec = work.pop()
            c = SpecCtx(self, st.copy(), dec, work, fn)
            try:
                v = sp.fn(c, *args)
                if c.st.infeasible:
                    continue
                if v is step.AGAIN:
                    outs.append(Out("back", c.st))
                elif isinstance(v, step.AtHead):
                    outs.append(Out("enter", c.st, v.vals))
                else:
                    outs.append(Out("ret", c.st, UNIT if v is None else v))
            except SpecPanic as e:
                outs.append(Out("panic", c.st, msg=str(e)))
            except Infeasible:
                pass
        return outs

    # ------------------------------------------------------------------ loops
    def at_loop(self, st, fr):
        h = self.loops.get((fr.fn["name"],)) or self.find_loop_handler(st, fr)
        if h is None:
            raise Unsupported("loop without invariant in %s" % fr.fn["name"])
        return h(self, st, fr)

    def find_loop_handler(self, st, fr):
        return None


class SpecCtx:
    """What a contract is written against: reads, writes and case splits."""

    def __init__(self, e, st, dec, work, fn):
        self.e, self.st, self.dec, self.work, self.fn = e, st, dec, work, fn
        self.pos = 0
        self.rty = None if fn is None else fn["locals"][0]

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.dec):
            b = self.dec[self.pos]
            self.pos += 1
        else:
            t = self.e.feasible(self.st, c)
            f = self.e.feasible(self.st, z3.Not(c))
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.work.append(self.dec + [False])
            # decisions that are forced are replayed like the others
            b = t
            self.dec = self.dec + [b]
            self.pos += 1
            if not (t and f):
                return b
        self.e.assume(self.st, c if b else z3.Not(c))
        return b

    def rd(self, name, t):
        return self.e.rd(self.st, name, t)

    def wr(self, name, t, v):
        self.e.write(self.st, name, t, v)

    def load(self, ptr):
        return self.e.load(self.st, ptr)

    def panic(self, msg):
        raise SpecPanic(msg)


def collect_rcs(v, cond, k, out):
    if isinstance(v, Rc):
        if v.k == k and not v.weak:
            out.append((v.t, cond))
    elif isinstance(v, Agg):
        for x in v.f:
            collect_rcs(x, cond, k, out)
    elif isinstance(v, Sym):
        for i, fs in v.alts.items():
            for x in fs:
                collect_rcs(x, zand(cond, v.d == i), k, out)


def find_loops(fn):
    """Loop heads -> set of blocks in the loop (natural loops; DFS back edges)."""
    bl = fn["blocks"]

    def succ(b):
        t = bl[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []
    color = {}
    back = []
    stack = [(0, iter(succ(0)))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                back.append((b, s))
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ(s))))
                break
        else:
            color[b] = 2
            stack.pop()
    preds = {}
    for b in color:
        for s in succ(b):
            preds.setdefault(s, []).append(b)
    heads = {}
    for b, h in back:
        body = heads.setdefault(h, {h})
        todo = [b]
        while todo:
            x = todo.pop()
            if x in body:
                continue
            body.add(x)
            todo += preds.get(x, [])
    return heads
