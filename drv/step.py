"""Folds: loops that edit the forest, one pass of which is under contract.

A contract with a `fold` speaks of three kinds of outcome, told apart by S.phase:
  "enter"  the loop (or the call the function is cut at) is reached: nothing but what the contract says has happened;
  "pass"   one pass, from an arbitrary forest in which the arguments and the values the loop works on are valid:
           the function ends as the contract says, or the next pass begins in the state the contract says;
  "early"  the function ends without getting there.
What the loop works on (`fold.slots`: type -> invariant) is replaced by an arbitrary value satisfying the invariant of
its type, and `fold.rel` relates these values: it is proved at the entry and after a pass.  That the forest is well formed,
and that the arguments stay valid, after any number of passes is what forest.py proves of the contracts of the passes."""
import z3
from val import *
from world import World


class Fold:
    def __init__(self, slots=(), rel=None, call=None, drawn=None, gives=None):
        self.slots = dict(slots)
        self.rel = rel          # f(S): relation between the values the loop works on
        self.call = call        # cut at the call of this function instead of at a loop
        self.drawn = drawn      # function whose result is an arbitrary value
        self.gives = gives      # function whose result is a value according to its contract


class AtHead:
    """What a contract expects when the loop is reached: type -> value."""

    def __init__(self, vals):
        self.vals = vals


AGAIN = object()


def handler(e, st, fr):
    """The step of the engine at the head of a loop, or None if it is an ordinary loop."""
    sp = e.target
    if sp is None or sp.fold is None or sp.fold.call is not None or e.unknown:
        return None
    at = st.x.get("fold")
    if at is None:
        return lambda e, st, fr: enter(e, st, fr)
    if at != (fr.id, fr.b):
        return None
    return lambda e, st, fr: again(e, st)


def slot_of(e, st, name):
    ks = []
    for k, v in st.mem.items():
        if v is None:
            continue
        try:
            if e.types[e.key_ty(st, k)]["name"] == name:
                ks.append(k)
        except Unsupported:
            pass
    if len(ks) != 1:
        raise Unsupported("%d values of type %s in the loop" % (len(ks), name))
    return ks[0]


def enter(e, st, fr):
    from engine import Out
    sp = e.target
    slots = {nm: slot_of(e, st, nm) for nm in sp.fold.slots}
    o = st.copy()
    o.x["slots"] = slots
    o.x["argty"] = dict(o.x["argty"], **{})
    for nm, k in slots.items():
        o.x["argty"][k] = o.x[("ty", k)] = e.key_ty(st, k)
    o.mem = dict(o.mem)
    res = [Out("enter", o, {nm: st.mem[k] for nm, k in slots.items()}, span=e.where(st))]
    for h in havoc(e, o, sp.fold.drawn):
        h.x["fold"] = (fr.id, fr.b)
        h.x["started"] = False
        res.append(h)
    return res


def again(e, st):
    from engine import Out
    if not st.x["started"]:
        st.x["started"] = True
        return None
    head = st.x["head"]
    slots = set(st.x["slots"].values())
    for k, v in head.mem.items():
        if k in slots or k in st.mem and unchanged(v, st.mem[k]):
            continue
        raise Unsupported("loop variable of type " + e.types[e.key_ty(head, k)]["name"])
    return Out("back", st, span=e.where(st))


def unchanged(a, b):
    return a is b or repr(a) == repr(b)


def held(e, st, slots=()):
    """The handles in memory: (kind, object, owned, place)."""
    import forest
    args = dict(st.x["args"].slots)
    res = []
    for k, v in st.mem.items():
        if v is None or k in slots or k[0] == "K":
            continue
        out = []
        try:
            forest.handles(e, v, e.key_ty(st, k), True, out)
        except Unsupported:
            continue        # nothing is assumed of it
        for kind, x, c in out:
            if c is not True:
                raise Unsupported("a handle that may be there or not")
            res.append((kind, x, args.get(k, True), k))
    return res


def cut(e, st, fn, args):
    """The call a fold is cut at: [Out | (state, result)]."""
    from engine import Out
    if "fold" in st.x or st.borrows:
        raise Unsupported("calls of " + fn["name"])
    o = st.copy()
    o.x["slots"] = {}
    o.x["temps"] = [(kind, x) for kind, x, own, k in held(e, o) if k[0] != "arg"]
    res = [Out("enter", o, args)]
    for h in havoc(e, o, fn["name"]):
        h.x["fold"] = True
        res.append((h, h.x["drawn"]))
    return res


def havoc(e, st, drawn):
    """Arbitrary forests in which what is in memory, and fresh values for the slots, are valid."""
    from verify import Args
    from speclib import S
    sp = e.target
    hs = held(e, st, set(st.x["slots"].values()))
    res, work = [], [[]]
    while work:
        dec = work.pop()
        w = World("'")
        h = st.copy()
        b = e.new_state(w)
        h.pc, h.worlds, h.heap, h.touched, h.known, h.fresh = b.pc, (w,), {}, {}, {}, ()
        a = Args(e, h, w, dec, work)
        h.x["argty"] = dict(st.x["argty"])
        a.n = 100
        for kind, x, own, k in hs:
            if kind == "Tree":
                e.touch(h, "T", x)
                e.assume(h, w.f("talive")(x))
                a.tree(x, own)
            elif kind.startswith("Hierarchy"):
                e.touch(h, "T", x)
                a.tokens.append((1 if "Grant" in kind else -1, x, own))
            else:
                a.handle(kind, x, own)
        for nm, k in st.x["slots"].items():
            h.mem[k] = a.build(h.x["argty"][k])
        if drawn is not None:
            fn = e.mir.by_name.get(drawn)
            if fn is None:
                raise Unsupported("no " + drawn)
            h.x["drawn"] = a.build(fn["locals"][0])
            h.x["drew"] = False
        a.finish()
        x = h.x["argty"]
        c = S(e, h, [], [], None)
        for nm, inv in sp.fold.slots.items():
            if inv is not None:
                inv(c, Ptr(("L", h.x["slots"][nm])))
        if sp.fold.rel is not None:
            sp.fold.rel(c)
        h = c.st
        h.x["argty"] = x
        h.x["decs"] = dec
        if h.infeasible or not e.feasible(h):
            continue
        h.x["head"] = h.copy()
        res.append(h)
    return res


def rel_goals(e, q, fold, o):
    """What has to hold for the next pass: (name, formula, state)."""
    from engine import Infeasible
    from forest import After
    from speclib import S
    res = []
    for nm, f in list(fold.slots.items()) + [("relation", None if fold.call else fold.rel)]:
        if f is None:
            continue
        todo = [[]]
        while todo:
            d = todo.pop()
            s = q.st.copy()
            after = After(e, q.st)
            old = [z for k, z in s.touched.values() if k == "N"]
            s.worlds = s.worlds + (after,)
            s.heap, s.touched, s.x = {}, {}, dict(s.x)
            s.x["slots"], s.x["argty"] = o.st.x["slots"], o.st.x["argty"]
            if o.kind == "enter":
                for ty, k in s.x["slots"].items():
                    s.mem[k] = S(e, s, [], [], None).lift(s.x["argty"][k], q.val[ty])
            c = S(e, s, d, todo, None)
            c.goals = []
            c.old = old
            try:
                f(c, Ptr(("L", s.x["slots"][nm]))) if nm in fold.slots else f(c)
            except Infeasible:
                continue
            if not e.feasible(c.st):
                continue
            for i, g in enumerate(c.goals):
                name, g = g if isinstance(g, tuple) else ("%s %d" % (nm, i), g)
                res.append((name, g, c.st))
    return res


def call(e, st, sp, fn, args):
    """A call of a function whose contract only constrains its result."""
    e.unknown = True
    try:
        outs = e.run_spec(st, sp, args, fn)
    finally:
        e.unknown = False
    for o in outs:
        if o.kind == "ret" and sp.name == e.target.fold.gives:
            o.st.x["drawn"] = o.val
    return [o for o in outs if e.feasible(o.st)]
