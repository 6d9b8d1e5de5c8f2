"""R09: entry sets behave as mutable sets with coherent caches (entries are compared by their own equality)."""
import functools

from specs.common import *  # noqa: F403
from rxn_network.entries.entry_set import GibbsEntrySet

T = "rxn_network.entries.entry_set:GibbsEntrySet."
PRED = lambda name: z3.Function(fresh_name(name), ENTRY.sort, z3.BoolSort())


def cached_names():
    """every derived view the class caches (read from the class on every run)"""
    return sorted({n for c in GibbsEntrySet.__mro__ for n, v in c.__dict__.items() if isinstance(v, functools.cached_property)})


def pyset(E, S):
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    return VList([Seg([(x, None)], S(x), SObj(ENTRY, x))], "set", E.tick(), True, True)


def entry_set(E, prefix, stale=False):
    """an entry set with arbitrary content; stale: every cached view has been computed from its present content"""
    S = PRED(prefix)
    o = VObj(GibbsEntrySet, {"entries": pyset(E, S), "calculate_e_above_hulls": E.bool(prefix + "hulls"), "minimize_obj_size": E.bool(prefix + "small")}, E.tick())
    if stale:
        for n in cached_names():
            o.attrs[n] = View(n, S)
    return o, S


class View(Opaque):
    """the value of a derived view computed from a certain content"""

    def __init__(self, name, content):
        super().__init__(f"view {name}")
        self.content = content


def views(E):
    """contract of the derived views: a function of the content at the time of the evaluation"""
    for n in cached_names():
        f = prop_func(GibbsEntrySet, n)
        E.contracts[(next(c for c in GibbsEntrySet.__mro__ if n in c.__dict__), n)] = lambda E2, a, k, n=n: View(n, freeze(a[0].attrs["entries"]))
        E.contracts[f] = lambda E2, a, k, n=n: View(n, freeze(a[0].attrs["entries"]))


def is_fresh(E, o, content, y):
    """every view now read from o is one computed from the content o has now"""
    for n in cached_names():
        v = E.resolve(E.getattr(o, n))
        if isinstance(v, View) and isinstance(v.content, VList):
            E.prove(f"{n} reflects the present content", E.zb(E.contains(v.content, y)) == content(y.t))
        elif isinstance(v, View):
            E.prove(f"{n} reflects the present content", v.content(y.t) == content(y.t))
        else:
            E.prove(f"{n} reflects the present content", z3.BoolVal(False))


def member(E, o, y):
    return E.zb(E.contains(o, y))


def iterates(E, o, y, want, tag):
    """iteration yields all and only the members"""
    E.prove(tag, E.zb(E.contains(VList(list(E.iterate(o).segs), "list"), y)) == want)


def mutator(name, args, post, exc=None):
    """args(E) -> (arguments, ghost); post(S, ghost, y) -> membership afterwards"""
    @contract(f"{name} keeps set algebra and drops every stale view", [T + m for m in ("__contains__", "__iter__", "add", "discard", "update", "_clear_cache")])
    def _(E):
        views(E)
        o, S = entry_set(E, "S", stale=True)
        a, ghost, others = args(E)
        y = E.obj(ENTRY, "y")
        frames = [(x, sx) for x, sx in others]
        how, out = outcome(E, lambda: E.call_method(o, name, a, {}), *([exc] if exc else []))
        if how == "raise":
            E.prove("refused only for an absent entry", z3.Not(S(a[0].t)))
            want = lambda t: S(t)
        else:
            E.cover("reachable")
            want = lambda t: post(S, ghost, t)
            if name in ("remove",):
                E.prove("accepted only for a member", S(a[0].t))
        tgt = out if name.startswith("__i") and how == "ok" else o
        if name.startswith("__i"):
            E.prove("the set itself is returned", z3.BoolVal(tgt is o))
        E.prove("membership", member(E, o, y) == want(y.t))
        iterates(E, o, y, want(y.t), "iteration")
        is_fresh(E, o, want, y)
        for x, sx in frames:
            E.prove("the operand is unchanged", member(E, x, y) == sx(y.t))


def one(E):
    x = E.obj(ENTRY, "x")
    return [x], x.t, []


def many(E):
    n = E.int("n").t
    E.assume(n >= 0)
    X = ENTRY.fn(fresh_name("X"), I)
    return [E.seq("given", n, lambda q: SObj(ENTRY, X(q)))], (n, X), []


def another(E):
    o, S = entry_set(E, "U")
    return [o], S, [(o, S)]


def within(g, t):
    i = z3.Int("i!")
    return z3.Exists([i], z3.And(0 <= i, i < g[0], g[1](i) == t))


mutator("add", one, lambda S, x, t: z3.Or(S(t), t == x))
mutator("discard", one, lambda S, x, t: z3.And(S(t), t != x))
mutator("remove", one, lambda S, x, t: z3.And(S(t), t != x), KeyError)
mutator("update", many, lambda S, g, t: z3.Or(S(t), within(g, t)))
# clear() and __ixor__ are library combinations of pop/discard/add; not proved here (bounded cases only)

mutator("__ior__", another, lambda S, U, t: z3.Or(S(t), U(t)))
mutator("__iand__", another, lambda S, U, t: z3.And(S(t), U(t)))
mutator("__isub__", another, lambda S, U, t: z3.And(S(t), z3.Not(U(t))))


def operation(name, post, arg=None):
    @contract(f"{name} is the set operation and leaves both operands alone", [T + "__init__", T + "__contains__", T + "__iter__"])
    def _(E):
        views(E)
        o, S = entry_set(E, "S", stale=True)
        U = None
        a = []
        if arg != 0:
            u, U = entry_set(E, "U", stale=True)
            a = [u]
        y = E.obj(ENTRY, "y")
        out = E.call_method(o, name, a, {})
        E.cover("reachable")
        E.prove("a new entry set", z3.BoolVal(isinstance(out, VObj) and out.cls is GibbsEntrySet and out is not o and all(out is not x for x in a)))
        want = lambda t: post(S, U, t)
        E.prove("membership", member(E, out, y) == want(y.t))
        iterates(E, out, y, want(y.t), "iteration")
        is_fresh(E, out, want, y)
        for x, sx in [(o, S)] + [(x, U) for x in a]:
            E.prove("operands unchanged", member(E, x, y) == sx(y.t))
            is_fresh_same(E, x, sx)
            # a later change of the result does not reach the operand
        z = E.obj(ENTRY, "z")
        E.call_method(out, "add", [z], {})
        for x, sx in [(o, S)] + [(x, U) for x in a]:
            E.prove("a later change of the result does not reach the operand", member(E, x, y) == sx(y.t))


def is_fresh_same(E, o, S):
    for n in cached_names():
        v = o.attrs.get(n)
        E.prove(f"{n} of the operand is still that of its content", z3.BoolVal(v is None or isinstance(v, View) and v.content is S))


operation("__or__", lambda S, U, t: z3.Or(S(t), U(t)))
operation("__and__", lambda S, U, t: z3.And(S(t), U(t)))
operation("__sub__", lambda S, U, t: z3.And(S(t), z3.Not(U(t))))
operation("__xor__", lambda S, U, t: S(t) != U(t))
operation("copy", lambda S, U, t: S(t), 0)


@contract("GibbsEntrySet of given entries", [T + "__init__"])
def _(E):
    a, g, _ = many(E)
    y = E.obj(ENTRY, "y")
    o = E.instantiate(GibbsEntrySet, a, {})
    E.cover("reachable")
    E.prove("exactly the given entries", member(E, o, y) == within(g, y.t))
    iterates(E, o, y, within(g, y.t), "iteration")


def relation(name, post):
    @contract(f"{name} compares contents", [T + "__contains__", T + "__iter__", T + "__len__"])
    def _(E):
        o, S = entry_set(E, "S")
        u, U = entry_set(E, "U")
        x = z3.Const("x!", ENTRY.sort)
        v = E.call_method(o, name, [u], {})
        E.cover("reachable")
        E.prove("value", E.zb(E.truth(v)) == z3.ForAll([x], post(S(x), U(x))))


relation("isdisjoint", lambda s, u: z3.Not(z3.And(s, u)))
