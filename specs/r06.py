"""R06: a reaction set stores and returns exactly the reactions put into it."""
from specs.rxnset import *  # noqa: F403


RXNO = Kind("OpaqueReaction", None)
CF = Kind("CostFunction", None)
COST = z3.Function("cost", RXNO.sort, R)
CF.methods["evaluate"] = lambda E, o, a, k: SNum(COST(a[0].t))


def record(E):
    """contract of the reaction constructors (R01, R02): the reaction has the given entries, coefficients, data, chemical potentials"""
    def init(E2, a, k):
        k = {**dict(zip(["entries", "coefficients", "chempots" if a[0].cls is OpenComputedReaction else "data"], a[1:])), **k}
        for n, v in k.items():
            a[0].attrs[n] = v
    for c in (ComputedReaction, OpenComputedReaction):
        E.contracts[(c, "__init__")] = init
        E.contracts[c.__init__] = init


def reg_get(open_):
    @contract(f"get_rxns yields exactly the stored rows ({'open' if open_ else 'closed'})", [RS + m for m in ("__init__", "get_rxns", "_get_rxns_by_indices", "__iter__", "__len__")])
    def _(E):
        o = sym_set(E, open_=open_)
        record(E)
        mu = (o.el, o.mu) if open_ else None
        fr = Frame(E, o.obj, SET_ATTRS)
        s, t, u = z3.Int(fresh_name("s")), z3.Int(fresh_name("s")), z3.Int(fresh_name("r"))
        r = row(E, o, s)
        for how in ("get_rxns", "__iter__"):
            out = VList(list(E.iterate(E.call_method(o.obj, how, [], {})).segs), "list")
            E.cover("reachable")
            E.prove(f"{how}: every stored row is yielded", some(E, out, lambda x: is_row(E, o, x, s, r, mu)))
            E.prove(f"{how}: every reaction yielded is a stored row", every(E, out, lambda x: z3.Exists([t, u], z3.And(o.HAS(t), 0 <= u, u < o.ROWS(t), is_row(E, o, x, t, u, mu)))))
            E.prove(f"{how}: as many reactions as rows", E.num(E.length(out)) == E.sigma([(t, None), (u, o.ROWS(t))], o.HAS(t), z3.RealVal(1)))
        E.prove("length is the number of rows", E.num(E.call_method(o.obj, "__len__", [], {})) == E.sigma([(t, None)], o.HAS(t), o.ROWS(t)))
        fr.prove("frame")


reg_get(False)
reg_get(True)


@contract("set_chempot keeps the reactions and sets the potential", [RS + "set_chempot", RS + "__init__"])
def _(E):
    for open_ in (False, True):
        o = sym_set(E, "o" if open_ else "c", open_=open_)
        fr = Frame(E, o.obj, SET_ATTRS)
        el, mu = E.obj(ELEM, "new_el"), E.real("new_mu")
        for what, chempot, want in (("given", mu, mu.t), ("none means zero", None, z3.RealVal(0))):
            out = E.call_method(o.obj, "set_chempot", [el, chempot], {})
            E.cover("reachable")
            E.prove("a new object of the class", z3.BoolVal(isinstance(out, VObj) and out.cls is ReactionSet and out is not o.obj))
            E.prove(f"potential ({what})", z3.And(is_mu(E, E.getattr(out, "mu_dict"), el, SNum(want)), E.num(E.getattr(out, "chempot")) == want, E.zb(E.eq(E.getattr(out, "open_elem"), el))))
            E.prove("entries kept", E.zb(E.eq(E.getattr(out, "entries"), o.entries)))
            same_rows(E, f"potential {what}", out, o)
        out = E.call_method(o.obj, "set_chempot", [None, mu], {})
        E.prove("no open element: no potential applies", z3.BoolVal(E.getattr(out, "mu_dict") is None))
        fr.prove("frame")


@contract("calculate_costs lists the cost of every reaction in order", [RS + "calculate_costs"])
def _(E):
    o = sym_set(E)
    n = E.int("n").t
    E.assume(n >= 0)
    X = RXNO.fn(fresh_name("rxn"), I)
    E.contracts[ReactionSet.get_rxns] = lambda E2, a, k: E.seq("rxns", n, lambda q: SObj(RXNO, X(q)), "iter")
    out = E.call_method(o.obj, "calculate_costs", [SObj(CF, E.fresh("cf", CF.sort))], {})
    E.cover("reachable")
    E.prove("one cost per reaction", E.num(E.length(out)) == n)
    q = idx(E, n)
    E.prove("each cost is the function's value on the reaction", E.num(E.index(out, SNum(q))) == COST(X(q)))


@contract("add_rxn_set concatenates the rows of both sets", [RS + "add_rxn_set", RS + "__init__"])
def _(E):
    for open_ in (False, True):
        a = sym_set(E, "a" if open_ else "b", open_=open_)
        b = sym_set(E, "x" if open_ else "y", open_=not open_, entries=(a.m, a.X, a.entries))
        fa, fb = Frame(E, a.obj, SET_ATTRS), Frame(E, b.obj, SET_ATTRS)
        out = E.call_method(a.obj, "add_rxn_set", [b.obj], {})
        E.cover("reachable")
        E.prove("a new object of the class", z3.BoolVal(isinstance(out, VObj) and out.cls is ReactionSet and out is not a.obj and out is not b.obj))
        E.prove("entries kept", E.zb(E.eq(E.getattr(out, "entries"), a.entries)))
        if open_:
            E.prove("the first set's potential is kept", is_mu(E, E.getattr(out, "mu_dict"), a.el, a.mu))
        else:
            E.prove("no potential", z3.BoolVal(E.getattr(out, "mu_dict") is None))
        na = lambda s: z3.If(a.HAS(s), a.ROWS(s), 0)
        nb = lambda s: z3.If(b.HAS(s), b.ROWS(s), 0)
        first = lambda s, r: r < na(s)
        cell = lambda f, mk: (lambda s, r, c: mk(z3.If(first(s, r), f(a, s, r, c), f(b, s, r - na(s), c))))
        arbitrary_row(E, "union", out, lambda s: z3.Or(a.HAS(s), b.HAS(s)), lambda s: na(s) + nb(s), cell(lambda o, s, r, c: o.IX(s, r, c), SNum),
                      cell(lambda o, s, r, c: o.CO(s, r, c), lambda t: SNum(t, True)), cell(lambda o, s, r, c: o.D(s, r), lambda t: SObj(DATA, t)))
        fa.prove("frame")
        fb.prove("frame of the second set")


@contract("add_rxn_set refuses other entries", [RS + "add_rxn_set"])
def _(E):
    a, b = sym_set(E, "a"), sym_set(E, "b")
    E.assume(z3.Not(E.zb(E.eq(a.entries, b.entries))))
    how, out = outcome(E, lambda: E.call_method(a.obj, "add_rxn_set", [b.obj], {}), ValueError)
    E.cover("reachable")
    E.prove("a ValueError is raised", z3.BoolVal(how == "raise"))
