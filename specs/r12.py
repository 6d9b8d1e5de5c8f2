"""R12: temperature changes."""
from specs.common import *  # noqa: F403
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

NEWT = z3.Function("entry_at_temperature", ENTRY.sort, R, ENTRY.sort)
REFUSED = z3.Function("refuses_temperature", ENTRY.sort, R, z3.BoolSort())
ATTRS = ["_compositions", "_coefficients", "reactant_coeffs", "product_coeffs", "balanced", "data", "lowest_num_errors", "_entries", "reactant_entries", "product_entries", "chempots", "open_elems"]


def _newt(E, o, a, k):
    """contract of get_new_temperature of the entry classes (below): the entry created at that temperature; an entry may refuse
    a temperature with a ValueError"""
    t = E.num(a[0] if a else k["new_temperature"])
    t = z3.ToReal(t) if t.is_int() else t
    if E.branch(REFUSED(o.t, t)):
        raise VRaise(ValueError("temperature outside the tabulated range"))
    return SObj(ENTRY, NEWT(o.t, t))


ENTRY.methods["get_new_temperature"] = _newt


def at_axioms(E, t):
    e = z3.Const("e!", ENTRY.sort)
    E.axioms.append(z3.ForAll([e], ECOMP(NEWT(e, t)) == ECOMP(e), patterns=[NEWT(e, t)]))


def reg(cls):
    N = cls.__name__
    T = f"rxn_network.reactions.{'open' if cls is OpenComputedReaction else 'computed'}:{N}."

    @contract(f"{N}.get_new_temperature", [T + "get_new_temperature", T + "__init__"])
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ATTRS)
        t = E.real("T")
        at_axioms(E, t.t)
        q = idx(E, r.n)
        i = z3.Int("i!")
        how, out = outcome(E, lambda: E.call_method(r.obj, "get_new_temperature", [t], {}), ValueError)
        if how == "raise":
            E.cover("refused")
            E.prove("refused only if an entry refuses", z3.Exists([i], z3.And(0 <= i, i < r.n, REFUSED(r.X(i), t.t))))
        else:
            E.cover("reachable")
            E.prove("same class", z3.BoolVal(isinstance(out, VObj) and out.cls is cls))
            E.prove("a new reaction object", z3.BoolVal(out is not r.obj))
            ents = E.getattr(out, "entries")
            E.prove("as many entries", E.zb(E.eq(E.length(ents), SNum(r.n))))
            E.prove("every entry is the one created at the temperature", E.zb(E.eq(E.index(ents, SNum(q)), SObj(ENTRY, NEWT(r.X(q), t.t)))))
            prove_scaled(E, "new temperature", out, r, q, z3.RealVal(1))
            prove_meta(E, "new temperature", out, r, entries=False)
            if cls is OpenComputedReaction:
                E.prove("chemical potentials kept", same(E, E.getattr(out, "chempots"), E.getattr(r.obj, "chempots")))
        fr.prove("frame")

    @contract(f"{N}.get_new_temperature from given entries", [T + "get_new_temperature", T + "__init__"])
    def _(E):
        """entries_at_temp: a dictionary from the composition of every entry of the reaction to that entry at the temperature
        (the entries have distinct compositions)"""
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ATTRS)
        t = E.real("T")
        at_axioms(E, t.t)
        m = E.int("nmap").t
        E.assume(m >= 0)
        Z = ENTRY.fn(fresh_name("mapped"), I)
        i, j = z3.Ints("i! j!")
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < m, i != j), ECOMP(Z(i)) != ECOMP(Z(j))), patterns=[z3.MultiPattern(Z(i), Z(j))]))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), z3.Exists([j], z3.And(0 <= j, j < m, Z(j) == r.X(i)))), patterns=[r.X(i)]))
        k = z3.Int(fresh_name("k"))
        d = VDict([Seg([(k, m)], z3.BoolVal(True), E.tup(SObj(COMP, ECOMP(Z(k))), SObj(ENTRY, NEWT(Z(k), t.t))))], E.tick())
        q = idx(E, r.n)
        out = E.call_method(r.obj, "get_new_temperature", [t, d], {})
        E.cover("reachable")
        ents = E.getattr(out, "entries")
        E.prove("as many entries", E.zb(E.eq(E.length(ents), SNum(r.n))))
        E.prove("every entry is the given one of that temperature", E.zb(E.eq(E.index(ents, SNum(q)), SObj(ENTRY, NEWT(r.X(q), t.t)))))
        prove_scaled(E, "new temperature", out, r, q, z3.RealVal(1))
        prove_meta(E, "new temperature", out, r, entries=False)
        if cls is OpenComputedReaction:
            E.prove("chemical potentials kept", same(E, E.getattr(out, "chempots"), E.getattr(r.obj, "chempots")))
        fr.prove("frame")


reg(ComputedReaction)
reg(OpenComputedReaction)


from specs.rxnset import RS, SET_ATTRS, is_mu, same_rows, sym_set  # noqa: E402


RSET = Kind("ReactionSetAt", ReactionSet)
RSETAT = RSET.fn("set_at_temperature", R)


def reg_set(open_):
    @contract(f"ReactionSet.set_new_temperature ({'open' if open_ else 'closed'})", [RS + "set_new_temperature", RS + "__init__"])
    def _(E):
        o = sym_set(E, open_=open_)
        fr = Frame(E, o.obj, SET_ATTRS)
        t = E.real("T")
        at_axioms(E, t.t)
        i = z3.Int("i!")
        how, out = outcome(E, lambda: E.call_method(o.obj, "set_new_temperature", [t], {}), ValueError)
        if how == "raise":
            E.cover("refused")
            E.prove("refused only if an entry refuses", z3.Exists([i], z3.And(0 <= i, i < o.m, REFUSED(o.X(i), t.t))))
        else:
            E.cover("reachable")
            E.prove("a new object of the class", z3.BoolVal(isinstance(out, VObj) and out.cls is ReactionSet and out is not o.obj))
            at_temperature(E, o, out, t, open_)
        fr.prove("frame")


def at_temperature(E, o, out, t, open_):
    ents = E.getattr(out, "entries")
    E.prove("as many entries", E.num(E.length(ents)) == o.m)
    if open_:
        E.prove("potential kept", is_mu(E, E.getattr(out, "mu_dict"), o.el, o.mu))
    else:
        E.prove("no potential", z3.BoolVal(E.getattr(out, "mu_dict") is None))
    same_rows(E, "temperature", out, o)
    q = idx(E, o.m)
    E.prove("every entry is the one created at the temperature", E.zb(E.eq(E.index(ents, SNum(q)), SObj(ENTRY, NEWT(o.X(q), t.t)))))


reg_set(False)
reg_set(True)


@contract("ReactionSet.compute_at_temperatures", [RS + "compute_at_temperatures"])
def _(E):
    o = sym_set(E)
    fr = Frame(E, o.obj, SET_ATTRS)
    n = E.int("n").t
    E.assume(n >= 0)
    T = z3.Function(fresh_name("temperature"), I, R)
    temps = E.seq("temps", n, lambda k: SNum(T(k)))
    E.contracts[ReactionSet.set_new_temperature] = lambda E2, a, k: SObj(RSET, RSETAT(E2.num((a[1:] or list(k.values()))[0])))
    out = E.call_method(o.obj, "compute_at_temperatures", [temps], {})
    E.cover("reachable")
    k, x = z3.Int("k!"), E.real("x")
    E.prove("the keys are the temperatures", E.zb(E.contains(out, x)) == z3.Exists([k], z3.And(0 <= k, k < n, T(k) == x.t)))
    q = idx(E, n)
    v = E.resolve(E.getitem(out, SNum(T(q))))
    if isinstance(v, VObj):
        raise Undecided("the sets are not made by set_new_temperature")
    E.prove("each value is the set created at its temperature", E.zb(E.eq(v, SObj(RSET, RSETAT(T(q))))))
    fr.prove("frame")
