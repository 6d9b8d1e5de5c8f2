"""R05: equality, identity, separability."""
from specs.common import *  # noqa: F403
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

CLS = {"BasicReaction": ("basic", BasicReaction), "ComputedReaction": ("computed", ComputedReaction), "OpenComputedReaction": ("open", OpenComputedReaction)}
CHEM = Kind("ChemSys", str)
TOL = z3.Q(1, 1000)


def near(a, b):
    """within a generous relative/absolute tolerance"""
    return z3.And(absz(a - b) <= TOL + TOL * absz(b))


def order_free(E, v):
    """the hashed value must not keep the (arbitrary) order of the species: every unordered part is a set or sorted"""
    if isinstance(v, VList):
        if v.unordered and v.kind not in ("set", "frozenset") and "sorted" not in v.meta:
            E.fail("the hashed value does not depend on the order of the species")
        for s in v.segs:
            for x in s.items if isinstance(s, Conc) else [s.elem]:
                order_free(E, x)


def has_species(r, c):
    return z3.Or(r.RA(c) < 0, r.PA(c) > 0)


def chem_contract(E, cls, *rs):
    """assumed contract of chemical_system: a string that is equal for two reactions whose species sets are equal"""
    t = {}
    for r in rs:
        t[id(r.obj)] = E.obj(CHEM, "chemsys")
    a, b = rs[0], rs[-1]
    c = z3.Const("c!", COMP.sort)
    if a is not b:
        E.assume(z3.Implies(z3.ForAll([c], has_species(a, c) == has_species(b, c)), t[id(a.obj)].t == t[id(b.obj)].t))
    E.contracts[prop_func(cls, "chemical_system")] = lambda E2, args, k: t[id(args[0])]


def reg(cname, mod, cls):
    T = f"rxn_network.reactions.{mod}:{cname}."

    def two(E):
        a, b = species_reaction(E, cls, "a"), species_reaction(E, cls, "b")
        chem_contract(E, cls, a, b)
        if cls is not BasicReaction:
            epa = {id(a.obj): E.real("epa_a"), id(b.obj): E.real("epa_b")}
            a.epa, b.epa = epa[id(a.obj)].t, epa[id(b.obj)].t
            E.contracts[prop_func(cls, "energy_per_atom")] = lambda E2, args, k: epa[id(args[0])]
        return a, b

    @contract(f"{cname}.__eq__ only if same chemistry", [T + "__eq__"], budget=200)
    def _(E):
        a, b = two(E)
        got = E.truth(E.compare(ast.Eq, a.obj, b.obj))
        E.cover("reachable")
        if got:
            q = z3.Const(fresh_name("q"), COMP.sort)
            E.prove("equal reactions have the same reactants", (a.RA(q) < 0) == (b.RA(q) < 0))
            E.prove("equal reactions have the same products", (a.PA(q) > 0) == (b.PA(q) > 0))
            E.prove("reactant coefficients agree up to the tolerance", z3.Implies(a.RA(q) < 0, near(a.RA(q), b.RA(q))))
            E.prove("product coefficients agree up to the tolerance", z3.Implies(a.PA(q) > 0, near(a.PA(q), b.PA(q))))
            if cls is not BasicReaction:
                E.prove("energies per atom agree up to the tolerance", near(a.epa, b.epa))

    @contract(f"{cname}.__eq__ whenever same chemistry in any order", [T + "__eq__"], budget=200)
    def _(E):
        a, b = two(E)
        c = z3.Const("c!", COMP.sort)
        E.assume(z3.ForAll([c], z3.And(a.RA(c) == b.RA(c), a.PA(c) == b.PA(c)), patterns=[a.RA(c), b.RA(c), a.PA(c), b.PA(c)]))
        if cls is not BasicReaction:
            E.assume(a.epa == b.epa)
        got = E.compare(ast.Eq, a.obj, b.obj)
        E.cover("reachable")
        E.prove("the same species with the same coefficients in any order: equal", E.zb(got) if not isinstance(got, bool) else z3.BoolVal(got))

    @contract(f"{cname}.__hash__", [T + "__hash__"], budget=100)
    def _(E):
        """hash() is a function of its argument: the hashed values of two reactions with the same species and coefficients,
        listed in any order, are the same"""
        a, b = two(E)
        c = z3.Const("c!", COMP.sort)
        E.assume(z3.ForAll([c], z3.And(a.RA(c) == b.RA(c), a.PA(c) == b.PA(c)), patterns=[a.RA(c), b.RA(c), a.PA(c), b.PA(c)]))
        x, y = E.call(hash, [a.obj], {}), E.call(hash, [b.obj], {})
        E.cover("reachable")
        order_free(E, x.v)
        E.prove("the hashed values agree", same(E, x.v, y.v))

    @contract(f"{cname}.is_identity", [T + "is_identity", T + "_get_is_identity"], budget=200)
    def _(E):
        r = species_reaction(E, cls)
        E.assume(r.balanced.t)
        got = E.truth(E.getattr(r.obj, "is_identity"))
        E.cover("reachable")
        c = z3.Const("c!", COMP.sort)
        q = z3.Const(fresh_name("q"), COMP.sort)
        if got:
            E.prove("every species of an identity stands on both sides", (r.RA(q) < 0) == (r.PA(q) > 0))
            E.prove("with nearly opposite coefficients", z3.Implies(r.RA(q) < 0, near(-r.RA(q), r.PA(q))))
        else:
            E.prove("a reaction that is not an identity has a species without an exact opposite", z3.Exists([c], r.RA(c) != -r.PA(c)))

    @contract(f"{cname}.is_separable", [T + "is_separable"], budget=200)
    def _(E):
        from rxn_network.data import COMMON_GASES

        r = sym_reaction(E, cls)
        t = z3.Const("target", COMP.sort)
        i = z3.Int("i!")
        at = z3.Int("at")
        red = REDUCED
        E.assume(z3.And(0 <= at, at < r.n, r.K(at) > 0, red(r.C(at)) == red(t)))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n, red(r.C(i)) == red(t)), r.K(i) > 0)))
        got = E.truth(E.call_method(r.obj, "is_separable", [SObj(COMP, t)], {}))
        E.cover("reachable")
        e = z3.Const("e!", ELEM.sort)
        okp = lambda k: z3.Or(E.zb(E.contains(COMMON_GASES, SObj(FORMULA, RFORM(r.C(k))))), z3.ForAll([e], z3.Implies(AMT(r.C(k), e) > 0, AMT(t, e) == 0)))
        prod = lambda k: z3.And(0 <= k, k < r.n, r.K(k) > 0, red(r.C(k)) != red(t))
        if got:
            q = idx(E, r.n)
            E.prove("every by-product of a separable reaction is a gas or shares no element with the target", z3.Implies(prod(q), okp(q)))
        else:
            E.prove("a reaction that is not separable has an inseparable by-product", z3.Exists([i], z3.And(prod(i), z3.Not(okp(i)))))


for _n, (_m, _c) in CLS.items():
    reg(_n, _m, _c)
