"""R03: mixing fractions of a balanced reaction."""
from pyvc.domain import amt_of, num_atoms
from specs.common import *  # noqa: F403
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

PROPS = ["reactant_molar_fractions", "product_molar_fractions", "reactant_atomic_fractions", "product_atomic_fractions"]
CLS = {"BasicReaction": ("basic", BasicReaction), "ComputedReaction": ("computed", ComputedReaction), "OpenComputedReaction": ("open", OpenComputedReaction)}


def reg(cname, mod, cls, prop):
    base = "open" if (cls is OpenComputedReaction and "atomic" in prop) else "basic"
    owner = "OpenComputedReaction" if base == "open" else "BasicReaction"
    reactant = prop.startswith("reactant")
    atomic = "atomic" in prop

    @contract(f"{cname}.{prop}", [f"rxn_network.reactions.{base}:{owner}.{prop}", "rxn_network.reactions.basic:BasicReaction.num_atoms", f"rxn_network.reactions.{mod}:{cname}.__init__"], budget=150)
    def _(E):
        r = sym_reaction(E, cls)
        i, j = z3.Ints("i! j!")
        # precondition: no two species have the same reduced composition (fractions are keyed by it)
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < r.n, 0 <= j, j < r.n, i != j), REDUCED(r.C(i)) != REDUCED(r.C(j))), patterns=[z3.MultiPattern(r.C(i), r.C(j))]))
        N = E.real("num_atoms")
        if atomic:
            E.contracts[prop_func(cls, "num_atoms")] = lambda E2, a, k: N
        fr = Frame(E, r.obj, ["_compositions", "_coefficients", "reactant_coeffs", "product_coeffs", "data", "_entries"])
        bal = E.truth(E.getattr(r.obj, "balanced"))
        v = z3.Int("k!spec")
        atoms = lambda c: atoms_of(E, cls, r, c)
        side = lambda k: (r.K(k) < 0) if reactant else (r.K(k) > 0)
        weight = lambda k: (-r.K(k) if reactant else r.K(k)) * (atoms(r.C(k)) if atomic else 1)
        total = E.sigma([(v, r.n)], side(v), weight(v))
        ptotal = E.sigma([(v, r.n)], r.K(v) > 0, r.K(v) * atoms(r.C(v)))
        if atomic:
            # a balanced reaction conserves every element exactly; exchanging the two finite sums, so is the number of atoms
            E.assume(z3.Implies(E.zb(bal), total == ptotal))
            E.assume(ptotal > 0)
            E.assume(N.t == ptotal)  # callee contract of num_atoms, discharged below
        how, out = outcome(E, lambda: E.getattr(r.obj, prop), ValueError)
        if how == "raise":
            E.prove("an error is raised only for an unbalanced reaction", z3.Not(E.zb(bal)))
            E.cover("unbalanced")
            return
        E.prove("an unbalanced reaction has no fractions", E.zb(bal))
        E.cover("balanced")
        q = idx(E, r.n)
        E.assume(side(q))
        E.prove("total weight is not zero", total > 0) if not atomic else None
        key = SObj(COMP, REDUCED(r.C(q)) if atomic else r.C(q))
        got = E.num(E.getitem(out, key))
        E.prove("each fraction is proportional to the coefficient" + (" times the number of atoms" if atomic else ""), got * total == weight(q))
        if not atomic or cls is not OpenComputedReaction:
            if atomic:
                E.assume(atoms(r.C(q)) > 0)
            E.prove("fractions are positive", got > 0)
        vals = E.call_method(out, "values", [], {})
        E.prove("one fraction per species of the side", E.num(E.length(out)) == E.num(E.length(E.getattr(r.obj, "reactants" if reactant else "products"))))
        s = E.call(sum, [vals], {})
        E.prove("fractions sum to one", E.num(s) * total == total)
        fr.prove("frame")


def atoms_of(E, cls, r, c):
    """number of (non-open) atoms of a composition"""
    el = z3.Const("k!el", ELEM.sort)
    g = z3.BoolVal(True) if cls is not OpenComputedReaction else el != r.mu_elem.t
    return E.sigma([(el, None)], g, AMT(c, el))


def reg_num_atoms(cname, mod, cls):
    @contract(f"{cname}.num_atoms", ["rxn_network.reactions.basic:BasicReaction.num_atoms"], budget=150)
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ["_compositions", "_coefficients", "reactant_coeffs", "product_coeffs", "data", "_entries"])
        v = z3.Int("k!spec")
        got = E.num(E.getattr(r.obj, "num_atoms"))
        E.cover("reachable")
        E.prove("num_atoms counts the (non-open) atoms of the products", got == E.sigma([(v, r.n)], r.K(v) > 0, r.K(v) * atoms_of(E, cls, r, r.C(v))))
        fr.prove("frame")


for _n, (_m, _c) in CLS.items():
    reg_num_atoms(_n, _m, _c)
    for _p in PROPS:
        reg(_n, _m, _c, _p)
