"""R04: reaction energies."""
from specs.common import *  # noqa: F403
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

CLS = {"ComputedReaction": ("computed", ComputedReaction), "OpenComputedReaction": ("open", OpenComputedReaction)}
FRAME = ["_compositions", "_coefficients", "reactant_coeffs", "product_coeffs", "data", "_entries", "grand_entries", "chempots", "lowest_num_errors"]


def want_energy(E, cls, r):
    v = z3.Int("k!spec")
    return E.sigma([(v, r.n)], z3.BoolVal(True), r.K(v) * formula_energy(E, cls, r, v))


def reg(cname, mod, cls):
    T = f"rxn_network.reactions.{mod}:{cname}."

    @contract(f"{cname}.energy", [T + "energy", T + "__init__"], budget=150)
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, FRAME)
        got = E.getattr(r.obj, "energy")
        E.cover("reachable")
        E.prove("energy is the sum of coefficient times energy per reduced formula unit", E.num(got) == want_energy(E, cls, r))
        fr.prove("frame")

    @contract(f"{cname}.energy_per_atom", [T + "energy_per_atom"], budget=150)
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, FRAME)
        e, n = E.real("energy"), E.real("atoms")
        E.assume(n.t > 0)
        E.contracts[prop_func(cls, "energy")] = lambda E2, a, k: e
        E.contracts[prop_func(cls, "num_atoms")] = lambda E2, a, k: n
        got = E.getattr(r.obj, "energy_per_atom")
        E.cover("reachable")
        E.prove("energy per atom is energy divided by the number of atoms", E.num(got) * n.t == e.t)
        fr.prove("frame")

    @contract(f"{cname}.energy_uncertainty", [T + "energy_uncertainty"], budget=200)
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, FRAME)
        got = E.getattr(r.obj, "energy_uncertainty")
        E.cover("reachable")
        v = z3.Int("k!spec")
        x = r.X(v)
        s = z3.If(EUNCNAN(x), 0, EUNC(x)) / FACTOR(ECOMP(x))
        var = E.sigma([(v, r.n)], z3.BoolVal(True), r.K(v) * r.K(v) * s * s)
        t = E.num(got)
        E.prove("the uncertainty is non-negative", t >= 0)
        E.prove("its square is the sum of squared coefficients times squared uncertainties per reduced formula unit", t * t == var)
        fr.prove("frame")

    @contract(f"{cname}.energy_uncertainty_per_atom", [T + "energy_uncertainty_per_atom"], budget=100)
    def _(E):
        r = sym_reaction(E, cls)
        e, n = E.real("uncertainty"), E.real("atoms")
        E.assume(z3.And(n.t > 0, e.t >= 0))
        E.contracts[prop_func(cls, "energy_uncertainty")] = lambda E2, a, k: e
        E.contracts[prop_func(cls, "num_atoms")] = lambda E2, a, k: n
        got = E.num(E.getattr(r.obj, "energy_uncertainty_per_atom"))
        E.cover("reachable")
        E.prove("uncertainty per atom is the uncertainty divided by the number of atoms", got * n.t == e.t)
        E.prove("non-negative", got >= 0)

    @contract(f"{cname} energy of the reversed and the scaled reaction", [T + "energy", T + "reverse", T + "normalize_to"], budget=200)
    def _(E):
        """lemma over the contracts: reverse() negates every coefficient, normalisation multiplies every coefficient by one
        positive factor, the species' energies stay (contracts of R02); the energy is then -E, respectively factor * E, and
        the energy per atom -e, respectively e (the number of atoms scales with the positive factor: contract of R03)"""
        r = sym_reaction(E, cls)
        c = E.real("factor").t
        E.assume(c > 0)
        v = z3.Int("k!spec")
        en = formula_energy(E, cls, r, v)
        T_ = z3.BoolVal(True)
        e0 = E.sigma([(v, r.n)], T_, r.K(v) * en)
        e1 = E.sigma([(v, r.n)], T_, -1 * r.K(v) * en)
        e2 = E.sigma([(v, r.n)], T_, (r.K(v) * c) * en)
        E.cover("reachable")
        E.prove("reversal changes the sign of the energy", e1 == -e0)
        E.prove("scaling multiplies the energy by the factor", e2 == c * e0)

    @contract(f"{cname} energy per atom of the reversed and the scaled reaction", [T + "energy_per_atom", T + "reverse", T + "normalize_to"])
    def _(E):
        c, e, n = E.real("factor").t, E.real("energy").t, E.real("atoms").t
        E.assume(z3.And(c > 0, n > 0))
        E.cover("reachable")
        E.prove("energy per atom is unchanged by scaling", (c * e) / (c * n) == e / n)
        E.prove("energy per atom changes sign on reversal", (-e) / n == -(e / n))


for _n, (_m, _c) in CLS.items():
    reg(_n, _m, _c)
