"""R04 bounded: reaction energies."""
import numpy as np

from harness.gen import *  # noqa: F403
from vlib import Skip, case, check


def reduced_factor(e):
    c = e.composition
    return c.num_atoms / c.reduced_composition.num_atoms


def expected(rx, mu):
    tot = 0.0
    for e, k in zip(rx.entries, rx.coefficients):
        f = reduced_factor(e)
        en = float(e.energy)
        amt = amounts(e.composition)
        if mu and not (len(amt) == 1 and next(iter(amt)) in mu):
            en -= sum(mu.get(q, 0.0) * a for q, a in amt.items())
        tot += float(k) * en / f
    return tot


def atoms_of(rx, mu):
    return sum(float(k) * sum(a for q, a in amounts(c).items() if q not in mu) for c, k in zip(rx.compositions, rx.coefficients) if k > 0)


@case("energy", 400, bound="balanced reactions of <=5 entries written in 1-3 formula units, 0-2 open elements")
def energy(rng):
    els = pool(rng, rng.choice([3, 3, 4]))
    ents = gibbs_entries(rng, els, 6, mults=True, adj=rng.random() < 0.5)
    nopen = rng.choice([0, 0, 1, 1, 2])
    op = rng.sample(els, min(nopen, len(els) - 1))
    mu = {e: -rng.uniform(0, 3) for e in op}
    base = computed_rxn(rng, ents)
    s = rng.choice([1, 2, 0.3])
    if mu:
        rx = OpenComputedReaction(base.entries, base.coefficients * s, {Element(e): m for e, m in mu.items()})
    else:
        rx = ComputedReaction(base.entries, base.coefficients * s)
    n = atoms_of(rx, mu)
    check(close(rx.num_atoms, n, 1e-7), "number of atoms %s, expected %s", rx.num_atoms, n)
    want = expected(rx, mu)
    check(close(rx.energy, want, 1e-7), "energy of %s is %s, expected %s", rx, rx.energy, want)
    if n < 1e-6:
        raise Skip
    check(close(rx.energy_per_atom, want / n, 1e-7), "energy per atom %s, expected %s", rx.energy_per_atom, want / n)
    rv = rx.reverse()
    check(close(rv.energy, -want, 1e-7), "energy of the reverse")
    if atoms_of(rv, mu) > 1e-6:
        check(close(rv.energy_per_atom, -want / n, 1e-6), "energy per atom of the reverse %s %s", rv.energy_per_atom, -want / n)
    f = rng.choice([0.5, 4.0])
    a = {"chempots": rx.chempots} if mu else {}
    sc = type(rx)(entries=rx.entries, coefficients=rx.coefficients * f, **a)
    check(close(sc.energy, f * want, 1e-7) and close(sc.energy_per_atom, want / n, 1e-7), "scaling")
    nm = rx.normalize_to(rng.choice(rx.compositions))
    check(close(nm.energy_per_atom, want / n, 1e-7), "energy per atom changes when the reaction is normalized: %s %s", nm.energy_per_atom, want / n)
    # uncertainty
    u = rx.energy_uncertainty
    unc = [0.0 if math.isnan(e.correction_uncertainty) else e.correction_uncertainty for e in rx.entries]
    wu = math.sqrt(sum((float(k) * x / reduced_factor(e)) ** 2 for e, k, x in zip(rx.entries, rx.coefficients, unc)))
    check(float(u) >= 0 and close(u, wu, 1e-6, 1e-6), "uncertainty %s, expected %s", u, wu)
    check(float(rx.energy_uncertainty_per_atom) >= 0 and close(rx.energy_uncertainty_per_atom, wu / n, 1e-6, 1e-6), "uncertainty per atom")
    return f"{rx} mu={mu}"


@case("formula_multiple", 160, bound="the same reaction with each entry rewritten in another formula multiple")
def multiple(rng):
    els = pool(rng, 3)
    ents = [centry(rng, c.formula.replace(" ", ""), unc=rng.random() < 0.7) for c in comps(rng, els, 8, with_elements=True)]
    base = computed_rxn(rng, ents)
    es2 = []
    for e in base.entries:
        m = rng.randint(1, 4)
        adj = [ConstantEnergyAdjustment(a.value * m, uncertainty=a.uncertainty * m) for a in e.energy_adjustments]
        es2.append(ComputedEntry(Composition(e.composition * m), e.uncorrected_energy * m, energy_adjustments=adj))
    mu = {Element("O"): -1.3} if "O" in els and rng.random() < 0.5 else None
    if mu:
        a, b = OpenComputedReaction(base.entries, base.coefficients, mu), OpenComputedReaction(es2, base.coefficients, mu)
        if a.num_atoms < 1e-6:
            raise Skip
    else:
        a, b = ComputedReaction(base.entries, base.coefficients), ComputedReaction(es2, base.coefficients)
    for q in ("energy", "energy_per_atom", "energy_uncertainty", "energy_uncertainty_per_atom", "num_atoms"):
        x, y = float(getattr(a, q)), float(getattr(b, q))
        check(close(x, y, 1e-6, 1e-6), "%s depends on the formula multiple: %s vs %s for %s", q, x, y, [e.composition.formula for e in es2])
    return f"{a} {[e.composition.formula for e in es2]}"
