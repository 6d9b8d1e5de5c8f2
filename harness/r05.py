"""R05 bounded: equality, hash, identity, separability."""
import numpy as np

from harness.gen import *  # noqa: F403
from vlib import Skip, case, check

GASES = ["Ar", "CO", "CO2", "CS2", "H2", "H2O", "H2S", "H3N", "H4C", "HCl", "He", "N2", "N2O", "NO", "Ne", "O2", "PH3", "SF6", "SO2", "SiH4", "Xe"]


def mapping(rx):
    return {c.reduced_formula: float(k) for c, k in zip(rx.compositions, rx.coefficients)}


@case("equality", 320, bound="pairs of basic reactions: permuted, perturbed, scaled, reversed or with one species exchanged")
def equality(rng):
    r, p, rx = balanced_basic(rng)
    cs, k = r + p, [float(x) for x in rx.coefficients]
    a = BasicReaction(cs, k)
    order = list(range(len(k)))
    rng.shuffle(order)
    b = BasicReaction([cs[i] for i in order], [k[i] for i in order])
    check(a == a and a == b and b == a, "equality depends on the order of the species: %s / %s", a, b)
    check(hash(a) == hash(b), "hash depends on the order of the species")
    check(not (a != b), "!=")
    how = rng.choice(["perturb", "scale", "reverse", "swap", "drop", "permute_coeffs"])
    cs2, k2 = list(cs), list(k)
    if how == "perturb":
        i = rng.randrange(len(k2))
        k2[i] *= 1.01
    elif how == "scale":
        k2 = [2 * x for x in k2]
    elif how == "reverse":
        k2 = [-x for x in k2]
    elif how == "swap":
        i = rng.randrange(len(cs2))
        new = [c for c in comps(rng, sorted({str(e) for c in cs2 for e in c.elements}), 12) if c not in cs2]
        if not new:
            raise Skip
        cs2[i] = new[0]
    elif how == "drop":
        i = rng.randrange(len(cs2))
        k2[i] = 0.0
    else:
        same = [i for i in range(len(k)) if k[i] > 0]
        same = same if len(same) > 1 else [i for i in range(len(k)) if k[i] < 0]
        if len(same) < 2 or abs(k[same[0]] - k[same[1]]) < 1e-3:
            raise Skip
        k2[same[0]], k2[same[1]] = k2[same[1]], k2[same[0]]
    c = BasicReaction(cs2, k2, balanced=True)
    check(not (a == c) and not (c == a) and a != c, "%s and %s (%s) compare equal", a, c, how)
    return f"{how} {a} / {c}"


@case("computed_equality", 160, bound="pairs of computed or open reactions, with equal or shifted energies")
def computed_equality(rng):
    mu = {Element("O"): -1.0} if rng.random() < 0.4 else None
    els = ["Y", "Mn", "O"] if mu else pool(rng, 3)
    ents = gibbs_entries(rng, els, 6)
    base = computed_rxn(rng, ents)
    mk = (lambda e, k: OpenComputedReaction(e, k, mu)) if mu else ComputedReaction
    a = mk(base.entries, base.coefficients)
    if a.num_atoms < 1e-6:
        raise Skip
    order = list(range(len(base.entries)))
    rng.shuffle(order)
    b = mk([base.entries[i] for i in order], np.array([base.coefficients[i] for i in order]))
    check(a == b and b == a and hash(a) == hash(b), "order")
    i = rng.randrange(len(base.entries))
    es = list(base.entries)
    e = es[i]
    es[i] = gentry(rng, e.composition.formula.replace(" ", ""), fe=e.formation_energy_per_atom - 0.2, entry_id="other")
    if close(mk(es, base.coefficients).energy_per_atom, a.energy_per_atom, 1e-4, 1e-4):
        raise Skip
    c = mk(es, base.coefficients)
    check(not (a == c) and not (c == a), "reactions of different energy compare equal: %s %s", a.energy_per_atom, c.energy_per_atom)
    return f"{a}"


@case("identity", 160, bound="reactions whose sides coincide or differ in one species or coefficient")
def identity(rng):
    els = pool(rng, 3)
    cs = comps(rng, els, rng.randint(1, 3))
    k = [rng.choice([1.0, 2.0, 0.5]) for _ in cs]
    how = rng.choice(["same", "same", "extra", "coeff", "permuted", "shifted"])
    right = list(zip(cs, k))
    if how == "permuted":  # same phases, same multiset of coefficients
        if len(set(k)) < 2:
            raise Skip
        while [x for _, x in right] == k:
            k2 = rng.sample(k, len(k))
            right = list(zip(cs, k2))
    elif how == "shifted":  # same phases, same sum of coefficients
        if len(k) < 2:
            raise Skip
        right = [(cs[0], k[0] + 0.25), (cs[1], k[1] - 0.25), *right[2:]]
    rng.shuffle(right)
    if how == "extra":
        new = [c for c in comps(rng, els, 10) if c not in cs]
        if not new:
            raise Skip
        right[0] = (new[0], right[0][1])
    elif how == "coeff":
        i = rng.randrange(len(right))
        right[i] = (right[i][0], right[i][1] * 1.5)
    left = list(zip(cs, k))
    order = left and [(c, -x) for c, x in left] + right
    if rng.random() < 0.3:
        rng.shuffle(order)
    rx = BasicReaction([c for c, _ in order], [x for _, x in order], balanced=True if how in ("coeff", "permuted", "shifted") else None)
    check(bool(rx.is_identity) == (how == "same"), "is_identity of %s (%s) is %s", rx, how, rx.is_identity)
    return f"{how} {rx}"


@case("separable", 240, bound="balanced reactions with every product as the target")
def separable(rng):
    if rng.random() < 0.4:
        rct, prd = rng.choice([
            (["CaCO3"], ["CaO", "CO2"]), (["BaCO3", "TiO2"], ["BaTiO3", "CO2"]), (["CaCO3", "C"], ["CaO", "CO"]), (["Li2CO3", "Fe2O3"], ["LiFeO2", "CO2"]),
            (["Fe2O3", "H2"], ["Fe", "H2O"]), (["NH4Cl", "Na2O"], ["NaCl", "NH3", "H2O"]), (["FeS2", "O2"], ["Fe2O3", "SO2"]), (["Y2O3", "HCl"], ["YOCl", "H2O"]),
            (["Mg(OH)2"], ["MgO", "H2O"]), (["Na2CO3", "SiO2"], ["Na2SiO3", "CO2"]), (["CaH2", "H2O"], ["CaH2O2", "H2"]), (["Na2O2", "C"], ["Na2O", "CO"]), (["BaO2"], ["BaO", "O2"]),
        ])
        rx = BasicReaction.from_formulas(rct, prd)
        if not rx.balanced or rx.lowest_num_errors:
            raise Skip
    else:
        r, p, rx = balanced_basic(rng)
    target = rng.choice(rx.products)
    t = set(amounts(target))
    added = {e for c in rx.compositions for e in amounts(c)} - t
    by = [c for c in rx.products if c.reduced_formula != target.reduced_formula]
    want = all(c.reduced_formula in GASES or set(amounts(c)) <= added for c in by)
    unsure = [c for c in by if len(c) == 1 or c.reduced_formula in ("H2C", "BH3", "Br", "HI", "WF6")]
    if unsure and not all(set(amounts(c)) <= added or c.reduced_formula in GASES for c in unsure):
        unknown = [c for c in unsure if c.reduced_formula not in ("C", "S", "Li", "Fe", "Na", "Al", "Si", "Mg", "Ca", "Ba", "Ti", "Mn", "Y", "K")]
        if unknown:
            raise Skip
    arg = target if rng.random() < 0.5 else target.reduced_formula
    if rng.random() < 0.3:
        from rxn_network.reactions.open import OpenComputedReaction

        es = [ComputedEntry(c, -1.0 * c.num_atoms) for c in rx.compositions]
        rx = OpenComputedReaction(es, rx.coefficients, {Element(rng.choice(sorted(e for c in rx.compositions for e in amounts(c)))): -1.0})
    got = rx.is_separable(arg)
    check(bool(got) == want, "is_separable(%s) of %s is %s, expected %s", arg, rx, got, want)
    return f"{rx} {target.reduced_formula} {want}"
