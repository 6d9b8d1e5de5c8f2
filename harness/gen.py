"""Generators and plain oracles shared by the bounded cases (never a verdict by themselves)."""
from __future__ import annotations

import itertools
import math

from pymatgen.core.periodic_table import Element
from pymatgen.entries.computed_entries import ComputedEntry, ConstantEnergyAdjustment

from rxn_network.core import Composition
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vlib import Skip, Violation, check  # noqa: F401

POOLS = [["Li", "Fe", "O"], ["Y", "Mn", "O"], ["Ba", "Ti", "O", "C"], ["Na", "Cl", "O"], ["Li", "Y", "Cl", "O"], ["Mg", "Si", "O"], ["Ca", "C", "O", "Al"], ["K", "S", "O"]]
MAXC = 4


def pool(rng, n=None):
    p = list(rng.choice(POOLS))
    rng.shuffle(p)
    return p if n is None else p[:n]


def formula(rng, elems, kmax=3, amax=MAXC):
    k = rng.randint(1, min(kmax, len(elems)))
    els = rng.sample(elems, k)
    return "".join(f"{e}{rng.randint(1, amax) if k > 1 else 1}" for e in els)


def reduced(f):
    return Composition(Composition(f).reduced_formula if len(Composition(f)) > 1 else f).reduced_composition


def comps(rng, elems, n, kmax=3, amax=MAXC, with_elements=False):
    """n distinct reduced compositions"""
    out = []
    if with_elements:
        out = [Composition(e).reduced_composition for e in elems]
        n = max(n, len(out))
    for _ in range(60):
        if len(out) >= n:
            break
        c = Composition(formula(rng, elems, kmax, amax)).reduced_composition
        if c not in out:
            out.append(c)
    return out


def amounts(c):
    return {str(e): float(a) for e, a in c.items()}


def balance_of(pairs):
    """element balance of [(composition, coefficient)]"""
    tot = {}
    for c, k in pairs:
        for e, a in amounts(c).items():
            tot[e] = tot.get(e, 0.0) + a * float(k)
    return tot


def conserved(pairs, tol=1e-6):
    return all(abs(v) < tol for v in balance_of(pairs).values())


def nullspace(comps_):
    import sympy

    els = sorted({e for c in comps_ for e in amounts(c)})
    m = sympy.Matrix([[sympy.nsimplify(amounts(c).get(e, 0), rational=True) for c in comps_] for e in els])
    return m.nullspace()


def balanced_basic(rng, tries=60):
    """(reactants, products) compositions with a zero-error balance"""
    for _ in range(tries):
        els = pool(rng, rng.choice([2, 3, 3]))
        cs = comps(rng, els, rng.randint(3, 6))
        nr = rng.randint(1, 2)
        npd = rng.randint(1, 3)
        if len(cs) < nr + npd:
            continue
        cs = rng.sample(cs, nr + npd)
        r, p = cs[:nr], cs[nr:]
        rx = BasicReaction.balance(r, p)
        if rx.balanced and rx.lowest_num_errors == 0:
            return r, p, rx
    raise Skip


def gentry(rng, f, T=300, fe=None, mult=1, entry_id=None, data=None, adj=False):
    c = Composition(f) * mult
    if fe is None:
        fe = 0.0 if len(c) == 1 else -rng.uniform(0.05, 3.0)
    ea = None
    if adj:
        ea = [ConstantEnergyAdjustment(rng.uniform(-1, 1), uncertainty=rng.uniform(0, 0.3), name="noise")]
    return GibbsComputedEntry(Composition(c), fe, rng.uniform(8, 30), T, energy_adjustments=ea, entry_id=entry_id, data=data)


def centry(rng, f, mult=1, e=None, unc=False):
    c = Composition(f) * mult
    n = c.num_atoms
    epa = rng.uniform(-4, 0.5) if e is None else e
    adj = [ConstantEnergyAdjustment(rng.uniform(-1, 1), uncertainty=rng.uniform(0.01, 0.4) * n)] if unc else None
    return ComputedEntry(Composition(c), epa * n, energy_adjustments=adj, entry_id=f"{f}-{mult}-{rng.randrange(10**6)}")


def gibbs_entries(rng, els, n, T=300, polymorphs=0, mults=False, adj=False):
    """entries for a chemical system: every element plus n compounds (indexed ids)"""
    cs = comps(rng, els, len(els) + n, with_elements=True)
    out = []
    for k, c in enumerate(cs):
        m = rng.randint(1, 3) if mults and len(c) > 1 else 1
        out.append(gentry(rng, c.formula.replace(" ", ""), T, mult=m, entry_id=f"e-{k}", adj=adj and len(c) > 1))
    for k in range(polymorphs):
        c = rng.choice([c for c in cs if len(c) > 1] or cs)
        out.append(gentry(rng, c.formula.replace(" ", ""), T, entry_id=f"p-{k}"))
    return out


def entry_set(rng, els=None, n=5, T=300, polymorphs=0, **kw):
    from rxn_network.entries.entry_set import GibbsEntrySet

    els = els or pool(rng, 3)
    s = GibbsEntrySet(gibbs_entries(rng, els, n, T, polymorphs, **kw))
    s.build_indices()
    return s


def computed_rxn(rng, entries=None, open_el=None, tries=200, errors_ok=False, data=None, mu=None):
    """random balanced computed reaction between the given entries"""
    if entries is None:
        els = pool(rng, 3)
        entries = gibbs_entries(rng, els, 6, mults=rng.random() < 0.5, adj=rng.random() < 0.5)
    entries = sorted(entries, key=lambda e: (e.composition.formula, str(e.entry_id)))
    for _ in range(tries):
        k = rng.randint(2, min(5, len(entries)))
        es = rng.sample(entries, k)
        if len({e.composition.reduced_composition for e in es}) < k:
            continue
        nr = rng.randint(1, min(2, k - 1))
        r, p = es[:nr], es[nr:]
        d = dict(data) if data else None
        if open_el is not None:
            rx = OpenComputedReaction.balance(r, p, chempots={Element(open_el): mu if mu is not None else -rng.uniform(0, 3)}, data=d)
        else:
            rx = ComputedReaction.balance(r, p, data=d)
        if rx.lowest_num_errors == 0 and rx.balanced:
            if open_el is not None and rx.num_atoms < 1e-6:
                continue
            return rx
    raise Skip


def computed_rxns(rng, entries, n, open_el=None, mu=None, distinct=False):
    out = []
    for _ in range(n * 6):
        if len(out) >= n:
            break
        try:
            rx = computed_rxn(rng, entries, open_el=open_el, tries=30, mu=mu)
        except Skip:
            continue
        if distinct and any(sorted(coef_map(rx)) == sorted(coef_map(o)) for o in out):
            continue
        out.append(rx)
    if not out:
        raise Skip
    return out


def ekey(e):
    return (e.composition.formula, str(getattr(e, "entry_id", "")))


def coef_map(rx):
    return {ekey(e): float(c) for e, c in zip(rx.entries, rx.coefficients) if abs(c) > 1e-10}


def rkey(rx, nd=8):
    """canonical key of a computed reaction (entries + coefficients)"""
    return tuple(sorted((k, round(v, nd)) for k, v in coef_map(rx).items()))


def nkey(rx, nd=6):
    """canonical key up to positive multiples"""
    m = coef_map(rx)
    s = max(abs(v) for v in m.values()) if m else 1.0
    return tuple(sorted((k, round(v / s, nd)) for k, v in m.items()))


def close(a, b, tol=1e-8, rel=1e-8):
    return abs(float(a) - float(b)) <= tol + rel * max(abs(float(a)), abs(float(b)))


def powerset(xs, lo, hi):
    return itertools.chain.from_iterable(itertools.combinations(xs, k) for k in range(lo, hi + 1))


def snapshot(rx):
    """everything observable about a reaction, for frame conditions"""
    import copy

    d = {
        "comps": [c.formula for c in rx.compositions],
        "coeffs": [float(c) for c in rx.coefficients],
        "rc": sorted((c.formula, float(v)) for c, v in rx.reactant_coeffs.items()),
        "pc": sorted((c.formula, float(v)) for c, v in rx.product_coeffs.items()),
        "data": copy.deepcopy(rx.data),
        "balanced": rx.balanced,
        "err": rx.lowest_num_errors,
    }
    if hasattr(rx, "entries"):
        d["entries"] = [ekey(e) for e in rx.entries]
    if hasattr(rx, "chempots"):
        d["mu"] = {str(k): v for k, v in rx.chempots.items()}
    return d


isnan = math.isnan
