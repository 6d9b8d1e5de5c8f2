"""R18 bounded: calculators annotate copies."""
import itertools

import numpy as np
from pymatgen.analysis.phase_diagram import GrandPotPDEntry
from pymatgen.core.periodic_table import Element

from harness.gen import *  # noqa: F403
from harness.r19 import hull_case
from harness.r24 import hull_energy
from rxn_network.costs import calculators as cc
from rxn_network.costs.base import Calculator
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
from vlib import Skip, case, check


def agree(calc, rxs, want):
    """decorate/decorate_many/calculate_many against the expected values"""
    before = [snapshot(r) for r in rxs]
    for r, w in zip(rxs, want):
        v = calc.calculate(r)
        check(close(v, w, 2e-5), "%s of %s is %s, not %s", calc.name, r, v, w)
        d = calc.decorate(r)
        check(d is not r and type(d) is type(r), "decorate returns %s", type(d))
        check(d == r, "the decorated reaction differs: %s", d)
        s = snapshot(d)
        o = snapshot(r)
        dd, od = s.pop("data"), o.pop("data") or {}
        check(s == o, "decorating changed the reaction %s", r)
        check(set(dd) == set(od) | {calc.name}, "data of the decorated reaction: %s", sorted(dd))
        check(close(dd[calc.name], w, 2e-5), "decorated value %s", dd[calc.name])
        check(all(dd[k] == od[k] for k in od if k != calc.name), "other data changed: %s -> %s", od, dd)
        check(dd is not r.data and d.coefficients is not r.coefficients, "the copy shares state")
    m = calc.calculate_many(list(rxs))
    check(len(m) == len(rxs) and all(close(a, b, 2e-5) for a, b in zip(m, want)), "calculate_many %s, not %s", m, want)
    ds = calc.decorate_many(list(rxs))
    check([rkey(d) for d in ds] == [rkey(r) for r in rxs], "decorate_many reorders")
    check(all(close(d.data[calc.name], w, 2e-5) for d, w in zip(ds, want)), "decorate_many values")
    check([snapshot(r) for r in rxs] == before, "the reactions changed")


def with_data(rng, rxs):
    for r in rxs:
        if rng.random() < 0.2:
            r.data = None if rng.random() < 0.5 else {}
        elif rng.random() < 0.5:
            r.data = {**(r.data or {}), "note": [1, 2], "primary_competition": 7.0, "x": {"a": rng.random()}}
    return rxs


@case("chempot distance", 50, bound="2-3 elements, <=9 entries, metastable phases, open elements, 4 aggregations", timeout=100)
def cpdist(rng):
    els = pool(rng, rng.choice([2, 3]))
    es = gibbs_entries(rng, els, rng.randint(3, 6), polymorphs=rng.choice([0, 1]))
    oel = rng.choice(els) if len(els) == 3 and rng.random() < 0.35 else None
    mu = -rng.uniform(0, 2)
    n = rng.randint(1, 3)
    rxs = with_data(rng, computed_rxns(rng, es, n, open_el=oel, mu=mu))
    ces = [GrandPotPDEntry(e, {Element(oel): mu}) for e in es if set(amounts(e.composition)) != {oel}] if oel else list(es)
    how = rng.choice(["sum", "max", "mean", "func"])
    fn = {"sum": sum, "max": max, "mean": lambda d: sum(d) / len(d), "func": lambda d: 3.0 * min(d) + len(d)}[how]
    name = rng.choice(["chempot_distance", "cd"])
    try:
        calc = cc.ChempotDistanceCalculator.from_entries(ces, mu_func=fn if how == "func" else how, name=name)
        cpd = ChemicalPotentialDiagram(ces)
        want = []
        for r in rxs:
            R, P = [], []
            for e, c in zip(r.entries, r.coefficients):
                if oel and set(amounts(e.composition)) == {oel}:
                    continue
                (R if c < 0 else P).append(GrandPotPDEntry(e, {Element(oel): mu}) if oel else e)
            ds = []
            for a, b in [*itertools.product(R, P), *itertools.combinations(P, 2)]:
                f, g = a.composition.reduced_formula, b.composition.reduced_formula
                pts = [cpd.domains[x] if x in cpd.domains else cpd._get_metastable_domain(x) for x in (f, g)]
                d = min(float(np.linalg.norm(p - q)) for p in pts[0] for q in pts[1])
                for e in (a, b):
                    x = np.array([e.composition.get_atomic_fraction(q) for q in cpd.elements])
                    eh = e.energy_per_atom - hull_energy(ces, e.composition)
                    d += (abs(eh) if abs(eh) > 1e-9 else 0.0) / np.linalg.norm(x)
                ds.append(d)
            want.append(fn(ds))
    except (ValueError, IndexError, KeyError) as e:
        if oel:  # grand potential diagrams of metastable phases are out of reach of the constructor
            raise Skip from e
        raise
    agree(calc, rxs, want)
    return f"{how} {oel} {[str(r) for r in rxs]} {want}"


@case("competition", 60, bound="<=6 reactions of an interface hull, 5 calculators", timeout=90)
def comp(rng):
    a, b, rxs, _oel, _mu = hull_case(rng, rng.random() < 0.3, nmax=6)
    xs = None
    rxs = with_data(rng, rxs)
    try:
        irh = InterfaceReactionHull(a.composition, b.composition, rxs)
        xs = sorted(irh.coords[:, 0])
    except Exception as e:
        if type(e).__name__ == "QhullError":
            raise Skip from e
        raise
    if any(0 < q - p < 1e-4 for p, q in zip(xs, xs[1:])) or len(set(xs)) < 3:
        raise Skip
    for cls, f in (
        (cc.PrimaryCompetitionCalculator, irh.get_primary_competition),
        (cc.SecondaryCompetitionCalculator, irh.get_secondary_competition),
        (cc.SecondaryCompetitionWithEhullCalculator, lambda r: irh.get_secondary_competition(r, include_e_hull=True)),
        (cc.SecondaryCompetitionMaxCalculator, irh.get_secondary_competition_max_energy),
    ):
        calc = cls(irh) if rng.random() < 0.6 else cls(irh=irh, name="my_name")
        agree(calc, rxs, [f(r) for r in rxs])
    return f"{len(rxs)} {str(rxs[0])}"


class Energy(Calculator):
    """a user-defined calculator"""

    def __init__(self, name):
        self.name = name

    def calculate(self, rxn):
        rxn.data["touched"] = True if rxn.data is None else rxn.data.get("touched", True)
        del rxn.data["touched"]
        return rxn.energy * 2


@case("user calculator", 80, bound="random reactions, closed and open, any data")
def user(rng):
    els = pool(rng, 3)
    es = gibbs_entries(rng, els, 5)
    rxs = with_data(rng, computed_rxns(rng, es, rng.randint(1, 4), open_el=els[0] if rng.random() < 0.4 else None))
    for r in rxs:
        if r.data is None:
            r.data = {}
    agree(Energy(rng.choice(["e2", "note"])), rxs, [r.energy * 2 for r in rxs])
    return f"{[str(r) for r in rxs]}"
