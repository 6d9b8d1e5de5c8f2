"""R26 bounded: selectivity scores of the synthesis planning jobs."""
from collections import Counter

import numpy as np
from pymatgen.core.composition import Element

from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from rxn_network.core import Composition
from rxn_network.costs.calculators import (
    ChempotDistanceCalculator,
    PrimaryCompetitionCalculator,
    SecondaryCompetitionCalculator,
)
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.jobs.core import CalculateCompetitionMaker
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check


def run_make(maker, *a):
    """the body of the job, without a job store"""
    return type(maker).make.original(maker, *a)


def job_case(rng, nmax=14, open_ok=True):
    els = pool(rng, 3)
    oel = els[0] if open_ok and rng.random() < 0.4 else None
    es = gibbs_entries(rng, els, rng.randint(4, 6), polymorphs=0)
    ges = GibbsEntrySet(es)
    es = ges.entries_list
    openf = Composition(oel).reduced_formula if oel else None
    mu = -rng.uniform(0.1, 2) if oel else 0.0
    solid = [e for e in es if e.composition.reduced_formula != openf]
    target = rng.choice([e for e in solid if len(e.composition.elements) > 1])
    gas = [e for e in es if e.composition.reduced_formula == openf]
    pairs = []
    cand = [e for e in solid if e is not target]
    for _ in range(rng.choice([1, 2, 3])):
        pairs.append(rng.sample(cand, rng.choice([2, 2, 2, 1])))
    rxs, seen = [], set()
    for p in pairs:
        todo = []
        for sub in powerset(p, 1, 2):
            for g in ([], gas) if gas else ([],):
                rest = [e for e in es if e not in sub and e not in g]
                for prod in powerset(rest, 1, 3):
                    todo.append((list(sub) + list(g), list(prod)))
        rng.shuffle(todo)
        todo.sort(key=lambda t: target not in t[1])
        k = j = 0
        for r, q in todo:
            if len(r) + len(q) > 5 or k >= nmax:
                continue
            if target in q and j >= 4 and k < nmax:
                continue
            rx = ComputedReaction.balance(r, q)
            if rx.balanced and rx.lowest_num_errors == 0 and not rx.is_identity and nkey(rx) not in seen and rx.reactant_entries:
                seen.add(nkey(rx))
                rxs.append(rx)
                k += 1
                j += target in q
    rng.shuffle(rxs)
    if not rxs or len(rxs) > 60:
        raise Skip
    tf = target.composition.reduced_formula
    return ges, rxs, tf, oel, openf, mu


def formulas(comps):
    return {c.reduced_formula for c in comps}


def split(rng, rxs, ges):
    n = rng.choice([1, 1, 2, 3])
    parts = [rxs[i::n] for i in range(n)]
    return [ReactionSet.from_rxns(p, entries=ges.entries_list) for p in parts if p]


def scores(r, every, openf):
    """(primary, secondary) competition from the reactions sharing the reactants of r"""
    mine = formulas(r.reactants)
    allowed = mine | ({openf} if openf else set())
    comp = [o for o in every if formulas(o.reactants) <= allowed]
    left = sorted(mine - {openf}) if len(mine) > 1 else sorted(mine)
    if len(left) == 1:
        others = [o.energy_per_atom for o in comp if rkey(o) != rkey(r)] + [0.0]
        diffs = [r.energy_per_atom - o for o in others]
        return max(diffs), max([d for d in diffs if d > 0], default=0.0)
    irh = InterfaceReactionHull(left[0], left[1], comp)
    return PrimaryCompetitionCalculator(irh=irh).calculate(r), SecondaryCompetitionCalculator(irh=irh).calculate(r)


@case("competition", 150, bound="<=60 reactions of <=3 precursor pairs, chunk size 1..100, 1-8 CPUs, any completion order", timeout=110)
def competition(rng):
    ges, rxs, tf, oel, openf, mu = job_case(rng)
    sets = split(rng, rxs, ges)
    if oel:
        every = list(ReactionSet.from_rxns(rxs, entries=ges.entries_list, open_elem=oel, chempot=mu))
    else:
        every = rxs
    want = {}
    for r in every:
        if tf in formulas(r.products):
            want[rkey(r)] = r
    maker = CalculateCompetitionMaker(open_elem=oel, chempot=mu, chunk_size=rng.choice([1, 2, 3, 100]))
    before = [[snapshot(r) for r in s] for s in sets]
    with fake_ray(rng) as fr:
        if not want:
            try:
                run_make(maker, sets, ges, tf)
            except ValueError:
                raise Skip from None
            check(False, "no error without target reactions")
        doc = run_make(maker, sets, ges, tf)
    got = list(doc.rxns)
    check(Counter(rkey(r) for r in got) == Counter(list(want)), "target reactions %s, not %s", [str(r) for r in got], [str(r) for r in want.values()])
    check([[snapshot(r) for r in s] for s in sets] == before, "the given reactions changed")
    for r in got:
        p, s = scores(want[rkey(r)], every, openf)
        d = r.data
        check(abs(d["primary_competition"] - p) < 2e-4, "primary competition of %s is %s, not %s", r, d["primary_competition"], p)
        check(abs(d["secondary_competition"] - s) < 2e-4, "secondary competition of %s is %s, not %s", r, d["secondary_competition"], s)
        check(close(r.energy_per_atom, want[rkey(r)].energy_per_atom), "energy of %s", r)
    check(doc.target_formula == tf and close(doc.chempot, mu) and (str(doc.open_elem) if doc.open_elem else None) == oel, "settings in the output")
    return f"{len(rxs)} {len(got)} {fr.calls}"


@case("chempot_distance", 40, bound="<=20 reactions, chunk size 1..100, 1-8 CPUs, any completion order", timeout=110)
def chempot_distance(rng):
    ges, rxs, tf, oel, openf, mu = job_case(rng, 8)
    sets = split(rng, rxs, ges)
    every = list(ReactionSet.from_rxns(rxs, entries=ges.entries_list, open_elem=oel, chempot=mu)) if oel else rxs
    want = {rkey(r): r for r in every if tf in formulas(r.products)}
    if not want or (oel and any(len({str(x) for x in r.elements} - {oel}) < 2 for r in want.values())):
        raise Skip
    if any(len(r.elements) < 2 for r in want.values()):
        raise Skip
    mf = rng.choice(["sum", "max", "mean"])
    maker = CalculateCompetitionMaker(
        open_elem=oel, chempot=mu, chunk_size=rng.choice([1, 2, 3, 100]), calculate_competition=rng.random() < 0.3,
        calculate_chempot_distances=True, cpd_kwargs={"mu_func": mf},
    )
    with fake_ray(rng):
        doc = run_make(maker, sets, ges, tf)
    got = list(doc.rxns)
    check(Counter(rkey(r) for r in got) == Counter(list(want)), "target reactions %s, not %s", [str(r) for r in got], [str(r) for r in want.values()])
    for r in got:
        els = {str(x) for x in r.elements} | ({oel} if oel else set())
        sub = [e for e in ges if set(amounts(e.composition)) <= els]
        if oel:
            sub = [e.to_grand_entry({Element(oel): mu}) for e in sub if set(amounts(e.composition)) != {oel}]
        ref = ChempotDistanceCalculator.from_entries(sub, mu_func=mf).calculate(want[rkey(r)])
        check(close(r.data["chempot_distance"], ref, 1e-4), "chemical potential distance of %s is %s, not %s", r, r.data["chempot_distance"], ref)
        if maker.calculate_competition:
            p, s = scores(want[rkey(r)], every, openf)
            check(abs(r.data["primary_competition"] - p) < 2e-4, "primary competition of %s is %s, not %s", r, r.data["primary_competition"], p)
    return f"{len(rxs)} {len(got)} {mf}"
