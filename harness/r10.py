"""R10 bounded: entry selection."""
import copy

from pymatgen.analysis.phase_diagram import PhaseDiagram

from harness.gen import *  # noqa: F403
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.nist import NISTReferenceEntry
from vlib import Skip, case, check


def K(e):
    return (ekey(e), round(e.energy, 9))


def some(rng, nist=True):
    els = pool(rng, rng.choice([2, 3]))
    T = rng.choice([300, 500, 950])
    es = gibbs_entries(rng, els, rng.randint(3, 8), T, polymorphs=rng.choice([0, 2, 4]), mults=True)
    if nist:
        for f in ("CO2", "Li2O", "MgO", "SiO2", "Na2O", "TiO2", "SO2", "CaO", "FeO", "Fe2O3", "NaCl", "LiCl"):
            if {str(x) for x in Composition(f).elements} <= set(els) and rng.random() < 0.5:
                es.append(NISTReferenceEntry(Composition(f), T))
    rng.shuffle(es)
    return els, T, es


@case("min", 160, bound="<=20 entries incl. polymorphs, formula multiples and tabulated entries")
def minimum(rng):
    els, T, es = some(rng)
    s = GibbsEntrySet(es)
    for f in sorted({e.composition.reduced_formula for e in es}):
        ask = f if rng.random() < 0.6 else (Composition(f) * 2).formula.replace(" ", "")
        m = s.get_min_entry_by_formula(ask)
        cand = [e for e in es if e.composition.reduced_formula == f]
        check(m.composition.reduced_formula == f, "asked %s got %s", f, m.composition)
        check(K(m) in {K(e) for e in cand}, "%s is not an entry of the set", m)
        check(close(m.energy_per_atom, min(e.energy_per_atom for e in cand)), "%s is not the ground state of %s", m, f)
    try:
        s.get_min_entry_by_formula("UCl7")
    except KeyError:
        pass
    else:
        check(False, "an unknown formula gave an entry")
    cs = rng.sample(els, rng.randint(1, len(els)))
    sub = s.get_subset_in_chemsys(cs if rng.random() < 0.5 else "-".join(cs))
    check({K(e) for e in sub} == {K(e) for e in es if {str(x) for x in e.composition.elements} <= set(cs)}, "subset %s", cs)
    try:
        s.get_subset_in_chemsys([*cs, "U"])
    except ValueError:
        pass
    else:
        check(False, "a foreign chemical system was accepted")
    check({K(e) for e in s} == {K(e) for e in es}, "set changed")
    return f"{els} {len(es)} {cs}"


@case("stability", 160, bound="<=20 entries; tolerances 0..1 eV/atom; with and without polymorphs")
def stability(rng):
    els, T, es = some(rng)
    s = GibbsEntrySet(es)
    pd = PhaseDiagram(es)
    above = {K(e): pd.get_e_above_hull(e) for e in es}
    tol = rng.choice([0.0, 1e-3, 0.05, 0.2, rng.choice(sorted(above.values())) + 1e-7, 1.0])
    if any(abs(v - tol) < 1e-9 for v in above.values() if v > 1e-9):
        raise Skip
    for poly in (True, False):
        f = s.filter_by_stability(tol, include_polymorphs=poly)
        got = {K(e) for e in f}
        check(got <= set(above), "not a subset")
        ok = {k for k, v in above.items() if v <= tol + 1e-10}
        if poly:
            check({k for k, v in above.items() if v <= tol} <= got <= ok, "polymorphs kept: missing %s, extra %s", ok - got, got - ok)
        else:
            check(got <= ok, "kept %s above the tolerance", got - ok)
            best = {}
            for e in es:
                if K(e) in ok:
                    q = e.composition.reduced_formula
                    best[q] = min(best.get(q, 1e9), e.energy_per_atom)
            fs = [e.composition.reduced_formula for e in f]
            check(sorted(fs) == sorted(best), "compositions %s instead of %s", sorted(fs), sorted(best))
            for e in f:
                check(close(e.energy_per_atom, best[e.composition.reduced_formula]), "%s is not the lowest of its composition", e)
    check({K(e) for e in s} == set(above), "the set changed")
    for e in rng.sample(es, 3):
        check(close(s.get_e_above_hull(e), above[K(e)], 1e-7), "energy above hull of %s", e)
    return f"{els} {len(es)} tol={tol}"


@case("stabilize", 140, bound="<=20 entries, tolerance 1e-4..1e-1, entries with and without stored energy above hull")
def stabilize(rng):
    els, T, es = some(rng)
    flag = rng.random() < 0.4
    s = GibbsEntrySet(copy.deepcopy(es), calculate_e_above_hulls=flag)
    before = sorted((K(e), repr(sorted(e.data.items()))) for e in s)
    pd = PhaseDiagram(list(s))
    e = rng.choice(s.entries_list)
    tol = rng.choice([1e-3, 1e-3, 1e-4, 1e-1])
    force = rng.random() < 0.3
    ab = pd.get_e_above_hull(e)
    if 0 < ab < 1e-9:
        raise Skip
    kw = {} if tol == 1e-3 else {"tol": tol}
    n = s.get_stabilized_entry(e, **kw, **({"force": True} if force else {}))
    check(sorted((K(x), repr(sorted(x.data.items()))) for x in s) == before, "the set's entries changed")
    check(n.composition == e.composition and type(n) is type(e), "another composition / type")
    if ab == 0 and not force:
        check(n is e or K(n) == K(e), "a stable entry was changed")
    else:
        check(close(n.energy, e.energy - ab * e.composition.num_atoms - tol, 1e-9), "energy %s, expected %s", n.energy, e.energy - ab * e.composition.num_atoms - tol)
    rest = [x for x in s if K(x) != K(e)]
    p2 = PhaseDiagram([*rest, n])
    check(p2.get_e_above_hull(n) <= 1e-9, "not on the hull: %s", p2.get_e_above_hull(n))
    return f"{e} tol={tol} above={ab:.4f} force={force}"


@case("interpolated", 60, bound="<=20 entries")
def interpolated(rng):
    els, T, es = some(rng)
    s = GibbsEntrySet(es)
    f = formula(rng, els)
    c = Composition(f).reduced_composition
    e = s.get_interpolated_entry(f)
    sub = [x for x in es if set(x.composition.elements) <= set(c.elements)]
    hull = PhaseDiagram(sub).get_hull_energy(c)
    check(e.composition == c and close(e.energy, hull - 1e-3 * c.num_atoms, 1e-8), "interpolated energy %s, hull %s", e.energy, hull)
    check(PhaseDiagram([*sub, e]).get_e_above_hull(e) <= 1e-9, "not stable")
    check({K(x) for x in s} == {K(x) for x in es}, "set changed")
    return f"{f} {len(es)}"
