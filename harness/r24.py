"""R24 bounded: expansion into phase diagrams and chemical potential diagrams."""
import itertools

import numpy as np
from pymatgen.analysis.phase_diagram import GrandPotPDEntry, PDEntry
from pymatgen.core.periodic_table import Element

from harness.gen import *  # noqa: F403
from harness.r14 import lp
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.thermo.chempot_diagram import ChemicalPotentialDiagram
from rxn_network.thermo.utils import expand_pd
from vlib import Skip, case, check


def hull_energy(es, c):
    """lowest energy per atom at a composition"""
    a = amounts(c)
    return lp([(amounts(e.composition), e.energy) for e in es], a) / sum(a.values())


def planes(es):
    els = sorted({x for e in es for x in e.composition.elements})
    best = {}
    for e in es:
        f = e.composition.reduced_formula
        if f not in best or e.energy_per_atom < best[f].energy_per_atom:
            best[f] = e
    return els, best


def vertices(es, f, low, tol=1e-7):
    """corners of the chemical potential domain of a formula"""
    els, best = planes(es)
    d = len(els)
    if f not in best:
        return None
    refs = {x: best[g].energy_per_atom for x in els for g in best if best[g].composition.is_element and best[g].composition.elements[0] == x}
    rows, rhs, names = [], [], []
    for g, e in best.items():
        fr = [e.composition.get_atomic_fraction(x) for x in els]
        if len(e.composition) > 1 and e.energy_per_atom - sum(a * refs[x] for a, x in zip(fr, els)) > -1e-11:
            continue
        rows.append(fr)
        rhs.append(e.energy_per_atom)
        names.append(g)
    if f not in names:
        return np.zeros((0, d))
    k = len(rows)
    for i in range(d):
        for s, b in ((-1.0, -low), (1.0, 0.0)):
            rows.append([s if j == i else 0.0 for j in range(d)])
            rhs.append(b)
    A, b = np.array(rows), np.array(rhs)
    i0 = names.index(f)
    out = []
    for sub in itertools.combinations([j for j in range(len(A)) if j != i0], d - 1):
        M = A[[i0, *sub]]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        mu = np.linalg.solve(M, b[[i0, *sub]])
        if (A @ mu <= b + tol).all() and not any(np.abs(mu - o).max() < 1e-7 for o in out):
            out.append(mu)
    return np.array(out).reshape(len(out), d)


def pd_entries(rng):
    els = pool(rng, rng.choice([2, 3, 3]))
    es = gibbs_entries(rng, els, rng.randint(2, 6), polymorphs=rng.choice([0, 1, 1]))
    if rng.random() < 0.3:
        es = [ComputedEntry(e.composition, e.energy) for e in es]
    return els, es


def stabilized(e, eh, tol):
    return PDEntry(e.composition, e.energy - eh * e.composition.num_atoms - tol)


def ref_distance(es, f, g):
    """distance between the closest corners of two domains; None when a domain is degenerate"""
    pts = []
    for x in (f, g):
        v = vertices(es, x, -100.0)
        if v is None:
            return None
        if not len(v) or np.linalg.matrix_rank(v - v[0], tol=1e-3) < v.shape[1] - 1:
            _, best = planes(es)
            e = best[x]
            eh = e.energy_per_atom - hull_energy(es, e.composition)
            if eh < 1e-4:
                return None
            rest = [PDEntry(q.composition, q.energy) for q in es]
            v = vertices([*rest, stabilized(e, eh, 1e-5)], x, -500.0, 1e-9)
            if not len(v):
                return None
        pts.append(v)
    return min(float(np.linalg.norm(p - q)) for p in pts[0] for q in pts[1])


@case("domains", 70, bound="2-3 elements, <=9 entries, stable and metastable phases and polymorphs", timeout=100)
def domains(rng):
    els, es = pd_entries(rng)
    given = list(es)
    before = [(e.composition.formula, e.energy) for e in es]
    cpd = ChemicalPotentialDiagram(es)
    fs = sorted({e.composition.reduced_formula for e in es})
    cen = sorted((e.composition.formula, e.energy) for e in cpd.entries)
    dom = {k: v.copy() for k, v in cpd.domains.items()}
    n = 0
    order = [rng.choice(fs) for _ in range(2)]
    pairs = [(order[0], order[1]), (order[1], order[0])] + [(rng.choice(fs), rng.choice(fs)) for _ in range(4)]
    for f, g in pairs:
        d = cpd.shortest_domain_distance(f, g)
        d2 = cpd.shortest_domain_distance(g, f)
        check(close(d, d2, 1e-7), "distance %s-%s is not symmetric: %s %s", f, g, d, d2)
        check(d >= 0, "negative distance %s", d)
        if f == g:
            check(close(d, 0, 1e-9), "distance of %s with itself is %s", f, d)
        off = rng.uniform(0, 1)
        check(close(cpd.shortest_domain_distance(f, g, offset=off), d + off, 1e-9), "offset")
        w = ref_distance(es, f, g)
        if w is not None:
            n += 1
            check(close(d, w, 2e-3 if d < 50 else 1.0), "distance %s-%s is %s, not %s", f, g, d, w)
            if w < 1e-6 and f in dom and g in dom:
                check(d < 1e-6, "adjacent phases %s-%s at distance %s", f, g, d)
    for e in rng.sample(es, min(4, len(es))):
        eh = e.energy_per_atom - hull_energy(es, e.composition)
        x = np.array([e.composition.get_atomic_fraction(q) for q in cpd.elements])
        o = cpd.get_offset(e)
        check(close(o, abs(eh) / np.linalg.norm(x), 1e-6), "offset of %s (%s above hull) is %s", e.composition.formula, eh, o)
    for f, v in cpd.metastable_domains.items():
        check(f in fs and f not in dom and len(v), "metastable domain of %s", f)
    check(es == given and [(e.composition.formula, e.energy) for e in es] == before, "the given entries changed")
    check(sorted((e.composition.formula, e.energy) for e in cpd.entries) == cen, "the entries of the diagram changed")
    check(sorted(dom) == sorted(cpd.domains) and all(np.array_equal(v, cpd.domains[k]) for k, v in dom.items()), "the domains changed")
    check(sorted((e.composition.formula, round(e.energy, 9)) for e in cpd._entry_set) == sorted((f, round(x, 9)) for f, x in cen), "the entry set of the diagram changed") if hasattr(cpd, "_entry_set") else None
    return f"{before} {n}"


@case("on hull", 25, bound="2-3 elements with a phase exactly on a tie line", timeout=60)
def onhull(rng):
    els = pool(rng, 2)
    es = gibbs_entries(rng, els, 2)
    cs = {e.composition.reduced_formula for e in es}
    f = Composition(f"{els[0]}{rng.randint(1, 6)}{els[1]}{rng.randint(1, 6)}")
    if f.reduced_formula in cs:
        raise Skip
    es = [ComputedEntry(e.composition, e.energy) for e in es]
    es.append(ComputedEntry(f, hull_energy(es, f) * f.num_atoms))
    cpd = ChemicalPotentialDiagram(es)
    cen = sorted((e.composition.formula, round(e.energy, 9)) for e in cpd._entry_set)
    g = rng.choice(sorted(cs))
    d = cpd.shortest_domain_distance(f.reduced_formula, g)
    check(close(d, cpd.shortest_domain_distance(g, f.reduced_formula), 1e-6) and d >= 0, "distance %s", d)
    check(close(cpd.get_offset(es[-1]), 0, 1e-6), "offset %s", cpd.get_offset(es[-1]))
    check(sorted((e.composition.formula, round(e.energy, 9)) for e in cpd._entry_set) == cen, "the entry set of the diagram changed")
    return f"{f.formula} {g}"


@case("expand", 80, bound="2-12 elements, systems of up to 4 elements, grand potential entries", timeout=100)
def expand(rng):
    els = rng.sample(["Li", "Na", "K", "Mg", "Ca", "Ba", "Y", "Ti", "Mn", "Fe", "Al", "Si", "C", "O", "S", "Cl"], rng.choice([2, 3, 5, 10, 12]))
    es = gibbs_entries(rng, els, 0)
    for _ in range(rng.randint(1, 12)):
        es.append(gentry(rng, formula(rng, els, 4), entry_id=f"x-{rng.random()}"))
    rng.shuffle(es)
    grand = rng.random() < 0.3
    if grand:
        o = rng.choice(els)
        es = [GrandPotPDEntry(e, {Element(o): -1.0}) for e in es if set(amounts(e.composition)) != {o}]
    before = list(es)
    out = expand_pd(es)
    check(es == before, "the entries changed")
    systems = {k: set(k.split("-")) for k in out}
    for e in es:
        want = {str(x) for x in e.composition.elements}
        check(any(want <= s for s in systems.values()), "no diagram covers %s", e.composition)
    for k, pd in out.items():
        s = systems[k]
        inside = [e for e in es if {str(x) for x in e.composition.elements} <= s]
        if grand:
            got = sorted(e.composition.formula for e in pd.all_entries)
            check(set(got) == {e.composition.formula for e in inside} and close(next(iter(pd.chempots.values())), -1.0), "diagram %s has %s", k, got)
        else:
            check(sorted(map(id, pd.all_entries)) == sorted(map(id, inside)), "diagram %s has %s", k, [e.composition.formula for e in pd.all_entries])
        check({str(x) for x in pd.elements} == s, "elements of diagram %s: %s", k, pd.elements)
        check(not any(s < t for t in systems.values()), "diagram %s is part of another", k)
    if not grand:
        st = GibbsEntrySet(es)
        for e in rng.sample(es, min(3, len(es))):
            w = e.energy_per_atom - hull_energy([q for q in es if set(amounts(q.composition)) <= set(amounts(e.composition))], e.composition)
            check(close(st.get_e_above_hull(e), w, 1e-6), "energy above hull of %s: %s, not %s", e.composition, st.get_e_above_hull(e), w)
    return f"{len(els)} elements, {sorted(out)}"
