"""R11 bounded: conversion of computed entries into a Gibbs entry set."""
from collections import Counter

from pymatgen.analysis.phase_diagram import PhaseDiagram
from pymatgen.core import Lattice, Structure
from pymatgen.entries.computed_entries import ComputedStructureEntry

from harness.gen import *  # noqa: F403
from harness.gibbsref import gibbs_energy, tab
from rxn_network.entries.entry_set import IGNORE_NIST_SOLIDS, GibbsEntrySet
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.gibbs import GibbsComputedEntry
from rxn_network.entries.nist import NISTReferenceEntry
from vlib import Skip, case, check

KNOWN = ["Li2O", "CO2", "Li2CO3", "Fe2O3", "FeO", "Fe3O4", "MgO", "SiO2", "MgSiO3", "CaCO3", "CaO", "Al2O3", "Na2O", "NaCl", "LiCl", "BaO", "BaCO3", "TiO2", "SO2", "SO3", "K2O", "CO", "Y2O3", "YCl3", "MnO", "Mn2O3", "MnCO3", "FeCO3", "LiO8", "Na2CO3", "K2S", "Al4C3", "CaAl2O4", "BaTiO3"]


def structure_entry(rng, f, epa, eid, mult=1, run_type="GGA"):
    c = Composition(f) * mult
    sp = [str(e) for e, a in c.items() for _ in range(int(a))]
    n = len(sp)
    vol = rng.uniform(8, 30) * n
    s = Structure(Lattice.cubic(vol ** (1 / 3)), sp, [[rng.random(), rng.random(), rng.random()] for _ in sp])
    return ComputedStructureEntry(s, epa * n, entry_id=eid, parameters={"run_type": run_type}, data={"theoretical": rng.random() < 0.5})


def chem(rng, els, n):
    out = []
    for k, e in enumerate(els):
        out.append(structure_entry(rng, e, -rng.uniform(1, 8), f"el-{k}", rng.randint(1, 3)))
        if rng.random() < 0.3:
            out.append(structure_entry(rng, e, -0.5, f"elm-{k}"))
    fs = [f for f in KNOWN if {str(x) for x in Composition(f).elements} <= set(els)]
    fs = rng.sample(fs, min(len(fs), n)) + [formula(rng, els) for _ in range(2)]
    if "C" in els and "O" in els:
        fs += [x for x in ("CO2",) if rng.random() < 0.7]
    for k, f in enumerate(fs):
        if Composition(f).is_element:
            continue
        out.append(structure_entry(rng, f, -rng.uniform(1, 9), f"mp-{k}", rng.randint(1, 2), rng.choice(["GGA", "GGA+U", "R2SCAN", "GGA"])))
        if rng.random() < 0.2:
            out.append(structure_entry(rng, f, -rng.uniform(1, 9), f"poly-{k}", 1, rng.choice(["GGA", "R2SCAN"])))
    seen = set()
    rng.shuffle(out)
    return out


def expected(entries, T, o):
    """{(kind, reduced formula, entry id)} -> energy per atom"""
    pd = PhaseDiagram(entries)
    want = {}
    for e in entries:
        c = e.composition
        f = c.reduced_formula
        if c.is_element:
            if e in pd.el_refs.values():
                want[("gibbs", f, e.entry_id)] = 0.0
            continue
        srcs = []
        for name, cl in (("nist", NISTReferenceEntry), ("freed", FREEDReferenceEntry)):
            if not o[f"include_{name}_data"] or f not in cl.REFERENCES:
                continue
            if name == "nist" and o["ignore_nist_solids"] and f in IGNORE_NIST_SOLIDS:
                continue
            g = cl.REFERENCES[f]
            if not min(g) <= T <= max(g):
                continue
            srcs.append((name, tab(g, T)))
        co2 = 8.617e-5 * T * math.log(0.0004) / 3 if o["apply_atmospheric_co2_correction"] and f == "CO2" else 0.0
        if srcs:
            for name, g in srcs:
                want[(name, f, None)] = g / Composition(f).num_atoms + co2
            continue
        corr = 0.0
        d = c.get_el_amt_dict()
        if o["apply_carbonate_correction"] and d.get("C") and d.get("O") and abs(d["O"] / d["C"] - 3) < 1e-8 and e.parameters["run_type"] in ("GGA", "GGA+U"):
            from rxn_network.entries.corrections import CARBONATE_CORRECTION

            corr = CARBONATE_CORRECTION * d["C"] / c.num_atoms
        want[("gibbs", f, e.entry_id)] = gibbs_energy(c, pd.get_form_energy_per_atom(e), e.structure.volume / e.structure.num_sites, T) / c.num_atoms + corr + co2
    return want, pd


def kind(e):
    if isinstance(e, NISTReferenceEntry):
        return ("nist", e.composition.reduced_formula, None)
    if isinstance(e, FREEDReferenceEntry):
        return ("freed", e.composition.reduced_formula, None)
    return ("gibbs", e.composition.reduced_formula, e.entry_id)


def verify(rng, entries, T, o, s):
    want, pd = expected(entries, T, o)
    got = Counter(kind(e) for e in s)
    check(set(got) == set(want), "missing %s, extra %s", set(want) - set(got), set(got) - set(want))
    check(all(v == 1 for v in got.values()), "duplicated: %s", [k for k, v in got.items() if v > 1])
    for e in s:
        k = kind(e)
        check(close(e.energy_per_atom, want[k], 1e-7), "%s: energy per atom %s, expected %s", k, e.energy_per_atom, want[k])
        check(e.temperature == T, "%s is at %s K instead of %s K", k, e.temperature, T)
        if o["minimize_obj_size"]:
            check(not e.parameters and set(e.data) <= {"e_above_hull"}, "%s keeps metadata", k)
        if o["calculate_e_above_hulls"]:
            check("e_above_hull" in e.data, "%s has no energy above hull", k)
        elif not o["minimize_obj_size"]:
            check("e_above_hull" not in e.data, "energy above hull not asked for")
    check(s.calculate_e_above_hulls == o["calculate_e_above_hulls"] and s.minimize_obj_size == o["minimize_obj_size"], "options of the set")
    if o["calculate_e_above_hulls"] and len({str(x) for e in s for x in e.composition.elements}) < 9:
        p2 = PhaseDiagram(list(s))
        for e in s:
            check(close(e.data["e_above_hull"], p2.get_e_above_hull(e), 1e-6), "energy above hull of %s", e)


def opts(rng):
    return {"include_nist_data": rng.random() < 0.6, "include_freed_data": rng.random() < 0.4, "apply_carbonate_correction": rng.random() < 0.6,
            "apply_atmospheric_co2_correction": rng.random() < 0.6, "ignore_nist_solids": rng.random() < 0.5, "calculate_e_above_hulls": rng.random() < 0.3, "minimize_obj_size": rng.random() < 0.3}


@case("convert", 160, bound="<=20 structures over <=4 elements, all option combinations, T in [300, 2000] incl. non-tabulated", timeout=110)
def convert(rng):
    els = pool(rng)
    if rng.random() < 0.5:
        els = rng.choice([["Li", "C", "O"], ["Ca", "C", "O"], ["Mg", "Si", "O"], ["Fe", "C", "O"]])
    entries = chem(rng, els, rng.randint(2, 8))
    T = rng.choice([300, 400, 650, 900, 1000, 1234, 1600, 2000, 300.0])
    o = opts(rng)
    s = GibbsEntrySet.from_computed_entries(entries, T, **o)
    verify(rng, entries, T, o, s)
    return f"{els} T={T} {o} {len(s)}"


@case("defaults", 40, bound="<=20 structures over <=4 elements, default options")
def defaults(rng):
    els = rng.choice([["Li", "C", "O"], ["Ca", "C", "O"], ["Mg", "Si", "O"], ["Fe", "C", "O"], ["Ba", "Ti", "O", "C"]])
    entries = chem(rng, els, rng.randint(2, 8))
    T = rng.choice([300, 900])
    o = {"include_nist_data": True, "include_freed_data": False, "apply_carbonate_correction": True, "apply_atmospheric_co2_correction": True, "ignore_nist_solids": True, "calculate_e_above_hulls": False, "minimize_obj_size": False}
    verify(rng, entries, T, o, GibbsEntrySet.from_computed_entries(entries, T))
    return f"{els} T={T}"


@case("large", 60, bound="10-11 elements (expanded phase diagrams), <=30 structures", timeout=110)
def large(rng):
    els = rng.sample(["Li", "C", "O", "Ca", "Mg", "Si", "Fe", "Na", "Cl", "Ba", "Ti", "S", "K"], rng.choice([10, 10, 11]))
    out = []
    for k, e in enumerate(els):
        out.append(structure_entry(rng, e, -rng.uniform(1, 8), f"el-{k}", rng.randint(1, 3)))
    fs = [f for f in KNOWN if {str(x) for x in Composition(f).elements} <= set(els)]
    for k, f in enumerate(rng.sample(fs, min(len(fs), 9)) + [formula(rng, rng.sample(els, 3)) for _ in range(5)]):
        if not Composition(f).is_element:
            out.append(structure_entry(rng, f, -rng.uniform(1, 9), f"mp-{k}", rng.randint(1, 2)))
    rng.shuffle(out)
    T = rng.choice([300, 900, 1250])
    o = opts(rng)
    s = GibbsEntrySet.from_computed_entries(out, T, **o)
    # oracle per compound from the smallest phase diagram that holds it
    elems = [e for e in out if e.composition.is_element]
    want = {}
    for e in out:
        sub = [x for x in elems if x.composition.elements[0] in e.composition.elements]
        w, _ = expected(sub + ([e] if e not in sub else []), T, o)
        want.update(w)
    got = Counter(kind(e) for e in s)
    check(set(got) == set(want), "missing %s, extra %s", set(want) - set(got), set(got) - set(want))
    check(all(v == 1 for v in got.values()), "duplicated: %s", [k for k, v in got.items() if v > 1])
    for e in s:
        check(close(e.energy_per_atom, want[kind(e)], 1e-7), "%s: energy per atom %s, expected %s", kind(e), e.energy_per_atom, want[kind(e)])
        check(e.temperature == T, "temperature")
        if o["minimize_obj_size"]:
            check(not e.parameters and set(e.data) <= {"e_above_hull"}, "%s keeps metadata", kind(e))
        if o["calculate_e_above_hulls"]:
            check(e.data.get("e_above_hull") is not None, "%s has no energy above hull", kind(e))
    check(s.calculate_e_above_hulls == o["calculate_e_above_hulls"] and s.minimize_obj_size == o["minimize_obj_size"], "options of the set")
    return f"{els} T={T} {o} {len(s)}"
