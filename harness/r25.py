"""R25 bounded: dictionaries and JSON."""
import copy
import json

import numpy as np
from monty.json import MontyDecoder, MontyEncoder
from pymatgen.core.composition import Element
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

from harness.gen import *  # noqa: F403
from harness.r20 import graph_of, make_rxns
from harness.r19 import hull_case
from harness.r23 import make_path, state as pstate
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.interpolated import InterpolatedEntry
from rxn_network.entries.nist import NISTReferenceEntry
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.network.network import ReactionNetwork
from rxn_network.pathways.pathway_set import PathwaySet
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check


def plain(x):
    """comparable plain data"""
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=str)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, Element):
        return x.symbol
    return repr(x)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return not isinstance(a, (str, list, dict)) and not isinstance(b, (str, list, dict)) and None not in (a, b) and (close(a, b, 1e-10, 1e-10) or (a != a and b != b))
    return type(a) is type(b) and a == b


def entry(e):
    return [
        type(e).__name__,
        {str(k): float(v) for k, v in e.composition.items()},
        float(e.energy),
        str(e.entry_id),
        plain(getattr(e, "temperature", None)) if getattr(e, "temperature", None) is None else float(e.temperature),
        sorted(([a.name, float(a.value), float(a.uncertainty)] for a in e.energy_adjustments), key=str),
        plain(e.data),
        plain(e.parameters),
        bool(e.is_experimental),
    ]


def reaction(r):
    s = snapshot(r)
    s["cls"] = type(r).__name__
    if hasattr(r, "entries"):
        s["entries"] = [entry(e) for e in r.entries]
        s["E"] = float(r.energy)
        s["Ea"] = float(r.energy_per_atom)
    return plain(s)


def rset(s):
    return [
        [entry(e) for e in s.entries],
        str(s.open_elem) if s.open_elem else None,
        float(s.chempot),
        [reaction(r) for r in s.get_rxns()],
    ]


def hull(h):
    return [h.c1.reduced_formula, h.c2.reduced_formula, plain(np.sort(h.coords, axis=0)), sorted(str(reaction(r)) for r in h.reactions)]


def opts(o):
    return {k: plain(v) for k, v in vars(o).items() if not k.startswith("_abc") and not callable(v) and k not in ("logger",)}


def network(n):
    g = None
    if n.graph is not None:
        ns, es = graph_of(n.graph)
        flat = lambda x: [flat(y) for y in sorted(x, key=str)] if isinstance(x, frozenset) else [flat(y) for y in x] if isinstance(x, tuple) else str(x)  # noqa: E731
        g = [sorted(str((flat(k), v)) for k, v in m.items()) for m in (ns, es)]
    return [
        rset(n.rxns),
        opts(n.cost_function),
        sorted(str(ekey(e)) for e in n.precursors) if n.precursors is not None else None,
        str(ekey(n.target)) if n.target is not None else None,
        g,
    ]


def through(o, view, how):
    """obj -> dict -> obj, or through JSON"""
    before = view(o)
    if how == "dict":
        d = o.as_dict()
        keep = copy.deepcopy(d)
        again = type(o).from_dict(d)
        check(json.dumps(plain(d), sort_keys=True, default=str) == json.dumps(plain(keep), sort_keys=True, default=str), "the dictionary of a %s changed when it was read", type(o).__name__)
        twice = view(type(o).from_dict(d))
        if not same(twice, before):
            check(False, "%s reads back differently the second time: %s, was %s", type(o).__name__, *diff(twice, before))
    elif how == "json":
        again = json.loads(json.dumps(o, cls=MontyEncoder), cls=MontyDecoder)
    else:
        again = type(o).from_dict(json.loads(json.dumps(o.as_dict(), cls=MontyEncoder)))
    check(same(view(o), before), "%s changed when it was written", type(o).__name__)
    check(type(again) is type(o), "%s reads back as %s (%s)", type(o).__name__, type(again).__name__, how)
    v = view(again)
    if not same(v, before):
        check(False, "%s reads back differently (%s): %s, was %s", type(o).__name__, how, *diff(v, before))
    return again


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in set(a) | set(b):
            if k not in a or k not in b:
                return (k if k in a else f"without {k}"), (k if k in b else f"without {k}")
            if not same(a[k], b[k]):
                return diff(a[k], b[k])
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if not same(x, y):
                return diff(x, y)
    return str(a)[:600], str(b)[:600]


HOWS = ["dict", "json", "dictjson"]


def some_entry(rng):
    kind = rng.choice(["gibbs", "gibbs", "nist", "freed", "interp"])
    adj = []
    if rng.random() < 0.4:
        adj.append(ConstantEnergyAdjustment(rng.uniform(-1, 1), uncertainty=rng.uniform(0, 0.3), name="shift"))
    T = rng.choice([300, 500, 1000, 1234.5, 412])
    data = rng.choice([None, {}, {"theoretical": False, "e_above_hull": 0.03}, {"icsd_ids": [1, 2], "note": "x", "nested": {"a": [1.5, None]}}])
    if kind in ("nist", "freed"):
        cl = NISTReferenceEntry if kind == "nist" else FREEDReferenceEntry
        f = rng.choice(sorted(cl.REFERENCES))
        g = cl.REFERENCES[f]
        if Composition(f).reduced_formula != f or not min(g) <= T <= max(g):
            raise Skip
        if f == "CO2":
            adj.append(CarbonDioxideAtmosphericCorrection(3, T))
        return cl(Composition(f), T, energy_adjustments=adj or None, data=data)
    els = pool(rng, 3)
    f = rng.choice([formula(rng, els), "CaCO3", "CO2", "Li2CO3"])
    c = Composition(f) * rng.choice([1, 1, 2, 3, 0.5])
    if "C" in f and rng.random() < 0.3:
        adj.append(CarbonateCorrection(rng.randint(1, 3)))
    if kind == "interp":
        return InterpolatedEntry(c, rng.uniform(-9, 2), energy_adjustments=adj or None, data=data, entry_id=rng.choice([None, "abc"]))
    return GibbsComputedEntry(
        c, 0.0 if c.is_element else -rng.uniform(0, 3), rng.uniform(5, 40), T, energy_adjustments=adj or None, data=data,
        parameters=rng.choice([None, {"run_type": "GGA+U", "hubbards": {"Fe": 5.3}}]), entry_id=rng.choice([None, "mp-1", "interpolated"]),
    )


@case("entries", 300, bound="entries of all kinds with adjustments, data, fractional and float values", timeout=60)
def entries(rng):
    e = some_entry(rng)
    how = rng.choice(HOWS)
    again = through(e, entry, how)
    check(again == e and hash(again) == hash(e), "%s is not equal to its copy (%s)", type(e).__name__, how)
    return f"{type(e).__name__} {how} {e.composition}"


@case("entry_sets", 60, bound="<=10 entries with every option", timeout=60)
def entry_sets(rng):
    els = pool(rng, 2)
    es = gibbs_entries(rng, els, rng.randint(1, 5), polymorphs=rng.choice([0, 1]), adj=rng.random() < 0.3)
    s = GibbsEntrySet(es, calculate_e_above_hulls=rng.random() < 0.4, minimize_obj_size=rng.random() < 0.3)
    if rng.random() < 0.4 and not s.minimize_obj_size:
        s.build_indices()

    def view(s):
        return [sorted((entry(e) for e in s), key=str), s.calculate_e_above_hulls, s.minimize_obj_size]

    again = through(s, view, rng.choice(HOWS))
    check(set(again) == set(s), "entry sets differ")
    return str(len(s))


@case("reactions", 300, bound="reactions of <=6 phases, multiples, open elements, data", timeout=60)
def reactions(rng):
    es, rs = make_rxns(rng)
    r = rng.choice(list(rs))
    if rng.random() < 0.4:
        r = r.normalize_to(rng.choice(r.compositions), rng.uniform(0.2, 3))
    r.data = rng.choice([{}, {"cost": 0.3, "n": 2}, {"primary_competition": np.float64(0.25), "k": np.int64(3)}, {"a": {"b": [1, "x"]}}])
    how = rng.choice(HOWS)
    if rng.random() < 0.3:
        b = BasicReaction(r.compositions, r.coefficients, rng.random() < 0.5, r.data, r.lowest_num_errors)
        again = through(b, reaction, how)
        check(again == b, "reaction is not equal to its copy")
    again = through(r, reaction, how)
    check(again == r, "reaction is not equal to its copy")
    return f"{type(r).__name__} {how} {r}"


@case("reaction_sets", 120, bound="<=30 reactions, open element or not, data or not", timeout=60)
def reaction_sets(rng):
    es, rs = make_rxns(rng)
    if rng.random() < 0.3:
        rs = ReactionSet(rs.entries, rs.indices, rs.coeffs, rs.open_elem, rs.chempot)
    else:
        for r in rs:
            r.data["x"] = rng.random()
    n = len(rs)
    check(len(list(rs.get_rxns())) == n, "%s of %s reactions", len(list(rs.get_rxns())), n)
    again = through(rs, rset, rng.choice(HOWS))
    check(len(again) == n and [rkey(r) for r in again] == [rkey(r) for r in rs], "reactions differ")
    return str(n)


@case("pathways", 120, bound="<=6 pathways of both kinds", timeout=60)
def pathways(rng):
    es, rs = make_rxns(rng)
    rxs = list(rs)
    ps = [make_path(rng, rxs)[0] for _ in range(rng.randint(1, 6))]
    view = lambda p: plain([pstate(p), [reaction(r) for r in p.reactions]])  # noqa: E731
    p = ps[0]
    again = through(p, view, rng.choice(HOWS))
    check(again == p, "pathway is not equal to its copy")
    s = PathwaySet.from_paths(ps)
    through(s, lambda s: [view(p) for p in s.paths], rng.choice(HOWS))
    return str(len(ps))


@case("hulls", 60, bound="hulls of <=9 reactions", timeout=60)
def hulls(rng):
    a, b, rxs, oel, mu = hull_case(rng, open_el=rng.random() < 0.3)
    try:
        h = InterfaceReactionHull(a.composition, b.composition, rxs)
    except ValueError:
        raise Skip from None
    again = through(h, hull, rng.choice(HOWS))
    for r in rxs:
        check(close(again.get_primary_competition(r), h.get_primary_competition(r)), "primary competition differs")
        check(close(again.get_secondary_competition(r), h.get_secondary_competition(r)), "secondary competition differs")
    return str(len(rxs))


@case("settings", 200, bound="cost functions and enumerators with every option", timeout=60)
def settings(rng):
    k = rng.randrange(6)
    w = [rng.uniform(-1, 2) for _ in range(2)]
    p = rng.choice([None, ["energy"], ["energy_per_atom", "num_constraints"]])
    if k == 0:
        o = Softplus(rng.choice([300, 812.5]), p, None if p is None else w[: len(p)])
    elif k == 1:
        o = WeightedSum(p, None if p is None else w[: len(p)])
    else:
        kw = dict(
            precursors=rng.choice([None, ["Li2O", "CO2"]]), targets=rng.choice([None, ["Li2CO3"]]),
            exclusive_precursors=rng.random() < 0.5, exclusive_targets=rng.random() < 0.5, filter_duplicates=rng.random() < 0.5,
            filter_by_chemsys=rng.choice([None, "C-Li-O"]), chunk_size=rng.choice([10, 500]), max_num_jobs=rng.choice([7, 5000]),
            remove_unbalanced=rng.random() < 0.5, remove_changed=rng.random() < 0.5, max_num_constraints=rng.choice([1, 2]), quiet=rng.random() < 0.5,
        )
        for x in list(kw):
            if rng.random() < 0.3:
                del kw[x]
        if k == 2:
            o = BasicEnumerator(n=rng.choice([1, 2, 3]), **kw)
        elif k == 3:
            o = BasicOpenEnumerator(open_phases=rng.choice([["O2"], ["O2", "CO2"]]), n=rng.choice([1, 2, 3]), **kw)
        elif k == 4:
            o = MinimizeGibbsEnumerator(**kw)
        else:
            o = MinimizeGrandPotentialEnumerator(open_elem=rng.choice(["O", Element("O")]), mu=rng.choice([-1, -0.25]), **kw)
    again = through(o, opts, rng.choice(HOWS))
    return f"{type(o).__name__} {opts(again)}"


@case("networks", 60, bound="networks of <=30 reactions with and without graph, precursors and target", timeout=90)
def networks(rng):
    es, rs = make_rxns(rng, 2, 8)
    stage = rng.randrange(4)
    n = ReactionNetwork(rs, cost_function=Softplus(temp=500) if stage > 2 else rng.choice([Softplus(temp=500), WeightedSum(params=["energy"], weights=[0.5])]))
    if stage:
        n.build()
        ents = sorted(n.entries, key=ekey)
        if stage > 1:
            n.set_precursors(rng.sample(ents, rng.randint(1, min(3, len(ents)))))
        if stage > 2:
            n.set_target(rng.choice(ents))
    again = through(n, network, rng.choice(HOWS))
    if stage > 2:
        a, b = ([(pstate(p)[1:3]) for p in x.find_pathways([n.target], k=3)] for x in (n, again))
        check(sorted(round(sum(c), 9) for _, c in a) == sorted(round(sum(c), 9) for _, c in b), "pathways differ")
    return str(stage)
