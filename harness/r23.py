"""R23 bounded: pathways and pathway sets."""
import pickle

import numpy as np

from harness.gen import *  # noqa: F403
from harness.r20 import make_rxns
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.pathway_set import PathwaySet
from vlib import Skip, case, check


def make_path(rng, rxs, kind=None):
    rx = [rng.choice(rxs) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    if rng.random() < 0.7:
        rx = list(dict.fromkeys(rx))
    costs = [rng.uniform(0.01, 2) for _ in rx]
    kind = kind or rng.choice("bB")
    if kind == "b":
        return BasicPathway(rx, costs if rng.random() < 0.8 else None), kind
    ml = [rng.uniform(0.1, 3) for _ in rx]
    if rng.random() < 0.3:
        ml = np.array(ml)
    bal = rng.random() < 0.5
    return BalancedPathway(reactions=rx, coefficients=ml, costs=costs, balanced=bal), kind


def state(p):
    return (
        type(p).__name__,
        tuple(rkey(r) for r in p.reactions),
        tuple(float(x) for x in p.costs),
        tuple(float(x) for x in getattr(p, "coefficients", ())),
        getattr(p, "balanced", None),
    )


def same_steps(a, b):
    sa, sb = state(a), state(b)
    return sa[0] == sb[0] and sa[1] == sb[1]


@case("members", 300, bound="<=4 steps of <=20 reactions with shared phases, open elements and polymorphs", timeout=60)
def members(rng):
    es, rs = make_rxns(rng)
    p, kind = make_path(rng, list(rs))
    used, made = set(), set()
    for r in p.reactions:
        for c, x in zip(r.compositions, r.coefficients):
            (used if x < 0 else made).add(c.reduced_formula)
    f = lambda cs: {c.reduced_formula for c in cs}  # noqa: E731
    check(f(p.all_reactants) == used and f(p.all_products) == made, "all reactants %s products %s", p.all_reactants, p.all_products)
    check(f(p.reactants) == used - made, "reactants %s", p.reactants)
    check(f(p.products) == made - used, "products %s", p.products)
    check(f(p.intermediates) == used & made, "intermediates %s", p.intermediates)
    check(f(p.compositions) == used | made and len(p.compositions) == len(used | made), "compositions %s", p.compositions)
    check({ekey(e) for e in p.entries} == {ekey(e) for r in p.reactions for e in r.entries}, "entries")
    check(close(p.energy, sum(r.energy for r in p.reactions)), "energy %s", p.energy)
    check(close(p.energy_per_atom, sum(r.energy_per_atom for r in p.reactions)), "energy per atom %s", p.energy_per_atom)
    check(close(p.total_cost, sum(p.costs)), "total cost %s", p.total_cost)
    check(p.is_experimental == all(e.is_experimental for r in p.reactions for e in r.entries), "is_experimental %s", p.is_experimental)
    if kind == "B":
        w = sum(float(m) for m in p.coefficients)
        check(close(p.average_cost, sum(float(m) * c for m, c in zip(p.coefficients, p.costs)) / w), "average cost %s", p.average_cost)
    return str(state(p)[:3])


@case("equality", 300, bound="pairs of pathways differing in one step, cost, multiplicity, length or order", timeout=60)
def equality(rng):
    es, rs = make_rxns(rng)
    rxs = list(rs)
    p, kind = make_path(rng, rxs)
    twin = pickle.loads(pickle.dumps(p))
    check(twin == p and p == twin, "a copy of a pathway is not equal to it")
    check(hash(twin) == hash(p), "equal pathways have different hashes")
    check(twin in {p} and p in [twin], "a copy of a pathway is not found in a set")
    rx, costs = list(p.reactions), list(p.costs)
    how = rng.choice(["step", "cost", "short", "long", "order", "mult", "kind"])
    ml = [float(x) for x in getattr(p, "coefficients", [])]
    differ = True
    if how == "step":
        i = rng.randrange(len(rx))
        o = rng.choice(rxs)
        differ = o != rx[i]
        rx[i] = o
    elif how == "cost":
        if not costs:
            raise Skip
        costs[rng.randrange(len(costs))] += rng.choice([0.5, -0.005, 1.0])
        differ = kind == "B"
    elif how == "short":
        i = rng.choice([0, len(rx) - 1])
        del rx[i]
        if costs:
            del costs[i]
        if ml:
            del ml[i]
    elif how == "long":
        i = rng.choice([0, len(rx)])
        rx.insert(i, rng.choice(rxs))
        if costs or kind == "B":
            costs.insert(i, 0.4)
        if ml:
            ml.insert(i, 1.0)
    elif how == "order":
        if len(rx) < 2 or len(set(rx)) != len(rx):
            raise Skip
        rx, costs, ml = rx[::-1], costs[::-1], ml[::-1]
        differ = kind == "b" and all(a != b for a, b in zip(rx, p.reactions))
        if not differ:
            raise Skip
    elif how == "mult":
        if kind != "B":
            raise Skip
        ml[0] *= 2
        differ = None
    else:
        kind = "b" if kind == "B" else "B"
        ml = ml or [1.0] * len(rx)
        costs = costs or [1.0] * len(rx)
    q = BasicPathway(rx, costs) if kind == "b" else BalancedPathway(rx, ml, costs)
    for a, b in ((p, q), (q, p)):
        if differ is True:
            check(not a == b and a != b, "pathways that differ in %s are equal: %s and %s", how, state(a), state(b))
        elif differ is False:
            check(a == b, "pathways with the same steps are not equal (%s)", how)
        if a == b:
            # (the hash of a reaction sees rounding that its equality does not)
            check(hash(a) == hash(b) or [hash(x) for x in a.reactions] != [hash(x) for x in b.reactions], "equal pathways have different hashes (%s)", how)
            check(how not in ("short", "long", "kind"), "pathways that differ in %s are equal", how)
    return f"{how}{kind}{len(rx)}"


@case("pathway_set", 300, bound="<=8 pathways, mixed kinds, repeated reactions and multiples of reactions", timeout=60)
def pathway_set(rng):
    es, rs = make_rxns(rng)
    rxs = list(rs)
    kind = rng.choice(["b", "B", None])
    ps = [make_path(rng, rxs, kind)[0] for _ in range(rng.randint(1, 8))]
    before = [state(p) for p in ps]
    s = PathwaySet.from_paths(ps)
    back = s.paths
    check([state(p) for p in ps] == before, "storing pathways changes them")
    check(len(back) == len(ps) == len(s), "%s of %s pathways", len(back), len(ps))
    for p, q in zip(ps, back):
        check(type(q) is type(p), "%s is read back as %s", type(p), type(q))
        a, b = state(p), state(q)
        check(len(p.reactions) == len(q.reactions) and all(x == y for x, y in zip(p.reactions, q.reactions)), "steps %s are read back as %s", p, q)
        check(a[1] == b[1], "the phases or amounts of %s are read back as %s", p, q)
        check(a[2:] == b[2:], "costs, multiplicities or flag %s are read back as %s", a[2:], b[2:])
        check(p == q, "pathway %s is read back unequal", p)
    check([state(p) for p in s] == [state(p) for p in back], "iteration differs from the list of pathways")
    return str(len(ps)) + str(kind)
