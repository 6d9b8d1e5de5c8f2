"""R20 bounded: the network graph."""
from collections import Counter

from harness.gen import *  # noqa: F403
from rxn_network.costs.base import CostFunction
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.network.network import ReactionNetwork, get_edge_weight
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check


def make_rxns(rng, nmin=2, nmax=12):
    els = pool(rng, rng.choice([2, 3]))
    es = gibbs_entries(rng, els, rng.randint(2, 5), polymorphs=rng.choice([0, 0, 1]))
    oel = els[0] if rng.random() < 0.2 else None
    rxs = computed_rxns(rng, es, rng.randint(nmin, nmax), open_el=oel, mu=-1.0)
    rxs = [r for r in rxs if not oel or len(r.entries) >= 2]
    out = []
    for r in rxs:
        out.append(r)
        if rng.random() < 0.4:
            out.append(r.reverse())
        if rng.random() < 0.15:
            out.append(r.normalize_to(r.reactants[0], rng.uniform(0.5, 3)))
    out = [r for r in out if r.reactant_entries and r.product_entries]
    rng.shuffle(out)
    if not out:
        raise Skip
    return es, ReactionSet.from_rxns(out)


def nid(n):
    return (n.description.name, frozenset(ekey(e) for e in n.entries))


def eid(o):
    return o if isinstance(o, str) else rkey(o)


def graph_of(g):
    """(nodes, edges) of a graph as multisets"""
    nodes = {i: nid(g.get_node_data(i)) for i in g.node_indices()}
    edges = Counter((nodes[a], nodes[b], eid(o)) for a, b, o in g.edge_index_map().values())
    return Counter(nodes.values()), edges


def reference(rxs, prec, targ):
    """the graph the reactions, precursors and target call for"""
    edges = Counter()
    R, P = set(), set()
    for r in rxs:
        a = frozenset(ekey(e) for e, c in zip(r.entries, r.coefficients) if c < 0)
        b = frozenset(ekey(e) for e, c in zip(r.entries, r.coefficients) if c > 0)
        R.add(a)
        P.add(b)
        edges[(("Reactants", a), ("Products", b), rkey(r))] += 1
    nodes = Counter([("Reactants", a) for a in R] + [("Products", b) for b in P])
    for b in P:
        for a in R:
            if a == b or (prec is not None and not a <= prec and a <= b | prec):
                edges[(("Products", b), ("Reactants", a), "loopback_edge")] += 1
    if prec is not None:
        nodes[("Precursors", prec)] += 1
        for a in R:
            if a <= prec:
                edges[(("Precursors", prec), ("Reactants", a), "precursor_edge")] += 1
    if targ is not None:
        nodes[("Target", frozenset([targ]))] += 1
        for b in P:
            if targ in b:
                edges[(("Products", b), ("Target", frozenset([targ])), "target_edge")] += 1
    return nodes, edges


def compare(rn, rxs, prec, targ):
    n, e = graph_of(rn.graph)
    wn, we = reference(rxs, prec, targ)
    check(n == wn, "nodes: missing %s, unexpected %s", wn - n, n - wn)
    check(set(e) == set(we), "edges: missing %s, unexpected %s", [k for k in we if k not in e], [k for k in e if k not in we])
    check(e == we, "edges are repeated: %s", e - we)


@case("graph", 250, bound="<=30 reactions, <=7 settings of precursors and target by entry or formula, rebuilds", timeout=90)
def graph(rng):
    es, rs = make_rxns(rng)
    rxs = list(rs)
    cf = rng.choice([None, Softplus(temp=rng.uniform(200, 1500)), WeightedSum(params=["energy"], weights=[2.0])])
    rn = ReactionNetwork(rs, cost_function=cf) if cf or rng.random() < 0.5 else ReactionNetwork(rs)
    rn.build()
    compare(rn, rxs, None, None)
    ents = list(rn.entries)
    ents.sort(key=ekey)
    prec = targ = None
    log = []
    for _ in range(rng.randint(1, 7)):
        op = rng.random()
        if op < 0.5:
            p = rng.sample(ents, rng.randint(1, min(4, len(ents))))
            if rng.random() < 0.2 and prec is not None:
                p = [e for e in ents if ekey(e) in prec]
            if rng.random() < 0.4:
                rn.set_precursors([e.composition.reduced_formula for e in p])
                p = [min((q for q in ents if q.composition.reduced_formula == e.composition.reduced_formula), key=lambda q: q.energy_per_atom) for e in p]
            else:
                rn.set_precursors(rng.choice([list, set, tuple])(p))
            prec = frozenset(ekey(e) for e in p)
            check(frozenset(ekey(e) for e in rn.precursors) == prec, "precursors %s", rn.precursors)
            log.append("P")
        elif op < 0.9:
            t = rng.choice(ents)
            if rng.random() < 0.4:
                rn.set_target(t.composition.reduced_formula)
                t = min((q for q in ents if q.composition.reduced_formula == t.composition.reduced_formula), key=lambda q: q.energy_per_atom)
            else:
                rn.set_target(t)
            targ = ekey(t)
            check(ekey(rn.target) == targ, "target %s", rn.target)
            log.append("T")
        elif op < 0.96:
            foreign = gentry(rng, "Ti7N5", entry_id="foreign")
            for f in (lambda: rn.set_precursors([foreign]), lambda: rn.set_target(foreign)):
                try:
                    f()
                except ValueError:
                    continue
                check(False, "a phase outside the network is accepted")
            log.append("F")
        else:
            rn.build()
            prec = targ = None
            log.append("B")
        compare(rn, rxs, prec, targ)
    for a, b, o in rn.graph.edge_index_map().values():
        w = get_edge_weight(o, rn.cost_function)
        check(close(w, 0.0 if isinstance(o, str) else rn.cost_function.evaluate(o)), "weight of %s is %s", o, w)
    check([rkey(r) for r in rn.rxns] == [rkey(r) for r in rxs], "the reactions changed")
    return f"{len(rxs)} {''.join(log)}"
