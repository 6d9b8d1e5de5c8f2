"""R21 bounded: k shortest paths."""
import itertools

from harness.gen import *  # noqa: F403
from harness.r20 import eid, graph_of, make_rxns, nid
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.network.base import Graph
from rxn_network.network.network import ReactionNetwork, get_edge_weight, yens_ksp
from vlib import Skip, case, check


def all_paths(g, cf, s, t, limit=20000):
    """{path: cost} of every simple path, by exhaustion"""
    w = {}
    for a, b, o in g.edge_index_map().values():
        c = get_edge_weight(o, cf)
        w.setdefault(a, {})
        w[a][b] = min(c, w[a].get(b, float("inf")))
    out = {}
    todo = [((s,), 0.0)]
    steps = 0
    while todo:
        p, c = todo.pop()
        steps += 1
        if steps > limit:
            raise Skip
        if p[-1] == t:
            out[p] = c
            continue
        for b, x in w.get(p[-1], {}).items():
            if b not in p:
                todo.append(((*p, b), c + x))
    return out


def verify_paths(g, cf, k, s, t):
    ref = all_paths(g, cf, s, t)
    before = graph_of(g) if hasattr(g.get_node_data(s), "entries") else sorted(map(str, g.edge_index_map().items()))
    out = [tuple(p) for p in yens_ksp(g, cf, k, s, t)]
    after = graph_of(g) if hasattr(g.get_node_data(s), "entries") else sorted(map(str, g.edge_index_map().items()))
    check(after == before, "the graph changed")
    for p in out:
        check(p and p[0] == s and p[-1] == t, "path %s does not lead from %s to %s", p, s, t)
        check(len(set(p)) == len(p), "path %s visits a node twice", p)
        check(p in ref, "path %s does not follow the edges", p)
    check(len(set(out)) == len(out), "a path is returned twice: %s", out)
    costs = [ref[p] for p in out]
    check(all(a <= b + 1e-9 for a, b in zip(costs, costs[1:])), "costs are not sorted: %s", costs)
    best = sorted(ref.values())[:k]
    check(len(out) == len(best), "%s paths for k=%s of %s", len(out), k, len(ref))
    check(all(close(a, b, 1e-9) for a, b in zip(costs, best)), "costs %s, cheapest are %s", costs, best)
    return ref, out


@case("graphs", 500, bound="random directed graphs of <=9 nodes with parallel edges, k<=12", timeout=90)
def graphs(rng):
    es = gibbs_entries(rng, ["Li", "O"], 2)
    rx = computed_rxn(rng, es)
    g = Graph()
    n = rng.randint(2, 9)
    g.add_nodes_from([f"n{i}" for i in range(n)])
    dens = rng.choice([0.2, 0.35, 0.55])
    for a in range(n):
        for b in range(n):
            for _ in range(2):
                if a != b and rng.random() < dens * (0.3 if _ else 1):
                    if rng.random() < 0.25:
                        g.add_edge(a, b, rng.choice(["loopback_edge", "precursor_edge", "target_edge"]))
                    else:
                        r = rx.copy()
                        r.data = {"w": rng.choice([1.0, 2.0, rng.uniform(0.1, 4)])}
                        g.add_edge(a, b, r)
    cf = WeightedSum(params=["w"], weights=[1.0])
    k = rng.choice([1, 2, 3, 5, 8, 12])
    s, t = rng.sample(range(n), 2)
    ref, out = verify_paths(g, cf, k, s, t)
    return f"{n} {g.num_edges()} {k} {out}"


def stepkey(pw):
    """the reactant and product phases of each step"""
    return tuple(
        (frozenset(ekey(e) for e, c in zip(r.entries, r.coefficients) if c < 0), frozenset(ekey(e) for e, c in zip(r.entries, r.coefficients) if c > 0))
        for r in pw.reactions
    )


@case("pathways", 120, bound="networks of <=30 reactions, 1-3 targets, k<=8", timeout=90)
def pathways(rng):
    es, rs = make_rxns(rng, 4, 14)
    cf = rng.choice([Softplus(temp=rng.uniform(200, 1500)), Softplus()])
    rn = ReactionNetwork(rs, cost_function=cf)
    rn.build()
    ents = sorted(rn.entries, key=ekey)
    if len(ents) < 3:
        raise Skip
    for _ in range(rng.randint(0, 2)):
        rn.set_precursors(rng.sample(ents, rng.randint(1, 2)))
    prec = rng.sample(ents, rng.randint(1, 2))
    rn.set_precursors(prec)
    targets = rng.sample([e for e in ents if e not in prec], rng.randint(1, min(3, len(ents) - len(prec))))
    k = rng.choice([1, 2, 4, 8])
    want = []
    ret = rn.find_pathways(list(targets), k=k)
    got = list(ret.get_paths() if hasattr(ret, "get_paths") else ret)
    pos = 0
    for t in targets:
        rn.set_target(t)
        g = rn.graph
        ix = {nid(g.get_node_data(i)): i for i in g.node_indices()}
        s, d = ix[("Precursors", frozenset(ekey(e) for e in prec))], ix[("Target", frozenset([ekey(t)]))]
        ref, out = verify_paths(g, cf, k, s, d)
        lists = {}
        for p in ref:
            steps = []
            for a, b in zip(p, p[1:]):
                if g.get_node_data(b).description.name == "Products":
                    w = [(get_edge_weight(o, cf), eid(o)) for x, y, o in g.edge_index_map().values() if (x, y) == (a, b)]
                    low = min(c for c, _ in w)
                    steps.append((low, (nid(g.get_node_data(a))[1], nid(g.get_node_data(b))[1])))
            lists[tuple(i for _, i in steps)] = [c for c, _ in steps]
        best = sorted(sum(c) for c in lists.values())[:k]
        mine = got[pos: pos + len(best)]
        pos += len(best)
        check(len(mine) == len(best), "%s pathways to %s, not %s", len(mine), t.composition, len(best))
        for pw, b in zip(mine, best):
            key = stepkey(pw)
            alt = tuple(sorted(key, key=str))
            cand = [v for q, v in lists.items() if q == key or tuple(sorted(q, key=str)) == alt]
            check(cand, "pathway %s is no path of the network", [str(r) for r in pw.reactions])
            check(close(pw.total_cost, b, 1e-8), "pathway cost %s, not %s", pw.total_cost, b)
            check(all(close(c, cf.evaluate(r)) for r, c in zip(pw.reactions, pw.costs)), "costs of the steps")
        check(len({stepkey(p) for p in mine}) == len(mine), "a pathway is repeated")
        want += best
    check(len(got) == len(want), "%s pathways, not %s", len(got), len(want))
    return f"{len(rs)} {k} {len(got)}"
