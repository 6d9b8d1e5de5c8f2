"""R22 bounded: balanced pathways against exhaustive search over the candidate reactions."""
import itertools
from copy import deepcopy

import numpy as np

from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from pymatgen.core.composition import Element
from rxn_network.core import Composition
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.pathway_set import PathwaySet
from rxn_network.pathways.solver import PathwaySolver
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from vlib import Skip, case, check


def vec(r, keys):
    v = np.zeros(len(keys))
    for e, c in zip(r.entries, r.coefficients):
        v[keys[ekey(e)]] += c
    return v


def make_net(rng, es, rxs, oel, mu, sizes=(2, 2, 3, 4)):
    """a net reaction with a solution, most of the time"""
    if sizes != (4,) and rng.random() < 0.15:
        return rng.choice(rxs)
    for _ in range(30):
        sub = rng.sample(rxs, min(len(rxs), rng.choice(sizes)))
        v = {}
        for r in sub:
            m = rng.choice([0.5, 1.0, 2.0, rng.uniform(0.2, 3)])
            for e, c in zip(r.entries, r.coefficients):
                v[e] = v.get(e, 0.0) + m * c
        if rng.random() < 0.6:  # let an intermediate cancel
            mid = [e for e in v if len({np.sign(dict(zip(r.entries, r.coefficients)).get(e, 0)) for r in sub} - {0}) == 2]
            if mid and len(sub) == 2:
                e = rng.choice(mid)
                a, b = (dict(zip(r.entries, r.coefficients))[e] for r in sub)
                v = {}
                for r, m in zip(sub, (1.0, -a / b)):
                    for x, c in zip(r.entries, r.coefficients):
                        v[x] = v.get(x, 0.0) + m * c
        v = {e: c for e, c in v.items() if abs(c) > 1e-9}
        if min((abs(c) for c in v.values()), default=0) < 0.01:
            continue
        if any(c < 0 for c in v.values()) and any(c > 0 for c in v.values()):
            ents = list(v)
            rng.shuffle(ents)
            co = [v[e] for e in ents]
            if oel:
                return OpenComputedReaction(ents, co, {Element(oel): mu})
            return ComputedReaction(ents, co)
    raise Skip


def truth(cands, net, keys, nmax):
    """{(candidate indices): multiplicities} certain to be solutions, and the same for anything that might be"""
    V = np.array([vec(r, keys) for r in cands]).reshape(len(cands), len(keys))
    b = vec(net, keys)
    sure, doubt = {}, set()
    for n in range(1, nmax + 1):
        for combo in itertools.combinations(range(len(cands)), n):
            A = V[list(combo)].T
            x, _, rank, sv = np.linalg.lstsq(A, b, rcond=1e-9)
            err = np.abs(A @ x - b).max()
            if err > 1e-4:
                continue
            if rank < n or sv[-1] < 1e-4 * sv[0] or err > 1e-8 or (np.abs(x) < 1e-4).any():
                doubt.add(combo)
            elif (x > 0).all():
                sure[combo] = x
    return sure, doubt


def candidates(rxs, net):
    """one reaction of each set of positive multiples"""
    out = []
    for r in rxs:
        if not any(nkey(r) == nkey(o) for o in out):
            out.append(r)
    return out


def setup(rng, open_share=0.3, nrx=None, sizes=(2, 2, 3, 4)):
    els = pool(rng, 3) if rng.random() < 0.7 else pool(rng, 2)
    es = gibbs_entries(rng, els, rng.randint(3, 5))
    oel, mu = (els[0], -rng.uniform(0.1, 2)) if rng.random() < open_share else (None, 0.0)
    ges = GibbsEntrySet(es)
    ges.build_indices()
    es = ges.entries_list
    rxs = [r for r in computed_rxns(rng, es, nrx or rng.randint(1, 11), open_el=oel, mu=mu) if r.balanced and r.reactant_entries and r.product_entries]
    rxs = [r.reverse() if rng.random() < 0.3 else r for r in rxs]
    uniq = []
    for r in rxs:
        if not any(nkey(r) == nkey(u) for u in uniq):
            uniq.append(r)
    rxs = uniq
    if len(rxs) < max(1, sizes[0] if nrx else 1):
        raise Skip
    if nrx:
        rxs = rxs[:7]
    net = make_net(rng, es, rxs, oel, mu, sizes)
    cf = rng.choice([Softplus(temp=rng.uniform(200, 1500)), WeightedSum(params=["energy_per_atom"], weights=[1.0])])
    paths, left = [], list(rxs)
    rng.shuffle(left)
    while left:
        n = rng.randint(1, 3)
        head, left = left[:n], left[n:]
        if rng.random() < 0.3:
            head.append(rng.choice(rxs))
        paths.append(BasicPathway(head, [cf.evaluate(r) for r in head]))
    return ges, rxs, net, cf, paths, oel, mu


def examine(got, cands, costs, net, ges, nmax, complete=True):
    keys = {ekey(e): i for i, e in enumerate(ges.entries_list)}
    b = vec(net, keys)
    sure, doubt = truth(cands, net, keys, nmax)
    index = {}
    for i, r in enumerate(cands):
        index[nkey(r)] = i
    seen = set()
    for p in got:
        mult = [float(x) for x in p.coefficients]
        check(len(mult) == len(p.reactions) == len(p.costs), "%s steps, %s multiplicities, %s costs", len(p.reactions), len(mult), len(p.costs))
        check(all(m > 0 for m in mult), "multiplicities %s", mult)
        total = sum(m * vec(r, keys) for m, r in zip(mult, p.reactions))
        check(np.allclose(total, b, rtol=1e-4, atol=1e-6), "steps add up to %s, net reaction is %s", total, b)
        combo = []
        for r, c in zip(p.reactions, p.costs):
            check(nkey(r) in index, "step %s is no candidate reaction", r)
            i = index[nkey(r)]
            combo.append(i)
            check(any(close(c, x, 1e-9) for x in costs[i]), "step %s has cost %s, not %s", r, c, costs[i])
        check(len(set(combo)) == len(combo), "a pathway uses a reaction twice")
        combo = tuple(sorted(combo))
        check(combo not in seen, "pathway %s is repeated", [str(r) for r in p.reactions])
        seen.add(combo)
        check(combo in sure or combo in doubt, "pathway of size %s (limit %s)", len(combo), nmax)
        check(close(p.average_cost, np.dot(mult, p.costs) / sum(mult)), "average cost %s", p.average_cost)
        check(getattr(p, "balanced", False) is True, "a balanced pathway is not marked as balanced")
    avg = [p.average_cost for p in got]
    check(all(x <= y + 1e-9 for x, y in zip(avg, avg[1:])), "average costs are not sorted: %s", avg)
    if complete:
        for combo in sure:
            check(combo in seen, "pathway %s is not found", [str(cands[i]) for i in combo])
    return seen, sure


@case("combinations", 160, bound="<=11 candidate reactions among <=9 entries, combinations of <=4, 1-8 CPUs, any chunk and batch size", timeout=110)
def combinations(rng):
    ges, rxs, net, cf, paths, oel, mu = setup(rng)
    nmax = rng.choice([1, 2, 3, 4])
    if len(rxs) > 8:
        nmax = min(nmax, 3)
    cands = [r for r in rxs if r != net]
    with fake_ray(rng):
        solver = PathwaySolver(
            PathwaySet.from_paths(paths), ges, cf, open_elem=oel, chempot=mu,
            chunk_size=rng.choice([1, 2, 7, 100000]), batch_size=rng.choice([None, None, 1, 3]),
        )
        before = [snapshot(r) for r in solver.reactions]
        interdep = rng.random() < 0.25
        got = list(solver.solve(net, max_num_combos=nmax, find_intermediate_rxns=False, filter_interdependent=interdep))
        check([snapshot(r) for r in solver.reactions] == before, "the candidate reactions changed")
    seen, sure = examine(got, cands, [[cf.evaluate(r)] for r in cands], net, ges, nmax, complete=not interdep)
    if interdep:
        for i, r in enumerate(cands):
            if (i,) in sure:
                check((i,) in seen, "the one-step pathway %s is not found", r)
    return f"{len(rxs)} {nmax} {len(seen)}"


@case("four", 80, bound="5-7 candidate reactions, net reactions of four of them, chunks of 1..6 combinations", timeout=90)
def four(rng):
    ges, rxs, net, cf, paths, oel, mu = setup(rng, 0.2, nrx=14, sizes=(4,))
    cands = [r for r in rxs if r != net]
    with fake_ray(rng):
        solver = PathwaySolver(PathwaySet.from_paths(paths), ges, cf, open_elem=oel, chempot=mu, chunk_size=rng.randint(1, 6), batch_size=rng.choice([None, 1, 3]))
        got = list(solver.solve(net, max_num_combos=4, find_intermediate_rxns=False, filter_interdependent=False))
    seen, sure = examine(got, cands, [[cf.evaluate(r)] for r in cands], net, ges, 4)
    if not any(len(c) == 4 for c in sure):
        raise Skip
    return f"{len(rxs)} {len(seen)}"


@case("intermediates", 90, bound="<=6 candidate reactions and reactions between intermediates, combinations of <=2", timeout=110)
def intermediates(rng):
    ges, rxs, net, cf, paths, oel, mu = setup(rng, 0.6)
    cutoff = rng.choice([0.0, 0.1, -0.05])
    basic, minimize = rng.choice([(True, False), (False, True), (True, True)])
    with fake_ray(rng):
        solver = PathwaySolver(PathwaySet.from_paths(paths), ges, cf, open_elem=oel, chempot=mu, chunk_size=rng.choice([5, 100000]))
        got = list(solver.solve(net, max_num_combos=2, intermediate_rxn_energy_cutoff=cutoff, filter_interdependent=False,
                                use_basic_enumerator=basic, use_minimize_enumerator=minimize))
        ents = {ekey(e): e for r in rxs for e in r.entries}
        ents.update({ekey(e): e for e in net.product_entries})
        ents.update({ekey(e): e for e in ges if e.is_element})
        ies = GibbsEntrySet(deepcopy(list(ents.values())))
        targets = [e.composition.reduced_formula for e in net.product_entries]
        enums = []
        if basic:
            enums.append(BasicEnumerator(targets=targets, quiet=True))
            if oel:
                enums.append(BasicOpenEnumerator(open_phases=[Composition(oel).reduced_formula], targets=targets, quiet=True))
        if minimize:
            enums.append(MinimizeGibbsEnumerator(targets=targets, quiet=True))
            if oel:
                enums.append(MinimizeGrandPotentialEnumerator(open_elem=Element(oel), mu=mu, targets=targets, quiet=True))
        found = [r for en in enums for r in en.enumerate(ies)]
    every = list(rxs)
    for r in found:
        if oel:
            r = OpenComputedReaction(r.entries, r.coefficients, {Element(oel): mu})
        if abs(r.energy_per_atom - cutoff) < 1e-6:
            raise Skip
        if r.energy_per_atom < cutoff:
            every.append(r)
    groups = {}
    for r in every:
        groups.setdefault(nkey(r), []).append(r)
    cands = [g[0] for g in groups.values()]
    if len(cands) > 150:
        raise Skip
    # (of several multiples of a reaction any may be kept, and the net reaction itself is left out)
    drop = [nkey(g[0]) for g in groups.values() if any(r == net for r in g)]
    costs = [[cf.evaluate(r) for r in groups[nkey(c)]] for c in cands]
    keep = [i for i, c in enumerate(cands) if nkey(c) not in drop or len(groups[nkey(c)]) > 1]
    cands, costs = [cands[i] for i in keep], [costs[i] for i in keep]
    keys = {ekey(e): i for i, e in enumerate(ges.entries_list)}
    seen, sure = examine(got, cands, costs, net, ges, 2, complete=False)
    for combo in sure:
        if not any(nkey(cands[i]) in drop for i in combo):
            check(combo in seen, "pathway %s is not found", [str(cands[i]) for i in combo])
    return f"{len(rxs)} {len(cands)} {len(seen)}"
