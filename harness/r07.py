"""R07 bounded: duplicate filtering."""
from collections import Counter

import numpy as np

from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from harness.r06 import arrays, full, same_arrays, some_set
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check


def variant(rng, r):
    """a reaction on the same entries in another order and with scaled coefficients"""
    order = list(range(len(r.entries)))
    if rng.random() < 0.7:
        rng.shuffle(order)
    f = rng.choice([1, 1, 2, 0.5, 3, 1 / 3, -1, 7.5])
    kw = {"chempots": r.chempots} if hasattr(r, "chempots") else {}
    return type(r)(entries=[r.entries[i] for i in order], coefficients=np.array([r.coefficients[i] * f for i in order]), data={"v": rng.randrange(1000)}, **kw)


def sig(r):
    return nkey(r)


@case("dup", 260, bound="<=30 reactions (multiples, reversals, permutations of <=8 base reactions), 1-8 CPUs, any completion order", timeout=110)
def dup(rng):
    es, open_el, mu, rx = some_set(rng, 8, dup=False)
    if rng.random() < 0.3:
        # reactions sharing all phases but not multiples of each other: linear combinations
        extra = []
        for _ in range(3):
            r = rng.choice(rx)
            k = np.array(r.coefficients, float)
            k[rng.randrange(len(k))] *= 1.5
            kw = {"chempots": r.chempots} if open_el else {}
            extra.append(type(r)(entries=r.entries, coefficients=k, data={}, **kw))
        rx += extra
    for _ in range(rng.randint(0, 16)):
        rx.append(variant(rng, rng.choice(rx)))
    rng.shuffle(rx)
    kw = {"open_elem": open_el, "chempot": mu} if open_el else {}
    s = ReactionSet.from_rxns(rx, entries=es, **kw)
    f = arrays(s)
    stored = list(s)
    ensure = rng.sample(stored, rng.randint(0, min(4, len(stored)))) if rng.random() < 0.6 else None
    a = s.filter_duplicates(ensure_rxns=ensure, parallelize=False)
    with fake_ray(rng) as fr:
        b = s.filter_duplicates(ensure_rxns=ensure)
        cpus = fr.cpus
    check(same_arrays(arrays(s), f), "filtering changed the set")
    orig = Counter(map(full, stored))
    for name, t in (("serial", a), (f"parallel ({cpus} CPUs)", b)):
        out = list(t)
        got = Counter(map(full, out))
        check(not got - orig, "%s: not a subset: %s", name, got - orig)
        bare = Counter(full(r, False) for r in out)
        for q in {full(r, False) for r in ensure or []}:
            check(bare[q] >= 1, "%s: asked to keep %s", name, q)
        sigs = Counter(sig(r) for r in out)
        ens = {}
        for r in ensure or []:
            ens.setdefault(sig(r), set()).add(full(r, False))
        for q, c in sigs.items():
            check(c == 1 or c <= len(ens.get(q, ())), "%s: %s duplicates of %s left", name, c, q)
            check(q not in ens or all(full(r, False) in ens[q] for r in out if sig(r) == q), "%s: a reaction not asked for was kept besides the ensured one", name)
        check(set(sigs) == {sig(r) for r in stored}, "%s: reactions lost: %s", name, {sig(r) for r in stored} - set(sigs))
        check(t.open_elem == s.open_elem and t.chempot == s.chempot and t.entries == s.entries, "%s: entries / open treatment", name)
    check(Counter(map(full, a)) == Counter(map(full, b)), "parallel differs from serial")
    return f"{open_el} n={len(rx)} kept={len(a)} ensure={len(ensure or [])} cpus={cpus} {rx[0]}"


@case("absent", 60, bound="<=12 reactions; absent reactions: scaled, reversed, other phases, unknown entries")
def absent(rng):
    es, open_el, mu, rx = some_set(rng, 6, dup=False)
    s = ReactionSet.from_rxns(rx, entries=es)
    how = rng.choice(["scaled", "reverse", "alien"])
    r = rng.choice(list(s))
    kw = {"chempots": r.chempots} if hasattr(r, "chempots") else {}
    if how == "scaled":
        q = type(r)(entries=r.entries, coefficients=r.coefficients * 1.37, data={}, **kw)
    elif how == "reverse":
        q = r.reverse()
    else:
        q = type(r)(entries=[*r.entries[:-1], gentry(rng, "CuO")], coefficients=r.coefficients, data={}, **kw)
    if any(full(q)[1:3] == full(x)[1:3] for x in s):
        raise Skip
    for par in (False, True):
        with fake_ray(rng):
            try:
                s.filter_duplicates(ensure_rxns=[rng.choice(list(s)), q], parallelize=par)
            except Exception:
                continue
            check(False, "keeping an absent reaction (%s) was accepted (parallel=%s)", how, par)
    return f"{how} {q}"
