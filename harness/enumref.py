"""Reference enumeration, from the settings alone."""
import itertools
from collections import Counter

import numpy as np

from harness.gen import *  # noqa: F403
from rxn_network.entries.entry_set import GibbsEntrySet


def enum_entries(rng, n=None):
    els = pool(rng, rng.choice([2, 3, 3]))
    es = gibbs_entries(rng, els, rng.randint(2, (n or 7) - 1), polymorphs=rng.choice([0, 0, 1]), mults=rng.random() < 0.3)
    return els, es, GibbsEntrySet(es)


def enum_settings(rng, els, es):
    fs = sorted({e.composition.reduced_formula for e in es})
    o = {}
    if rng.random() < 0.55:
        o["precursors"] = rng.sample(fs, rng.randint(1, min(3, len(fs))))
        if rng.random() < 0.15:
            o["precursors"].append(Composition(formula(rng, els)).reduced_formula)
        o["exclusive_precursors"] = rng.random() < 0.5
    if rng.random() < 0.45:
        o["targets"] = rng.sample(fs, rng.randint(1, min(2, len(fs))))
        o["exclusive_targets"] = rng.random() < 0.4
    if rng.random() < 0.2:
        o["filter_by_chemsys"] = "-".join(rng.sample(els, rng.randint(1, len(els))))
    if rng.random() < 0.3:
        o["filter_duplicates"] = True
    if rng.random() < 0.2:
        o["max_num_constraints"] = rng.choice([0, 2, 3])
    return o


def ek(e):
    return (e.composition.formula, round(e.energy, 6))


def sides(rx):
    return (frozenset(ek(e) for e, c in zip(rx.entries, rx.coefficients) if c < 0), frozenset(ek(e) for e, c in zip(rx.entries, rx.coefficients) if c > 0))


def allowed(rx, o, prec, targ, opens):
    """the filters of the settings, on a reaction's own phases"""
    r = {ek(e) for e in rx.reactant_entries} - opens
    p = {ek(e) for e in rx.product_entries} - opens
    if prec:
        if o.get("exclusive_precursors", True):
            if not r <= prec:
                return False
            if not (r | p) & prec and not ({ek(e) for e in rx.entries} & prec):
                return False
        elif not r & prec:
            return False
    if targ:
        if o.get("exclusive_targets", False):
            if not p <= targ:
                return False
        elif not p & targ:
            return False
    els = {str(x) for e in rx.entries for x in e.composition.elements}
    if o.get("filter_by_chemsys"):
        if not els >= set(o["filter_by_chemsys"].split("-")):
            return False
    return 2 <= len(els) <= 9


def pool_of(s, o, ph):
    """entries taking part, precursors, targets, open entries (missing phases are interpolated)"""
    es = list(s)
    lists = []
    for key in ("precursors", "targets"):
        cur = set()
        for f in o.get(key) or []:
            cand = [e for e in s if e.composition.reduced_formula == Composition(f).reduced_formula]
            e = min(cand, key=lambda x: x.energy_per_atom) if cand else s.get_interpolated_entry(f)
            if not cand and not any(ek(x) == ek(e) for x in es):
                es.append(e)
            cur.add(ek(e))
        lists.append(cur)
    opens = {ek(e) for e in es if e.composition.reduced_formula in (ph or [])}
    return es, lists[0], lists[1], opens


def verify(out, s, els, o, ph):
    es, prec, targ, opens = pool_of(s, o, ph)
    n = o["n"]
    maxc = o.get("max_num_constraints", 1)
    keys = {ek(e) for e in es}
    got = Counter()
    for rx in out:
        check(rx.balanced and rx.lowest_num_errors == 0, "%s is not balanced without errors", rx)
        check(conserved([(c, k) for c, k in zip(rx.compositions, rx.coefficients)]), "%s does not conserve the elements", rx)
        check(not rx.is_identity, "%s is an identity", rx)
        r, p = sides(rx)
        check(r and p and not r & p and len(r) + len(p) == len(rx.entries), "%s: phases %s -> %s", rx, r, p)
        check(r | p <= keys, "%s uses phases that are not in the entry set: %s", rx, (r | p) - keys)
        check(len(r - opens) <= n and len(p - opens) <= n, "%s has more than %s phases on a side", rx, n)
        if ph:
            check((r | p) & opens, "%s does not involve an open phase", rx)
        check(allowed(rx, o, prec, targ, opens), "%s is excluded by the settings %s", rx, o)
        check(rx.data["num_constraints"] <= maxc, "%s has %s constraints", rx, rx.data["num_constraints"])
        got[(r, p)] += 1
    # completeness
    base = [e for e in es if ek(e) not in opens]
    op = [e for e in es if ek(e) in opens]
    combos = list(powerset(base, 1, n))
    want = {}

    def consider(r, p):
        if {ek(e) for e in r} & {ek(e) for e in p}:
            return
        oel = {x for e in op for x in e.composition.elements}
        if {x for e in r for x in e.composition.elements} | oel != {x for e in p for x in e.composition.elements} | oel:
            return
        f = ComputedReaction.balance(list(r), list(p))
        for rx in (f, f.reverse()):
            if not rx.balanced or rx.lowest_num_errors != 0 or rx.is_identity or rx.data["num_constraints"] > maxc:
                continue
            if allowed(rx, o, prec, targ, opens):
                want[sides(rx)] = rx

    if ph:
        oc = list(powerset(op, 1, len(op)))
        for r in combos:
            for p in combos:
                for q in oc:
                    consider(r, (*p, *q))
    else:
        for r, p in itertools.combinations(combos, 2):
            consider(r, p)
    if o.get("filter_duplicates"):
        check(all(v == 1 for v in got.values()), "duplicates left")
    for k, rx in want.items():
        check(k in got, "missing: %s (settings %s)", rx, o)
    for k in got:
        check(k in want, "unexpected: %s (settings %s)", k, o)
    check(all(v == 1 for v in got.values()), "a reaction is returned %s times", max(got.values(), default=0))
