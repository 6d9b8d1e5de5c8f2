"""R14 bounded: minimizing enumeration finds the convex-hull reactions."""
import itertools

import numpy as np
from pymatgen.core.periodic_table import Element
from scipy.optimize import linprog

from harness.enumref import *  # noqa: F403
from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from vlib import Skip, case, check


def g_of(e, oel, mu):
    """(closed-element amounts, grand energy) of an entry"""
    a = amounts(e.composition)
    n = a.pop(oel, 0.0) if oel else 0.0
    return a, e.energy - (mu * n if oel else 0.0)


def lp(items, target):
    """lowest energy of a non-negative mixture of items [(amounts, energy)] with the target amounts"""
    els = sorted(target)
    items = [(a, g) for a, g in items if a and set(a) <= set(els)]
    A = np.array([[a.get(x, 0.0) for a, _ in items] for x in els])
    res = linprog([g for _, g in items], A_eq=A, b_eq=[target[x] for x in els], bounds=(0, None), method="highs")
    return res.fun if res.success else None


def hull_checks(rng, out, s, els, o, oel, mu):
    es, prec, targ, opens = pool_of(s, o, [Composition(oel).reduced_formula] if oel else None)
    keys = {ek(e) for e in es}
    byk = {ek(e): e for e in es}
    bypair = {}
    for rx in out:
        check(rx.balanced and rx.lowest_num_errors == 0, "%s is not balanced without errors", rx)
        check(conserved([(c, k) for c, k in zip(rx.compositions, rx.coefficients)]), "%s does not conserve the elements", rx)
        check(not rx.is_identity, "%s is an identity", rx)
        r, p = sides(rx)
        check(r | p <= keys, "%s uses phases that are not in the entry set: %s", rx, (r | p) - keys)
        check(allowed(rx, {k: v for k, v in o.items() if k != "filter_by_chemsys"}, prec, targ, opens), "%s is excluded by the settings %s", rx, o)
        if oel:
            check({str(k): v for k, v in rx.chempots.items()} == {oel: mu}, "%s: chemical potentials %s", rx, rx.chempots)
        rc = r - opens
        check(1 <= len(rc) <= 2, "%s consumes %s", rx, rc)
        # products minimise the energy at the composition of the reaction
        sysels = {x for k in r | p for x in amounts(byk[k].composition)}
        pool_ = [g_of(e, oel, mu) for e in es if set(amounts(e.composition)) <= sysels]
        tot, have = {}, 0.0
        for e, c in zip(rx.entries, rx.coefficients):
            if c < 0 or ek(e) in opens:
                continue
            n = float(c) / e.composition.get_reduced_composition_and_factor()[1]
            a, g = g_of(e, oel, mu)
            have += g * n
            for x, v in a.items():
                tot[x] = tot.get(x, 0.0) + v * n
            best = min(q.energy_per_atom for q in es if q.composition.reduced_formula == e.composition.reduced_formula)
            check(close(e.energy_per_atom, best, 1e-6), "%s is not the ground state of its formula", e)
        low = lp(pool_, tot)
        nat = sum(tot.values())
        check(low is not None and have <= low + 1e-5 * max(1.0, nat), "%s: products at %s eV/atom, hull at %s", rx, have / nat, None if low is None else low / nat)
        bypair.setdefault(rc, []).append(rx)
    for pr, rxs in bypair.items():
        ks = [sides(x) for x in rxs]
        check(not o.get("filter_duplicates") or len(set(ks)) == len(ks), "duplicate reactions for %s", pr)
    # every kink of the hull along a mixing line is one of the reactions found
    got = {sides(x) for x in out}
    base = [e for e in es if ek(e) not in opens and e.energy_per_atom <= min(q.energy_per_atom for q in es if q.composition.reduced_formula == e.composition.reduced_formula)]
    oent = min((q for q in es if ek(q) in opens), key=lambda q: q.energy_per_atom) if oel and opens else None
    if oel and oent is None:
        return
    pairs = list(itertools.combinations(base, 2))
    rng.shuffle(pairs)
    for a, b in pairs[:20]:
        ela = {x for e in (a, b) for x in amounts(e.composition)} | ({oel} if oel else set())
        if len(ela) < 2 or (o.get("filter_by_chemsys") and not ela >= set(o["filter_by_chemsys"].split("-"))):
            continue
        if prec and (not {ek(a), ek(b)} <= prec if o.get("exclusive_precursors", True) else not {ek(a), ek(b)} & prec):
            continue
        pool_ = [e for e in es if set(amounts(e.composition)) <= ela and ek(e) not in opens]
        ga, gb = g_of(a, oel, mu)[0], g_of(b, oel, mu)[0]
        na, nb = sum(ga.values()), sum(gb.values())
        if not na or not nb or all(abs(ga.get(x, 0) / na - gb.get(x, 0) / nb) < 1e-6 for x in ela):
            continue
        for x in kinks(pool_, ga, gb, na, nb, oel, mu):
            tgt = {q: ga.get(q, 0) * x / na + gb.get(q, 0) * (1 - x) / nb for q in set(ga) | set(gb)}
            sol = lp_phases(pool_, tgt, oel, mu)
            if sol is None or sol["degenerate"]:
                continue
            net = {ek(e): v for e, v in sol["phases"]}
            full = {ek(e): e for e, _ in sol["phases"]}
            for e, v in ((a, x / na), (b, (1 - x) / nb)):
                net[ek(e)] = net.get(ek(e), 0.0) - v
                full[ek(e)] = e
            if oel:
                bal = -sum(v * amounts(full[k].composition).get(oel, 0.0) for k, v in net.items())
                if abs(bal) < 1e-6:
                    continue
                net[ek(oent)] = bal
                full[ek(oent)] = oent
            net = {k: v for k, v in net.items() if abs(v) > 1e-7}
            if not net or any(abs(v) < 1e-5 for v in net.values()):
                continue
            if len(nullspace([Composition(amounts(full[k].composition)) for k in net])) != 1:
                continue
            r, p = frozenset(k for k, v in net.items() if v < 0), frozenset(k for k, v in net.items() if v > 0)
            rr = r - opens
            if not rr or not r or not p:
                continue
            if prec and (not rr <= prec if o.get("exclusive_precursors", True) else not rr & prec):
                continue
            if targ and (not (p - opens) <= targ if o.get("exclusive_targets", False) else not (p - opens) & targ):
                continue
            check((r, p) in got, "missing: %s -> %s (hull of %s and %s at %.4f, settings %s)", sorted(r), sorted(p), a.composition.reduced_formula, b.composition.reduced_formula, x, o)


def lp_phases(es, target, oel, mu):
    """the mixture of lowest energy: phases and amounts, energy, chemical potentials of the closed elements"""
    els = sorted(target)
    items = []
    for e in es:
        am, g = g_of(e, oel, mu)
        if am and set(am) <= set(els):
            items.append((e, am, g))
    A = np.array([[am.get(x, 0.0) for x in els] for _, am, _ in items]).T
    c = np.array([g for _, _, g in items])
    res = linprog(c, A_eq=A, b_eq=[target[x] for x in els], bounds=(0, None), method="highs")
    if not res.success:
        return None
    ph = [(items[i][0], float(v)) for i, v in enumerate(res.x) if v > 1e-8]
    y = res.eqlin.marginals
    # alternative optima: phases not in the solution whose reduced cost vanishes
    red = c - A.T @ y
    alt = [items[i][0] for i in range(len(items)) if res.x[i] <= 1e-8 and red[i] < 1e-6]
    deg = False
    if alt:
        cols = [i for i in range(len(items)) if red[i] < 1e-6 or res.x[i] > 1e-8]
        deg = np.linalg.matrix_rank(A[:, cols], tol=1e-8) < len(cols)
    return {"phases": ph, "energy": res.fun, "mu": dict(zip(els, y)), "degenerate": deg}


def kinks(es, ga, gb, na, nb, oel, mu):
    """mixing ratios at which the slope of the lower hull changes, with the end points"""
    els = sorted(set(ga) | set(gb))

    def at(x):
        s = lp_phases(es, {q: ga.get(q, 0) * x / na + gb.get(q, 0) * (1 - x) / nb for q in els}, oel, mu)
        if s is None:
            return None
        sl = sum(s["mu"][q] * (ga.get(q, 0) / na - gb.get(q, 0) / nb) for q in els)
        return s["energy"], sl

    out = {0.0, 1.0}
    lo, hi = at(1e-4), at(1 - 1e-4)
    if lo is None or hi is None:
        return out
    todo = [(1e-4, lo, 1 - 1e-4, hi)]
    while todo and len(out) < 30:
        xa, fa, xb, fb = todo.pop()
        if abs(fa[1] - fb[1]) < 1e-6:
            continue
        xm = (fb[0] - fa[0] + fa[1] * xa - fb[1] * xb) / (fa[1] - fb[1])
        if not xa < xm < xb:
            continue
        fm = at(xm)
        if fm is None:
            continue
        if fm[0] > fa[0] + fa[1] * (xm - xa) - 1e-7:
            out.add(xm)
        else:
            todo += [(xa, fa, xm, fm), (xm, fm, xb, fb)]
    return out


def settings(rng, els, es):
    o = enum_settings(rng, els, es)
    if rng.random() < 0.4:
        o.pop("targets", None)
        o.pop("exclusive_targets", None)
    o.pop("max_num_constraints", None)
    return o


@case("gibbs", 60, bound="<=8 entries, all filter settings, 1-8 CPUs, any completion order and chunk size", timeout=100)
def gibbs(rng):
    els, es, s = enum_entries(rng, 6)
    o = settings(rng, els, es)
    before = sorted((ekey(e), e.energy) for e in s)
    en = MinimizeGibbsEnumerator(**o, chunk_size=rng.choice([1, 2, 7, 1000]), max_num_jobs=rng.choice([1, 3, 1000]), quiet=True)
    with fake_ray(rng):
        out = list(en.enumerate(s))
    check(sorted((ekey(e), e.energy) for e in s) == before, "the entry set changed")
    hull_checks(rng, out, s, els, o, None, None)
    return f"{els} {len(es)} {o} -> {len(out)}"


@case("grand", 60, bound="<=8 entries, one open element, all filter settings, 1-8 CPUs, any completion order and chunk size", timeout=100)
def grand(rng):
    els, es, s = enum_entries(rng, 6)
    o = settings(rng, els, es)
    oel = rng.choice(els)
    mu = rng.choice([0.0, -rng.uniform(0, 3)])
    before = sorted((ekey(e), e.energy) for e in s)
    en = MinimizeGrandPotentialEnumerator(open_elem=Element(oel), mu=mu, **o, chunk_size=rng.choice([1, 2, 7, 1000]), max_num_jobs=rng.choice([1, 3, 1000]), quiet=True)
    with fake_ray(rng):
        out = list(en.enumerate(s))
    check(sorted((ekey(e), e.energy) for e in s) == before, "the entry set changed")
    hull_checks(rng, out, s, els, o, oel, mu)
    return f"{els} {len(es)} open={oel}@{mu:.2f} {o} -> {len(out)}"
