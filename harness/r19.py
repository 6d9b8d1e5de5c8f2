"""R19 bounded: interface reaction hulls."""
import itertools

import numpy as np
from pymatgen.core.periodic_table import Element

from harness.gen import *  # noqa: F403
from rxn_network.costs import calculators as cc
from rxn_network.reactions.hull import InterfaceReactionHull
from vlib import Skip, case, check


def hull_case(rng, open_el=None, nmax=9):
    els = pool(rng, 3)
    oel = els[0] if open_el else None
    es = gibbs_entries(rng, els, rng.randint(4, 7), mults=rng.random() < 0.3)
    cand = [e for e in es if oel is None or set(amounts(e.composition)) != {oel}]
    if len(cand) < 3:
        raise Skip
    a, b = rng.sample(cand, 2)
    if a.composition.reduced_composition == b.composition.reduced_composition:
        raise Skip
    rxs, seen = [], set()
    others = [e for e in es if e is not a and e is not b and (oel is None or set(amounts(e.composition)) != {oel})]
    mu = -rng.uniform(0, 2)
    todo = [(r, p) for r in ([a, b], [a, b], [a], [b]) for p in powerset(others, 1, 3)]
    rng.shuffle(todo)
    for r, p in todo:
        if len(rxs) >= rng.randint(3, nmax):
            break
        if oel:
            rx = OpenComputedReaction.balance(list(r), list(p), chempots={Element(oel): mu})
        else:
            rx = ComputedReaction.balance(list(r), list(p))
        if rx.balanced and rx.lowest_num_errors == 0 and not rx.is_identity and nkey(rx) not in seen:
            if any(c < 0 and set(amounts(e.composition)) == {oel} for e, c in zip(rx.entries, rx.coefficients)) and rng.random() < 0.3:
                continue
            seen.add(nkey(rx))
            rxs.append(rx.normalize_to(rng.choice(rx.reactants), rng.uniform(0.3, 3)) if rng.random() < 0.3 else rx)
    if not rxs or not any(_has(r, a) for r in rxs) or not any(_has(r, b) for r in rxs):
        raise Skip
    return a, b, rxs, oel, mu


def _has(rx, e):
    return any(x is e or ekey(x) == ekey(e) for x, c in zip(rx.entries, rx.coefficients) if c < 0)


def point(rx, a, b, oel, mu):
    """(mixing ratio of b by non-open atoms, energy per non-open atom)"""
    na = nb = n = g = 0.0
    for e, c in zip(rx.entries, rx.coefficients):
        q = float(c) / e.composition.get_reduced_composition_and_factor()[1]
        am = amounts(e.composition)
        pure = set(am) == {oel}
        g += q * (e.energy if pure or oel is None else e.energy - mu * am.get(oel, 0.0))
        at = sum(v for k, v in am.items() if k != oel) * q
        if c < 0:
            n -= at
            if ekey(e) == ekey(a):
                na -= at
            elif ekey(e) == ekey(b):
                nb -= at
    return nb / (na + nb), g / n


def lower_hull(pts):
    """vertices of the lower convex hull of points from x=0 to x=1"""
    best = {}
    for x, y in pts:
        k = round(x, 9)
        if k not in best or y < best[k][1]:
            best[k] = (x, y)
    h = []
    for p in sorted(best.values()):
        while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (p[0] - h[-2][0]) * (h[-1][1] - h[-2][1]) <= 1e-12:
            h.pop()
        h.append(p)
    return h


def at(h, x):
    for (x1, y1), (x2, y2) in zip(h, h[1:]):
        if x1 - 1e-12 <= x <= x2 + 1e-12:
            return y1 + (y2 - y1) * (x - x1) / (x2 - x1)
    raise AssertionError


def bend(h, x):
    """is the hull clearly bent at x (or does it end there)?"""
    if x < 1e-9 or x > 1 - 1e-9:
        return True
    lo, hi = max(x - 1e-3, 0.0), min(x + 1e-3, 1.0)
    return (at(h, lo) * (hi - x) + at(h, hi) * (x - lo)) / (hi - lo) - at(h, x) > 1e-7


def decomp(pts):
    """[total energy of every complete decomposition of the point sequence]"""
    if len(pts) <= 2:
        return [0.0]
    out = []
    (x1, y1), (x3, y3) = pts[0], pts[-1]
    for m in range(1, len(pts) - 1):
        x2, y2 = pts[m]
        h = y2 - (y1 + (x2 - x1) / (x3 - x1) * (y3 - y1))
        for a in decomp(pts[: m + 1]):
            for b in decomp(pts[m:]):
                out.append(h + a + b)
    return out


def span(h, lo, hi):
    """points of the hull between lo and hi, with the reactants at the ends as references"""
    pts = [(x, y) for x, y in h if lo + 1e-9 < x < hi - 1e-9 and y <= 0]
    left = [(lo, at(h, lo))]
    right = [(hi, at(h, hi))] if hi - lo > 1e-9 else []
    if lo < 1e-9 and abs(left[0][1]) > 1e-8:
        left = [(0.0, 0.0), *left]
    if hi > 1 - 1e-9 and abs(at(h, hi)) > 1e-8:
        right = [*right, (1.0, 0.0)]
    return left + pts + right


def verify_hull(rng, open_el):
    a, b, rxs, oel, mu = hull_case(rng, open_el)
    pts = [point(r, a, b, oel, mu) for r in rxs]
    xs = sorted({round(x, 9) for x, _ in pts} | {0.0, 1.0})
    if any(y - x < 1e-4 for x, y in zip(xs, xs[1:])):
        raise Skip
    before = [snapshot(r) for r in rxs]
    given = list(rxs)
    try:
        irh = InterfaceReactionHull(a.composition, b.composition, rxs)
    except Exception as e:
        if type(e).__name__ == "QhullError":
            raise Skip from e
        raise
    check([snapshot(r) for r in given] == before and rxs == given, "the reactions changed")
    check(sorted(nkey(r) for r in irh.reactions if not r.is_identity) == sorted(nkey(r) for r in given), "reactions of the hull")
    check(len(irh.reactions) == len(given) + 2, "the hull has %s reactions for %s given", len(irh.reactions), len(given))
    xs = [irh.coords[i][0] for i in range(len(irh.coords))]
    check(xs == sorted(xs), "coordinates are not sorted")
    allp = [*pts, (0.0, 0.0), (1.0, 0.0)]
    for r, c in zip(irh.reactions, irh.coords):
        if r.is_identity:
            k = 0.0 if ekey(r.entries[0]) == ekey(a) else 1.0
            check(close(c[0], k) and close(c[1], 0), "end point %s at %s", r, c)
        else:
            x, y = point(r, a, b, oel, mu)
            check(close(c[0], x, 1e-9) and close(c[1], y), "%s sits at %s, not (%s, %s)", r, c, x, y)
            check(close(irh.get_coordinate(r), x, 1e-9), "coordinate of %s", r)
    h = lower_hull(allp)
    for x in [rng.random() for _ in range(4)] + [0.0, 1.0] + [x for x, _ in pts]:
        check(close(irh.get_hull_energy(x), at(h, x), 1e-7), "hull energy at %s: %s, not %s", x, irh.get_hull_energy(x), at(h, x))
        w = irh.get_reactions_by_coordinate(x)
        check(close(sum(w.values()), 1) and all(v >= 0 for v in w.values()), "weights %s", w)
    # points on an edge of the hull may or may not count as vertices
    vx = sorted((float(irh.coords[i][0]), float(irh.coords[i][1])) for i in irh.hull_vertices)
    check(all(abs(y - at(h, x)) < 1e-9 for x, y in vx), "vertices %s are not on the hull %s", vx, h)
    check(all(any(abs(x - p) < 1e-9 and abs(y - q) < 1e-9 for p, q in vx) for (x, y) in h if bend(h, x) and y < 1e-12), "vertices %s of the hull %s", vx, h)
    h = vx if vx[0][0] < 1e-12 and vx[-1][0] > 1 - 1e-12 else h
    stable = {nkey(r) for r in irh.stable_reactions}
    check(len(irh.stable_reactions) + len(irh.unstable_reactions) == len(irh.reactions), "stable and unstable reactions")
    cs = []
    for r, (x, y) in zip(given, pts):
        eh = irh.get_energy_above_hull(r)
        check(close(eh, y - at(h, x), 1e-7) and eh > -1e-7, "energy above hull of %s is %s, not %s", r, eh, y - at(h, x))
        vertex = any(abs(x - q[0]) < 1e-9 and abs(y - q[1]) < 1e-12 for q in h)
        if vertex and bend(h, x) or eh > 1e-7:
            check((nkey(r) in stable) == (eh < 1e-7), "%s (%s above hull) is in the wrong list", r, eh)
        # primary competition
        comp = [q[1] for q in allp if abs(q[0] - x) > 1e-9]
        if comp:
            c1 = y - min(comp)
            check(close(irh.get_primary_competition(r), c1, 1e-7), "primary competition of %s is %s, not %s", r, irh.get_primary_competition(r), c1)
            check(close(cc.PrimaryCompetitionCalculator(irh).calculate(r), c1, 1e-7), "calculator of primary competition")
        # secondary competition
        left, right = decomp(span(h, 0.0, x)), decomp(span(h, x, 1.0))
        tot = [p + q for p in left for q in right]
        c2 = -sum(tot) / len(tot)
        for rec in (False, True):
            v = irh.get_secondary_competition(r, recursive=rec)
            check(close(v, c2, 1e-7), "secondary competition (recursive=%s) of %s is %s, not %s", rec, r, v, c2)
            check(v > -1e-7, "secondary competition below zero: %s", v)
            v = irh.get_secondary_competition(r, normalize=False, recursive=rec)
            check(close(v, -sum(tot), 1e-6), "unnormalized secondary competition of %s is %s, not %s", r, v, -sum(tot))
            v = irh.get_secondary_competition(r, include_e_hull=True, recursive=rec)
            check(close(v, c2 + (y - at(h, x)), 1e-7), "secondary competition with energy above hull of %s is %s", r, v)
        check(close(cc.SecondaryCompetitionCalculator(irh).calculate(r), c2, 1e-7), "calculator of secondary competition")
        check(close(cc.SecondaryCompetitionWithEhullCalculator(irh).calculate(r), c2 + y - at(h, x), 1e-7), "calculator of secondary competition with energy above hull")
        mx = 0.0
        for s in (span(h, 0.0, x), span(h, x, 1.0)):
            hs = [m[1] - (lo[1] + (m[0] - lo[0]) / (hi[0] - lo[0]) * (hi[1] - lo[1])) for lo, m, hi in itertools.combinations(s, 3)]
            mx -= min(hs + [0.0])
        check(close(irh.get_secondary_competition_max_energy(r), mx, 1e-7), "maximum secondary competition of %s", r)
        check(close(cc.SecondaryCompetitionMaxCalculator(irh).calculate(r), mx, 1e-7), "calculator of the maximum secondary competition")
        cs.append(round(c2, 3))
    check([snapshot(r) for r in given] == before, "the reactions changed")
    return f"{len(given)} reactions, {len(h)} vertices, {cs}"


@case("closed", 150, bound="<=9 reactions of two reactants, with decompositions of either", timeout=90)
def closed(rng):
    return verify_hull(rng, False)


@case("open", 120, bound="<=9 reactions of two reactants and an open element", timeout=90)
def open_(rng):
    return verify_hull(rng, True)


class _Rx:
    """point set with prescribed coordinates (only for large hulls)"""


@case("large", 40, bound="synthetic hulls of 3..16 product vertices", timeout=60)
def large(rng):
    n = rng.randint(3, 16)
    irh = object.__new__(InterfaceReactionHull)
    xs = sorted(rng.uniform(0.02, 0.98) for _ in range(n))
    pts = [(0.0, 0.0), *[(x, 4 * x * (x - 1) * rng.uniform(0.2, 1)) for x in xs], (1.0, 0.0)]
    h = lower_hull(pts)
    if len(h) > 11:
        h = [h[0], *sorted(rng.sample(h[1:-1], 9)), h[-1]]
    irh.get_coords_in_range = lambda a, b: np.array(span(h, min(a, b), max(a, b)))
    x = rng.choice([rng.choice(h)[0], rng.random()])
    for lo, hi in ((0.0, x), (x, 1.0), (0.0, 1.0)):
        s = span(h, lo, hi)
        if len(s) > 11:
            continue
        d = decomp(s)
        check(close(irh.get_decomposition_energy(lo, hi), sum(d), 1e-5), "decomposition energy of %s", s)
        v, k = irh.get_decomposition_energy_and_num_paths_recursive(lo, hi)
        check(close(v, sum(d), 1e-5) and k == len(d), "recursive decomposition of %s: %s, %s", s, v, k)
    return f"{len(h)} {x:.3f}"


@case("counts", 1, bound="numbers of decompositions of hulls of up to 40 product vertices")
def counts(rng):
    import math

    irh = object.__new__(InterfaceReactionHull)
    for n in range(41):
        c = math.comb(2 * n, n) // (n + 1)
        check(irh.count(n) == c, "count(%s) is %s, not %s", n, irh.count(n), c)
        if n < 26:
            check(irh._count_recursive(n)[0] == c, "recursive count of %s", n)
    for n in range(1, 9):
        for a in range(n):
            for b in range(n - a):
                w = [math.comb(2 * k, k) // (k + 1) for k in (a, b, n - a - b - 1)]
                check(irh._altitude_multiplicity(a, b, n) == w[0] * w[1] * w[2], "multiplicity")
    return "0..40"
