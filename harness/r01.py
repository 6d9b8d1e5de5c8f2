"""R01 bounded: balancing."""
import numpy as np

from harness.gen import *  # noqa: F403
from harness import gen as g
from vlib import Skip, case, check


def verify(rct, prod, rx, cls_computed=False, data=None):
    n = len(rct) + len(prod)
    comps = list(rct) + list(prod)
    check(len(rx.coefficients) == n, "coefficient count")
    check([c.formula for c in rx.compositions] == [c.formula for c in comps], "species order kept: %s", rx.compositions)
    k = np.array(rx.coefficients, dtype=float).ravel()
    sign = np.array([-1] * len(rct) + [1] * len(prod))
    err = rx.lowest_num_errors
    cons = conserved(list(zip(comps, k)), 1e-5)
    if err == np.inf:
        if not cls_computed:
            check(rx.balanced is False or rx.balanced == False, "unbalanceable species must be reported unbalanced")  # noqa: E712
        check(np.allclose(k, 0), "unbalanceable reaction has coefficients %s", k)
        # really no conserving solution of the required signs
        vs = nullspace(comps)
        if len(vs) == 1:
            v = np.array(vs[0], dtype=float).ravel()
            check(not (np.all(sign * v > 1e-6) or np.all(sign * v < -1e-6)), "balanceable species reported as unbalanceable: %s", v)
    else:
        check(cons, "coefficients %s of %s do not conserve the elements", k, comps)
        check(bool(rx.balanced), "conserving reaction not marked balanced")
        wrong = int(np.sum(sign * k < 1e-6))
        check(int(err) == wrong, "reported %s errors, %s species have the wrong sign or vanish (%s)", err, wrong, k)
    if err == 0:
        check(all(s * x > 0 for s, x in zip(sign, k)), "wrong signs %s", k)
        check(rx.reactants == list(dict.fromkeys(rct)) and rx.products == list(dict.fromkeys(prod)), "sides")
    else:
        # completeness: with a one-dimensional solution space a fully signed solution would be found
        vs = nullspace(comps)
        if len(vs) == 1:
            v = np.array(vs[0], dtype=float).ravel()
            v = v / max(abs(v))
            ok = np.all(sign * v > 1e-3) or np.all(sign * v < -1e-3)
            check(not ok, "missed the balance %s of %s -> %s", v, rct, prod)
    return f"{[c.reduced_formula for c in rct]}->{[c.reduced_formula for c in prod]} err={err}"


@case("balance", 320, bound="compositions over <=4 elements, <=3 reactants and <=4 products, integer amounts <=4")
def balance(rng):
    els = pool(rng, rng.choice([2, 3, 3, 4]))
    nr, npd = rng.randint(1, 3), rng.randint(1, 4)
    cs = comps(rng, els, nr + npd)
    if len(cs) < nr + npd:
        raise Skip
    r, p = cs[:nr], cs[nr : nr + npd]
    rx = BasicReaction.balance(r, p)
    return verify(r, p, rx)


@case("balanced_by_construction", 240, bound="balanced sets of 3-6 species with one-dimensional solution space")
def constructed(rng):
    """take the null vector of random species as the truth and split by its signs"""
    els = pool(rng, rng.choice([2, 3]))
    for _ in range(60):
        cs = comps(rng, els, len(els) + 1)
        vs = nullspace(cs)
        if len(vs) != 1:
            continue
        v = [float(x) for x in vs[0]]
        r = [c for c, x in zip(cs, v) if x < 0]
        p = [c for c, x in zip(cs, v) if x > 0]
        if not r or not p:
            continue
        m = max(abs(x) for x in v)
        if any(0 < abs(x) < 1e-3 * m for x in v):
            continue
        how = rng.choice(["basic", "formulas", "computed", "open"])
        if how == "basic":
            rx = BasicReaction.balance(r, p)
        elif how == "formulas":
            rx = BasicReaction.from_formulas([c.reduced_formula if len(c) > 1 else c.formula for c in r], [c.formula.replace(" ", "") for c in p])
        else:
            er = [centry(rng, c.formula.replace(" ", ""), rng.randint(1, 3)) for c in r]
            ep = [centry(rng, c.formula.replace(" ", ""), rng.randint(1, 3)) for c in p]
            if how == "computed":
                rx = ComputedReaction.balance(er, ep)
            else:
                el = rng.choice(els)
                rx = OpenComputedReaction.balance(er, ep, chempots={Element(el): -1.0} if rng.random() < 0.8 else {})
        check(rx.lowest_num_errors == 0 and rx.balanced, "balanceable reaction %s -> %s not balanced (%s errors)", r, p, rx.lowest_num_errors)
        if how != "formulas":
            verify(r, p, rx)
        i0 = max(range(len(v)), key=lambda i: abs(v[i]))
        true = {c.reduced_composition: x / v[i0] for c, x in zip(cs, v)}
        k0 = {c.reduced_composition: float(x) for c, x in zip(rx.compositions, rx.coefficients)}
        base = k0[cs[i0].reduced_composition] if how != "formulas" else None
        if base:
            for c, x in true.items():
                if abs(x) > 0:
                    check(close(k0[c] / base, x, 1e-5, 1e-5), "coefficient of %s: %s, expected ratio %s", c, k0[c] / base, x)
        return f"{how}:{[c.reduced_formula for c in r]}->{[c.reduced_formula for c in p]}"
    raise Skip


@case("balance_entries", 160, bound="computed and open reactions, entries of 1-3 formula units, <=3 reactants, <=3 products")
def entries(rng):
    els = pool(rng, rng.choice([2, 3, 3]))
    nr, npd = rng.randint(1, 3), rng.randint(1, 3)
    cs = comps(rng, els, nr + npd)
    if len(cs) < nr + npd:
        raise Skip
    es = [centry(rng, c.formula.replace(" ", ""), rng.randint(1, 3)) for c in cs]
    r, p = es[:nr], es[nr : nr + npd]
    if rng.random() < 0.5:
        rx = ComputedReaction.balance(r, p)
    else:
        rx = OpenComputedReaction.balance(r, p, chempots={Element(rng.choice(els)): -rng.random()})
    check([id(a) for a in rx.entries] == [id(a) for a in r + p], "entries are the given ones in order")
    return verify(cs[:nr], cs[nr : nr + npd], rx, cls_computed=True)


@case("direct_flag", 240, bound="reactions built from compositions and coefficients, balanced or perturbed in one coefficient")
def flag(rng):
    r, p, rx = balanced_basic(rng)
    k = [float(x) * 1.0 for x in rx.coefficients]
    s = rng.choice([1, 0.5, 3, 0.01, 40])
    k = [x * s for x in k]
    expect = True
    if rng.random() < 0.5:
        i = rng.randrange(len(k))
        k[i] += rng.choice([1, -1]) * rng.choice([0.3, 0.01, 1e-4]) * abs(k[i])
        tot = balance_of(list(zip(r + p, k)))
        m = max(abs(v) for v in tot.values())
        if 1e-7 < m < 1e-5:
            raise Skip
        expect = m <= 1e-7
    if rng.random() < 0.3:
        order = list(range(len(k)))
        rng.shuffle(order)
        cs, k = [(r + p)[i] for i in order], [k[i] for i in order]
    else:
        cs = r + p
    kind = rng.choice([list, tuple, np.array])
    d = BasicReaction(kind(cs) if kind is not np.array else cs, kind(k))
    check(bool(d.balanced) == expect, "balanced=%s for %s %s", d.balanced, cs, k)
    e = [centry(rng, c.formula.replace(" ", ""), rng.randint(1, 3)) for c in cs]
    c = ComputedReaction(e, np.array(k))
    check(bool(c.balanced) == expect, "computed balanced=%s for %s %s", c.balanced, cs, k)
    return f"{[c.reduced_formula for c in cs]} {np.round(k, 4)}"
