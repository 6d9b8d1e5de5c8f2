"""R16 bounded: cost functions."""
import math

import numpy as np

from harness.gen import *  # noqa: F403
from rxn_network.costs.functions import Softplus, WeightedSum
from vlib import Skip, case, check

ATTRS = ["energy_per_atom", "energy", "num_atoms", "energy_uncertainty"]


def setting(rng):
    data = {}
    for k in ("primary_competition", "secondary_competition", "energy_per_atom", "custom"):
        if rng.random() < 0.4:
            data[k] = rng.choice([0.0, rng.uniform(-2, 2), rng.randint(-3, 3), np.float64(rng.uniform(-1, 1)), rng.uniform(20, 60)])
    rx = computed_rxn(rng, data=data)
    if rng.random() < 0.15:
        rx.data = None
    params = rng.sample([*ATTRS[:3], "primary_competition", "secondary_competition", "custom"], rng.randint(1, 4))
    if rng.random() < 0.1:
        params.append(params[0])
    if rng.random() < 0.3 and not (rx.data and "custom" in rx.data):
        params = [p for p in params if p != "custom"] or ["energy_per_atom"]
    weights = [rng.choice([1.0, 0.0, -1.0, 0.45, rng.uniform(-2, 2), 2]) for _ in params]
    return rx, params, weights


def value(rx, p):
    if rx.data and p in rx.data:
        return rx.data[p]
    if hasattr(rx, p):
        return getattr(rx, p)
    return None


def evaluate(cf, rx):
    before = snapshot(rx)
    try:
        v = cf.evaluate(rx)
    except ValueError:
        v = None
    check(snapshot(rx) == before, "the reaction changed")
    return v


def same(a, b):
    return close(a, b, 1e-9, 1e-9) or (math.isinf(a) and math.isinf(b) and a == b)


@case("weighted sum", 200, bound="random reactions, 1-5 parameters from data and attributes, missing ones included")
def wsum(rng):
    rx, params, weights = setting(rng)
    cf = WeightedSum(params=list(params), weights=list(weights))
    vals = [value(rx, p) for p in params]
    v = evaluate(cf, rx)
    if any(x is None for x in vals):
        check(v is None, "missing parameter accepted")
        return "missing"
    check(v is not None, "parameters %s rejected (data %s)", params, rx.data)
    want = sum(w * x for w, x in zip(weights, vals))
    check(same(v, want), "cost %s, not %s", v, want)
    d = evaluate(WeightedSum(), rx)
    check(same(d, value(rx, "energy_per_atom")), "default weighted sum %s", d)
    return f"{params} {want:.4f}"


@case("softplus", 250, bound="random reactions and temperatures 1..4000 K")
def softp(rng):
    rx, params, weights = setting(rng)
    t = rng.choice([300, 273, 1, rng.uniform(1, 4000), rng.randint(50, 2500)])
    cf = Softplus(temp=t, params=list(params), weights=list(weights))
    vals = [value(rx, p) for p in params]
    v = evaluate(cf, rx)
    if any(x is None for x in vals):
        check(v is None, "missing parameter accepted")
        return "missing"
    check(v is not None, "parameters %s rejected (data %s)", params, rx.data)
    x = sum(w * q for w, q in zip(weights, vals))
    if abs(x) > 600:
        raise Skip
    check(same(v, math.log1p(273.0 / t * math.exp(x))), "softplus(%s, %s) = %s", x, t, v)
    if x > -25:
        check(v > 0, "cost %s is not positive", v)
        hot = evaluate(Softplus(temp=t * rng.uniform(1.01, 3), params=list(params), weights=list(weights)), rx)
        check(hot < v, "cost does not decrease with temperature: %s, %s", v, hot)
    d = evaluate(Softplus(), rx)
    check(same(d, math.log1p(273.0 / 300 * math.exp(value(rx, "energy_per_atom")))), "default softplus %s", d)
    for bad in (0, -1, -rng.uniform(0, 500)):
        try:
            Softplus(temp=bad)
        except ValueError:
            continue
        check(False, "temperature %s accepted", bad)
    return f"{params} {t:.1f} {x:.4f}"


@case("monotone", 150, bound="pairs of reactions that differ in one data value")
def mono(rng):
    rx, params, weights = setting(rng)
    t = rng.uniform(100, 2500)
    rx = rx.copy()
    a, b = sorted(rng.uniform(-3, 3) for _ in range(2))
    if b - a < 1e-6:
        raise Skip
    out = []
    for v in (a, b):
        rx.data = {"p": v}
        out.append(Softplus(temp=t, params=["p"], weights=[1.0]).evaluate(rx))
    check(out[0] < out[1], "softplus is not increasing: %s, %s -> %s", a, b, out)
    return f"{a} {b} {t}"
