"""R02 bounded: normalize / reverse / copy."""
import numpy as np

from harness.gen import *  # noqa: F403
from vlib import Skip, case, check


def some_rxn(rng):
    kind = rng.choice(["basic", "basic_int", "computed", "open"])
    d = {"a": rng.randint(0, 9), "b": [1, 2]} if rng.random() < 0.6 else {}
    if kind.startswith("basic"):
        r, p, rx = balanced_basic(rng)
        k = np.array(rx.coefficients, float) * rng.choice([1, 0.5, 3])
        if kind == "basic_int":
            m = min(abs(k))
            ki = [round(x / m) for x in k]
            if any(abs(x / m - y) > 1e-9 for x, y in zip(k, ki)):
                raise Skip
            return kind, BasicReaction(r + p, ki, data=d or None)
        order = list(range(len(k)))
        rng.shuffle(order)
        return kind, BasicReaction([(r + p)[i] for i in order], k[order], data=d or None, lowest_num_errors=0)
    rx = computed_rxn(rng, open_el=rng.choice(["O", "Li"]) if kind == "open" else None, data=d)
    rx = type(rx)(**({"chempots": rx.chempots} if kind == "open" else {}), entries=rx.entries, coefficients=rx.coefficients * rng.choice([1, 0.25, 7]), data=rx.data, lowest_num_errors=rng.choice([0, 1]))
    return kind, rx


def same(kind, a, b, factor):
    check(type(a) is type(b) , "type changed: %s -> %s", type(b).__name__, type(a).__name__)
    check([c.formula for c in a.compositions] == [c.formula for c in b.compositions], "species order")
    check(len(a.coefficients) == len(b.coefficients), "number of coefficients")
    for x, y in zip(a.coefficients, b.coefficients):
        check(close(x, factor * y, 1e-12, 1e-9), "coefficient %s is not %s * %s", x, factor, y)
    for side in ("reactant_coeffs", "product_coeffs"):
        m = {c.formula: float(v) for c, v in getattr(a, side).items()}
        want = {c.formula: factor * float(v) for c, v in zip(b.compositions, b.coefficients) if (factor * v < 0) == (side == "reactant_coeffs") and v != 0}
        check(m.keys() == want.keys() and all(close(m[q], want[q], 1e-12, 1e-9) for q in m), "%s %s != %s", side, m, want)
    if not kind.startswith("basic"):
        check([id(e) for e in a.entries] == [id(e) for e in b.entries], "entries kept")
        check(a.data == b.data, "data kept: %s %s", a.data, b.data)
        check(a.lowest_num_errors == b.lowest_num_errors, "error count kept")
        check([e for e, c in zip(a.entries, a.coefficients) if c < 0] == a.reactant_entries, "reactant entries")
        check([e for e, c in zip(a.entries, a.coefficients) if c > 0] == a.product_entries, "product entries")
    if kind == "open":
        check(a.chempots == b.chempots and a.open_elems == b.open_elems, "chempots kept")


@case("ops", 400, bound="balanced reactions of <=6 species over <=4 elements")
def ops(rng):
    kind, rx = some_rxn(rng)
    before = snapshot(rx)
    f = rng.choice([1, 1, 2, 0.5, 3.7])
    i = rng.randrange(len(rx.compositions))
    c = rx.compositions[i]
    n = rx.normalize_to(c, f) if rng.random() < 0.7 or f != 1 else rx.normalize_to(c)
    same(kind, n, rx, f / abs(float(rx.coefficients[i])))
    check(close(abs(float(n.get_coeff(c))), f), "coefficient of %s is %s, not %s", c, n.get_coeff(c), f)
    check(snapshot(rx) == before, "normalize_to changed the original")
    el = rng.choice(c.elements)
    amt = sum(amounts(q).get(str(el), 0) * abs(float(k)) for q, k in zip(rx.compositions, rx.coefficients)) / 2
    check(close(rx.get_el_amount(el), amt), "element amount %s %s", rx.get_el_amount(el), amt)
    m = rx.normalize_to_element(el, f) if rng.random() < 0.7 or f != 1 else rx.normalize_to_element(el)
    same(kind, m, rx, f / amt)
    check(close(m.get_el_amount(el), f), "element amount after normalization: %s", m.get_el_amount(el))
    check(snapshot(rx) == before, "normalize_to_element changed the original")
    r = rx.reverse()
    same(kind, r, rx, -1)
    check(bool(r.balanced) == bool(rx.balanced), "balanced flag")
    rr = r.reverse()
    same(kind, rr, rx, 1)
    check(rr == rx and hash(rr) == hash(rx), "double reverse differs")
    check(r.lowest_num_errors == rx.lowest_num_errors and r.data == rx.data, "data / errors of reverse")
    cp = rx.copy()
    same(kind, cp, rx, 1)
    check(cp is not rx and cp == rx and cp.balanced == rx.balanced and cp.lowest_num_errors == rx.lowest_num_errors and cp.data == rx.data, "copy")
    check(snapshot(rx) == before, "the original changed")
    # the copies own their coefficients
    for o in (n, m, r, cp):
        if kind == "computed" and o is cp:
            continue
    return f"{kind} {rx} f={f} c={c.reduced_formula} el={el}"
