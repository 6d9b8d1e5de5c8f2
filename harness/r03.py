"""R03 bounded: fractions."""
import numpy as np

from harness.gen import *  # noqa: F403
from vlib import Skip, case, check


def atoms(c, open_):
    return sum(a for e, a in amounts(c).items() if e not in open_)


@case("fractions", 400, bound="balanced basic, computed and open reactions of <=6 species")
def fractions(rng):
    kind = rng.choice(["basic", "computed", "open"])
    if kind == "basic":
        r, p, rx = balanced_basic(rng)
        k = np.array(rx.coefficients, float) * rng.choice([1, 0.5, 3, 11])
        rx = BasicReaction(r + p, k)
        op = set()
    else:
        op = {"O"} if kind == "open" else set()
        rx = computed_rxn(rng, open_el="O" if kind == "open" else None)
        s = rng.choice([1, 0.5, 3, 11])
        a = {"chempots": rx.chempots} if kind == "open" else {}
        rx = type(rx)(entries=rx.entries, coefficients=rx.coefficients * s, **a)
    if not rx.balanced:
        raise Skip
    rc = {c.formula: float(v) for c, v in zip(rx.compositions, rx.coefficients) if v < 0}
    pc = {c.formula: float(v) for c, v in zip(rx.compositions, rx.coefficients) if v > 0}
    for side, co in (("reactant", rc), ("product", pc)):
        mol = {c.formula: float(v) for c, v in getattr(rx, side + "_molar_fractions").items()}
        tot = sum(abs(v) for v in co.values())
        check(mol.keys() == co.keys(), "molar keys %s %s", mol, co)
        for q in co:
            check(close(mol[q], abs(co[q]) / tot), "%s molar fraction of %s: %s, expected %s", side, q, mol[q], abs(co[q]) / tot)
            check(mol[q] > 0, "positive")
        check(close(sum(mol.values()), 1), "%s molar fractions sum to %s", side, sum(mol.values()))
        at = {c.formula: float(v) for c, v in getattr(rx, side + "_atomic_fractions").items()}
        w = {q: abs(co[q]) * atoms(Composition(q), op) for q in co}
        tot = sum(w.values())
        want = {}
        for q in co:
            want[Composition(q).reduced_composition.formula] = w[q] / tot
        check(at.keys() == want.keys(), "atomic keys %s %s", at, want)
        for q in want:
            check(close(at[q], want[q], 1e-7), "%s atomic fraction of %s in %s: %s, expected %s", side, q, rx, at[q], want[q])
            check(at[q] > 0 or (set(e.symbol for e in Composition(q).elements) <= op), "positive")
        check(close(sum(at.values()), 1, 1e-7), "%s atomic fractions sum to %s", side, sum(at.values()))
    check(close(rx.num_atoms, sum(v * atoms(Composition(q), op) for q, v in pc.items())), "number of atoms")
    return f"{kind} {rx}"


@case("unbalanced", 60, bound="unbalanced basic, computed and open reactions")
def unbalanced(rng):
    r, p, rx = balanced_basic(rng)
    k = np.array(rx.coefficients, float)
    k[rng.randrange(len(k))] *= 1.5
    kind = rng.choice(["basic", "computed", "open"])
    if kind == "basic":
        bad = BasicReaction(r + p, k)
    else:
        es = [centry(rng, c.formula.replace(" ", "")) for c in r + p]
        bad = ComputedReaction(es, k) if kind == "computed" else OpenComputedReaction(es, k, {Element("O"): -1.0})
    if conserved(list(zip(r + p, k)), 1e-5):
        raise Skip
    for a in ("reactant_atomic_fractions", "product_atomic_fractions", "reactant_molar_fractions", "product_molar_fractions"):
        try:
            v = getattr(bad, a)
        except ValueError:
            continue
        check(False, "%s of the unbalanced %s is %s", a, bad, v)
    return f"{kind} {bad}"
