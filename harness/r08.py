"""R08 bounded: queries by product and reactants."""
from collections import Counter

from harness.gen import *  # noqa: F403
from harness.r06 import arrays, full, same_arrays, some_set
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check


def zero_some(rng, rx):
    """reactions as the balancer gives them when a phase drops out: one coefficient is zero"""
    out = []
    for r in rx:
        if rng.random() < 0.2 and len(r.entries) > 2:
            extra = [e for e in r.reactant_entries + r.product_entries]
            es = list(r.entries)
            from pymatgen.core import Composition as C
            kw = {"chempots": r.chempots} if hasattr(r, "chempots") else {}
            new = gentry(rng, rng.choice(["CuO", "Cu2O"]), entry_id="z")
            k = list(r.coefficients)
            i = rng.randint(0, len(es))
            es.insert(i, new)
            k.insert(i, 0.0)
            r = type(r)(entries=es, coefficients=k, data=dict(r.data), **kw)
        out.append(r)
    return out


def q(rs):
    return Counter(full(r) for r in rs)


@case("query", 300, bound="<=16 reactions over <=12 entries with polymorphs, every formula of the entry list, spectator phases with zero coefficient")
def query(rng):
    es, open_el, mu, rx = some_set(rng)
    rx = zero_some(rng, rx)
    kw = {"open_elem": open_el, "chempot": mu} if open_el else {}
    s = ReactionSet.from_rxns(rx, **kw) if rng.random() < 0.5 else ReactionSet.from_rxns(rx, entries=set(es) | {e for r in rx for e in r.entries}, **kw)
    f = arrays(s)
    stored = list(s)
    formulas = sorted({e.composition.reduced_formula for e in s.entries})
    for fm in [*formulas, "UO2"]:
        ask = fm if rng.random() < 0.5 else Composition(Composition(fm) * 2).formula.replace(" ", "")
        want = Counter(full(r) for r in stored if any(c > 1e-12 and e.composition.reduced_formula == fm for e, c in zip(r.entries, r.coefficients)))
        got = q(s.get_rxns_by_product(ask))
        check(got == want, "product %s: missing %s, extra %s", fm, want - got, got - want)
        rs = s.get_rxns_by_product(ask, return_set=True)
        check(isinstance(rs, ReactionSet) and q(rs) == want and len(rs) == sum(want.values()), "product %s as a set", fm)
    for _ in range(6):
        fs = rng.sample(formulas, rng.randint(1, min(4, len(formulas))))
        if rng.random() < 0.6 and stored:
            fs = sorted(set(fs) | {c.reduced_formula for c in rng.choice(stored).reactants})
        if rng.random() < 0.2:
            fs = [*fs, "UO2"]
        want = Counter(full(r) for r in stored if all(e.composition.reduced_formula in fs for e, c in zip(r.entries, r.coefficients) if c < -1e-12))
        got = q(s.get_rxns_by_reactants(list(fs)))
        check(got == want, "reactants %s: missing %s, extra %s", fs, want - got, got - want)
        rs = s.get_rxns_by_reactants(list(fs), return_set=True)
        check(isinstance(rs, ReactionSet) and q(rs) == want, "reactants %s as a set", fs)
    check(q(s.get_rxns_by_reactants(["UO2"])) == Counter(), "unknown reactant")
    rs = s.get_rxns_by_reactants(["UO2"], return_set=True)
    check(isinstance(rs, ReactionSet) and len(rs) == 0, "unknown reactant as a set: %s", type(rs))
    check(same_arrays(arrays(s), f), "a query changed the set")
    return f"{open_el} {len(stored)} {formulas}"
