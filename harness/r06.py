"""R06 bounded: reaction sets store and return exactly what was put in."""
from collections import Counter

from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from rxn_network.costs.functions import Softplus, WeightedSum
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check


def full(rx, data=True):
    k = [type(rx).__name__, tuple(ekey(e) for e in rx.entries), tuple(round(float(c), 10) for c in rx.coefficients)]
    if data:
        k.append(repr(sorted((rx.data or {}).items(), key=str)))
    k.append(tuple(sorted((str(a), round(float(b), 10)) for a, b in getattr(rx, "chempots", {}).items())))
    return tuple(k)


def some_set(rng, nmax=8, dup=True):
    open_el = rng.choice([None, None, "O"])
    els = pool(rng, 3)
    if "O" not in els:
        els[-1] = "O"
    es = gibbs_entries(rng, els, 6, polymorphs=rng.choice([0, 0, 2]), mults=rng.random() < 0.3)
    mu = -rng.uniform(0, 3)
    rx = computed_rxns(rng, es, rng.randint(1, nmax), open_el=open_el, mu=mu)
    for i, r in enumerate(rx):
        if rng.random() < 0.5:
            r.data.update({"tag": i, "x": rng.random()})
    if dup and rng.random() < 0.4:
        rx = rx + rng.sample(rx, rng.randint(1, len(rx)))
    rng.shuffle(rx)
    return es, open_el, mu, rx


def uni(rs):
    return Counter(full(r) for r in rs)


@case("store", 240, bound="<=16 reactions of <=5 phases over <=3 elements, with and without open element, polymorphs, repeated reactions, 1-5 phases mixed")
def store(rng):
    es, open_el, mu, rx = some_set(rng)
    snaps = [snapshot(r) for r in rx]
    mode = rng.choice(["noent", "ent", "extra"])
    kw = {}
    if mode == "ent":
        kw = {"entries": list(es)}
    elif mode == "extra":
        kw = {"entries": set(es)}
    if open_el and rng.random() < 0.5:
        kw.update(open_elem=open_el, chempot=mu)
    s = ReactionSet.from_rxns(rng.choice([list, tuple])(rx), **kw)
    out = list(s)
    check(uni(out) == uni(rx), "iterating gives different reactions: %s != %s", uni(out), uni(rx))
    check(len(s) == len(rx), "len %s != %s", len(s), len(rx))
    check(uni(s.get_rxns()) == uni(rx) and uni(s) == uni(rx), "second iteration differs")
    for r in out:
        check(any(r == q and close(r.energy, q.energy, 1e-9) and close(r.energy_per_atom, q.energy_per_atom, 1e-9) for q in rx), "energy of %s", r)
    check([snapshot(r) for r in rx] == snaps, "from_rxns changed its input")
    return f"{mode} {open_el} {len(rx)} {rx[0]}"


@case("costs", 80, bound="<=16 reactions")
def costs(rng):
    es, open_el, mu, rx = some_set(rng)
    s = ReactionSet.from_rxns(rx)
    cf = rng.choice([Softplus(temp=rng.choice([300, 900]), params=["energy_per_atom"], weights=[1.0]), WeightedSum(params=["energy_per_atom", "energy"], weights=[1.0, 0.3])])
    cs = s.calculate_costs(cf)
    rs = list(s.get_rxns())
    check(len(cs) == len(rx) and all(close(a, cf.evaluate(r)) for a, r in zip(cs, rs)), "costs are not those of the reactions in order")
    tgt = rng.choice([None, Composition(rng.choice(rs[0].products).reduced_formula)])
    unc = rng.random() < 0.5
    sep = tgt is not None and all(tgt.reduced_composition in [c.reduced_composition for c in r.products] for r in rs)
    df = s.to_dataframe(cf, target=tgt, calculate_uncertainties=unc, calculate_separable=sep)
    check(len(df) == len(rx), "data frame has %s rows for %s reactions", len(df), len(rx))
    check(uni(df["rxn"]) == uni(rx), "the data frame's reactions")
    prev = -1e99
    for row in df.to_dict("records"):
        r = row["rxn"]
        check(close(row["energy"], r.energy_per_atom) and close(row["cost"], cf.evaluate(r)), "energy / cost of row %s", r)
        check(row["cost"] >= prev, "not sorted by cost")
        prev = row["cost"]
        if unc and not isnan(r.energy_uncertainty_per_atom):
            check(close(row["dE"], r.energy_uncertainty_per_atom), "dE")
        if tgt is not None:
            els = ({str(e) for p in r.compositions for e in p.elements} | ({"O"} if hasattr(r, "chempots") else set())) - {str(e) for e in tgt.elements}
            check(row["added_elems"] == "-".join(sorted(els)), "added elements %s %s", row["added_elems"], els)
            if sep:
                check(row["separable"] == r.is_separable(tgt), "separable")
        check(row["max_num_precursor_elems"] == max(len(c.elements) for c in r.reactants), "max_num_precursor_elems")
        for k in ("tag", "x"):
            if k in row:
                v = r.data.get(k)
                check(row[k] == v or (v is None and (row[k] is None or row[k] != row[k])), "data column %s: %s %s", k, row[k], v)
    return f"{open_el} {len(rx)} {tgt}"


def arrays(s):
    return ({k: v.copy() for k, v in s.indices.items()}, {k: v.copy() for k, v in s.coeffs.items()}, {k: list(v) for k, v in s.all_data.items()}, list(s.entries), s.open_elem, s.chempot)


def same_arrays(a, b):
    return all(x.keys() == y.keys() and all((list(map(list, x[k])) == list(map(list, y[k]))) if i < 2 else x[k] == y[k] for k in x) for i, (x, y) in enumerate(zip(a[:3], b[:3]))) and a[3:] == b[3:]


@case("union", 160, bound="two sets of <=9 reactions sharing entries")
def union(rng):
    es, open_el, mu, rx = some_set(rng, 9)
    k = rng.randint(0, len(rx))
    a, b = rx[:k], rx[k:]
    if k == 0 and open_el:
        k = 1
        a, b = rx[:1], rx[1:]
    kw = {"open_elem": open_el, "chempot": mu} if open_el else {}
    sa, sb = ReactionSet.from_rxns(a, entries=es, **kw), ReactionSet.from_rxns(b, entries=es, **kw)
    fa, fb = arrays(sa), arrays(sb)
    u = sa.add_rxn_set(sb)
    check(uni(u) == uni(rx) and len(u) == len(rx), "add_rxn_set is not the union: %s != %s", uni(u), uni(rx))
    v = sa.add_rxns(b)
    check(uni(v) == uni(rx) and len(v) == len(rx), "add_rxns is not the union")
    w = sb.add_rxn_set(sa)
    check(uni(w) == uni(rx), "union the other way round")
    x = u.add_rxn_set(sb)
    check(uni(x) == uni(rx) + uni(b), "repeated union")
    check(same_arrays(arrays(sa), fa) and same_arrays(arrays(sb), fb), "operands changed")
    other = ReactionSet.from_rxns(b, entries=es[:-1] if not any(es[-1] in r.entries for r in b) else es + [gentry(rng, "CuO")], **kw)
    try:
        sa.add_rxn_set(other)
    except ValueError:
        pass
    else:
        check(False, "a set with different entries was accepted")
    return f"{open_el} {len(a)}+{len(b)} {rx[0]}"


@case("chempot", 120, bound="<=12 reactions")
def chempot(rng):
    es, open_el, mu, rx = some_set(rng)
    s = ReactionSet.from_rxns(rx)
    f = arrays(s)
    el = rng.choice(["O", Element("O"), None])
    m = -rng.uniform(0, 4)
    t = s.set_chempot(el, m)
    check(same_arrays(arrays(s), f), "set_chempot changed the set")
    out = list(t)
    strip = lambda rs: Counter(full(r)[1:4] for r in rs)
    check(strip(out) == strip(rx), "set_chempot changed the reactions")
    for r in out:
        if el is None:
            check(type(r) is ComputedReaction, "still open: %s", type(r))
        else:
            check(type(r) is OpenComputedReaction and {str(k): v for k, v in r.chempots.items()} == {"O": m}, "open treatment %s", getattr(r, "chempots", None))
    return f"{open_el} {el} {m} {rx[0]}"
