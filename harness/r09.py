"""R09 bounded: entry sets are mutable sets with coherent caches."""
from harness.gen import *  # noqa: F403
from rxn_network.entries.entry_set import GibbsEntrySet
from vlib import Skip, case, check


def K(e):
    return (ekey(e), e.temperature if hasattr(e, "temperature") else None, round(e.energy, 9))


def keys(it):
    return sorted(map(K, it))


def elements_of(es):
    return {str(x) for e in es for x in e.composition.elements}


def views(rng, s, model, deep):
    want = keys(model)
    check(len(s) == len(model), "len %s != %s", len(s), len(model))
    check(keys(s) == want, "iteration")
    check(keys(s.entries_list) == want, "entries_list is stale: %s != %s", keys(s.entries_list), want)
    check(set(s.chemsys) == elements_of(model), "chemsys %s", s.chemsys)
    mins = s.min_entries_by_formula
    fm = {}
    for e in model:
        f = e.composition.reduced_formula
        fm[f] = min(fm.get(f, 1e9), e.energy_per_atom)
    check(mins.keys() == fm.keys(), "min_entries_by_formula has %s instead of %s", sorted(mins), sorted(fm))
    for f, v in fm.items():
        check(close(mins[f].energy_per_atom, v) and K(mins[f]) in want, "minimum of %s", f)
    if model:
        check(s.temperature in {e.temperature for e in model}, "temperature %s", s.temperature)
    if deep and model and all(any(e.composition.is_element and str(e.composition.elements[0]) == x for e in model) for x in elements_of(model)):
        pd = s.pd_dict
        seen = {K(e) for p in pd.values() for e in p.all_entries}
        check(seen == set(want), "pd_dict is stale: %s", seen ^ set(want))


@case("history", 220, bound="histories of <=14 operations on sets of <=14 entries (polymorphs, two temperatures)")
def history(rng):
    els = pool(rng, 3)
    T = rng.choice([300, 600])
    uni = gibbs_entries(rng, els, 7, T, polymorphs=3)
    if rng.random() < 0.3:
        uni += gibbs_entries(rng, els, 2, 900)
    n = rng.randint(0, len(uni))
    start = rng.sample(uni, n)
    src = rng.choice([list, set, tuple])(start)
    s = GibbsEntrySet(src)
    model = {K(e): e for e in start}
    ops = []
    views(rng, s, model.values(), True)
    for _ in range(rng.randint(3, 14)):
        op = rng.choice(["add", "add", "discard", "remove", "update", "ior", "iand", "isub", "ixor", "pop", "clear", "or", "and", "sub", "xor", "copy", "subset", "remove_missing", "readd"])
        if op == "clear" and rng.random() < 0.7:
            op = "discard"
        ops.append(op)
        other = rng.sample(uni, rng.randint(0, 4))
        om = {K(e): e for e in other}
        e = rng.choice(uni)
        if op in ("add", "readd"):
            s.add(e)
            if op == "readd":
                s.add(e)
            model[K(e)] = e
        elif op == "discard":
            s.discard(e)
            model.pop(K(e), None)
        elif op == "remove" and model:
            e = rng.choice(list(model.values()))
            s.remove(e)
            del model[K(e)]
        elif op == "remove_missing":
            if K(e) not in model:
                try:
                    s.remove(e)
                except KeyError:
                    pass
                else:
                    check(False, "removing an absent entry succeeded")
        elif op == "update":
            s.update(rng.choice([list, set, GibbsEntrySet])(other))
            model.update(om)
        elif op == "ior":
            s |= GibbsEntrySet(other)
            model.update(om)
        elif op == "iand":
            s &= GibbsEntrySet(other)
            model = {k: v for k, v in model.items() if k in om}
        elif op == "isub":
            s -= GibbsEntrySet(other)
            model = {k: v for k, v in model.items() if k not in om}
        elif op == "ixor":
            s ^= GibbsEntrySet(other)
            model = {**{k: v for k, v in model.items() if k not in om}, **{k: v for k, v in om.items() if k not in model}}
        elif op == "pop" and model:
            x = s.pop()
            check(K(x) in model, "popped an entry that was not there")
            del model[K(x)]
        elif op == "clear":
            s.clear()
            model = {}
        elif op in ("or", "and", "sub", "xor"):
            o = GibbsEntrySet(other)
            before, ob = keys(s), keys(o)
            r = {"or": s | o, "and": s & o, "sub": s - o, "xor": s ^ o}[op]
            m = {"or": {**model, **om}, "and": {k: v for k, v in model.items() if k in om}, "sub": {k: v for k, v in model.items() if k not in om}, "xor": {**{k: v for k, v in model.items() if k not in om}, **{k: v for k, v in om.items() if k not in model}}}[op]
            check(isinstance(r, GibbsEntrySet), "%s gives %s", op, type(r))
            check(keys(r) == sorted(m), "%s: wrong content", op)
            views(rng, r, m.values(), False)
            check(keys(s) == before and keys(o) == ob, "%s changed an operand", op)
        elif op == "copy":
            c = s.copy()
            check(keys(c) == keys(s), "copy")
            if rng.random() < 0.5:
                c.add(e)
                c.discard(rng.choice(uni))
            else:
                s.discard(e)
                model.pop(K(e), None)
                views(rng, s, model.values(), False)
        elif op == "subset" and model:
            cs = rng.sample(sorted(elements_of(model.values())), rng.randint(1, len(elements_of(model.values()))))
            r = s.get_subset_in_chemsys(cs)
            check(keys(r) == keys([e for e in model.values() if {str(x) for x in e.composition.elements} <= set(cs)]), "subset %s", cs)
        for x in uni:
            check((x in s) == (K(x) in model), "after %s: membership of %s is wrong", ops, K(x))
        if rng.random() < 0.8:
            views(rng, s, model.values(), rng.random() < 0.5)
        check(keys(s) == sorted(model), "after %s: content differs from set algebra", ops)
    views(rng, s, model.values(), True)
    check(src == type(src)(start) and len(src) == n, "the collection given to the constructor changed")
    return f"{ops} {len(model)}"
