"""R15 bounded: parallel work is neither lost nor repeated."""
import itertools
from collections import Counter

from harness.enumref import *  # noqa: F403
from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from rxn_network.enumerators.minimize import MinimizeGibbsEnumerator, MinimizeGrandPotentialEnumerator
from rxn_network.enumerators.utils import run_enumerators
from rxn_network.utils.funcs import grouper, limited_powerset
from rxn_network.utils import ray as uray
from vlib import Skip, case, check


@case("grouper", 300, bound="lists and one-shot iterators of <=40 items, chunks of 1..45")
def grp(rng):
    xs = [rng.choice([None, 0, (), i]) for i in range(rng.randint(0, 40))]
    n = rng.randint(1, 45)
    fill = rng.choice([None, "pad", -1])
    src = rng.choice([list, tuple, iter, lambda x: (y for y in x)])(xs)
    out = list(grouper(src, n, fill)) if rng.random() < 0.5 or fill is not None else list(grouper(src, n))
    check(all(len(c) == n for c in out), "chunk lengths %s", [len(c) for c in out])
    flat = [x for c in out for x in c]
    check(flat[: len(xs)] == xs, "items lost or reordered")
    check(all(x is fill for x in flat[len(xs):]) and len(flat) - len(xs) < n, "padding")
    return f"{len(xs)}/{n}"


@case("powerset", 200, bound="<=8 items, sizes up to 10")
def pset(rng):
    xs = [rng.randint(0, 9) for _ in range(rng.randint(0, 8))]
    k = rng.randint(0, 10)
    src = rng.choice([list, tuple, iter])(xs)
    if not isinstance(src, (list, tuple)) and k > 1:
        src = xs
    out = list(limited_powerset(src, k))
    want = [c for m in range(1, k + 1) for c in itertools.combinations(xs, m)]
    check(Counter(out) == Counter(want), "subsets of %s up to %s", xs, k)
    check([len(c) for c in out] == sorted(len(c) for c in out), "not in order of size")
    return f"{len(xs)} {k}"


@case("collect", 200, bound="<=30 tasks, any completion order")
def collect(rng):
    n = rng.randint(0, 30)
    with fake_ray(rng) as fr:
        vals = [rng.choice([None, i, [], 0]) for i in range(n)]
        refs = [fr.put((i, v)) for i, v in enumerate(vals)]
        given = list(refs)
        if rng.random() < 0.5:
            out = list(uray.to_iterator(refs))
        else:
            pairs = list(uray.to_iterator(refs, get_obj_ids=True))
            out = [v for _, v in pairs]
            check(all(given[v[0]] is r for r, v in pairs), "results paired with other tasks")
    check(sorted(out, key=str) == sorted(enumerate(vals), key=str), "results lost or repeated: %s", out)
    return f"{n} {fr.order}"


def res(rs):
    return Counter((tuple(sorted(sides(r), key=sorted)) and sides(r), tuple(sorted((k, round(v, 8)) for k, v in coef_map(r).items())), type(r).__name__) for r in rs)


def some_enum(rng, els, es, k=None):
    o = enum_settings(rng, els, es)
    o.pop("filter_duplicates", None)
    if rng.random() < 0.2:
        o["filter_duplicates"] = True
    kind = rng.choice(["basic", "open", "gibbs", "grand"])
    el = rng.choice(els)
    if kind == "basic":
        return kind, lambda **kw: BasicEnumerator(n=2, **o, quiet=True, **kw)
    if kind == "open":
        return kind, lambda **kw: BasicOpenEnumerator(open_phases=[Composition(el).reduced_formula], n=2, **o, quiet=True, **kw)
    if kind == "gibbs":
        return kind, lambda **kw: MinimizeGibbsEnumerator(**o, quiet=True, **kw)
    mu = -rng.uniform(0, 2)
    return kind, lambda **kw: MinimizeGrandPotentialEnumerator(open_elem=el, mu=mu, **o, quiet=True, **kw)


@case("invariance", 60, bound="each enumerator on <=8 entries: 3 runs with different CPU counts, completion orders, chunk sizes and job limits", timeout=110)
def invariance(rng):
    els, es, s = enum_entries(rng, 6)
    kind, mk = some_enum(rng, els, es)
    outs = []
    for cpus, order, cs, mj in ((1, "fifo", 10**6, 5000), (rng.choice([2, 3, 8]), "lifo", 1, 5000), (rng.choice([1, 4, 16]), "random", rng.choice([2, 3, 5, 11]), rng.choice([1, 2, 5, 5000]))):
        with fake_ray(rng, cpus, order):
            outs.append((res(mk(chunk_size=cs, max_num_jobs=mj).enumerate(s)), (cpus, order, cs, mj)))
    for o, cfg in outs[1:]:
        check(o == outs[0][0], "%s: %s gives different reactions: lost %s, extra %s", kind, cfg, outs[0][0] - o, o - outs[0][0])
    return f"{kind} {els} {len(es)} {[c for _, c in outs]} -> {sum(outs[0][0].values())}"


@case("several", 40, bound="1-3 enumerators on <=7 entries", timeout=110)
def several(rng):
    els, es, s = enum_entries(rng, 6)
    from rxn_network.entries.entry_set import GibbsEntrySet

    fs = sorted({e.composition.reduced_formula for e in es})
    ens = []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["basic", "open", "gibbs", "basic2"])
        o = {"precursors": rng.sample(fs, 2)} if rng.random() < 0.5 else {}
        o["exclusive_precursors"] = rng.random() < 0.5
        if kind == "basic":
            ens.append(BasicEnumerator(n=2, quiet=True, **o))
        elif kind == "basic2":
            ens.append(BasicEnumerator(n=1, targets=rng.sample(fs, 1), quiet=True, **o))
        elif kind == "open":
            ens.append(BasicOpenEnumerator(open_phases=[Composition(els[0]).reduced_formula], n=1, quiet=True, **o))
        else:
            ens.append(MinimizeGibbsEnumerator(quiet=True, **o))
    with fake_ray(rng):
        want = set()
        for e in ens:
            want |= {nkey(r) for r in e.enumerate(s)}
        out = list(run_enumerators(rng.choice([list, tuple])(ens), s))
    got = Counter(nkey(r) for r in out)
    check(set(got) == want, "union: lost %s, extra %s", want - set(got), set(got) - want)
    check(all(v == 1 for v in got.values()), "duplicates")
    return f"{[type(e).__name__ for e in ens]} {els} -> {len(out)}"
