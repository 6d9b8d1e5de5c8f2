"""R13 bounded: basic enumeration is sound and complete."""
import itertools
from collections import Counter

from harness.enumref import *  # noqa: F403
from harness.fakeray import fake_ray
from harness.gen import *  # noqa: F403
from rxn_network.enumerators.basic import BasicEnumerator, BasicOpenEnumerator
from vlib import Skip, case, check


@case("basic", 130, bound="<=10 entries (polymorphs, missing phases interpolated), n<=3, all filter settings, 1-8 CPUs, any completion order and chunk size", timeout=110)
def basic(rng):
    els, es, s = enum_entries(rng)
    o = enum_settings(rng, els, es)
    o["n"] = rng.choice([1, 2, 2, 2, 3]) if len(es) <= 7 else rng.choice([1, 2, 2])
    before = sorted((ekey(e), e.energy) for e in s)
    en = BasicEnumerator(**o, chunk_size=rng.choice([1, 2, 7, 50, 2500]), max_num_jobs=rng.choice([1, 3, 5000]), quiet=True)
    with fake_ray(rng):
        out = list(en.enumerate(s))
    check(sorted((ekey(e), e.energy) for e in s) == before, "the entry set changed")
    verify(out, s, els, o, None)
    return f"{els} {len(es)} {o} -> {len(out)}"


@case("open", 110, bound="<=9 entries, 1-2 open phases, n<=2, all filter settings, 1-8 CPUs, any completion order and chunk size", timeout=110)
def open_(rng):
    els, es, s = enum_entries(rng, 7)
    o = enum_settings(rng, els, es)
    o["n"] = rng.choice([1, 2, 2])
    fs = sorted({e.composition.reduced_formula for e in es})
    el = Composition(rng.choice(els)).reduced_formula
    ph = [el]
    if rng.random() < 0.25:
        ph.append(rng.choice([f for f in fs if f != el]))
    before = sorted((ekey(e), e.energy) for e in s)
    en = BasicOpenEnumerator(open_phases=ph, **o, chunk_size=rng.choice([1, 2, 7, 50, 2500]), max_num_jobs=rng.choice([1, 3, 5000]), quiet=True)
    with fake_ray(rng):
        out = list(en.enumerate(s))
    check(sorted((ekey(e), e.energy) for e in s) == before, "the entry set changed")
    verify(out, s, els, o, ph)
    return f"{els} {len(es)} open={ph} {o} -> {len(out)}"
