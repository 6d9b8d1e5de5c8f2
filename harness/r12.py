"""R12 bounded: temperature changes are path-independent."""
import copy

from pymatgen.entries.computed_entries import ConstantEnergyAdjustment

from harness.gen import *  # noqa: F403
from harness.gibbsref import gibbs_energy, tab
from rxn_network.entries.corrections import CarbonateCorrection, CarbonDioxideAtmosphericCorrection
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.entries.freed import FREEDReferenceEntry
from rxn_network.entries.nist import NISTReferenceEntry
from rxn_network.reactions.reaction_set import ReactionSet
from vlib import Skip, case, check

TS = [300, 400, 700, 1000, 1500, 2000, 350, 1234.5, 999.9, 300.0, 1100.0, 301, 1999]


def snap(e):
    return (round(e.energy, 12), e.temperature, e.composition.formula, e.entry_id, repr(sorted(e.data.items())), [round(a.value, 12) for a in e.energy_adjustments], [a.name for a in e.energy_adjustments], repr(e.parameters))


def corr_at(cfg, c, T):
    x = 0.0
    if "const" in cfg:
        x += cfg["const"]
    if "carb" in cfg:
        x += CarbonateCorrection(cfg["carb"]).value
    if "co2" in cfg:
        x += 8.617e-5 * T * math.log(0.0004) / 3 * c.num_atoms
    return x


def adjs(cfg, c, T):
    out = []
    if "const" in cfg:
        out.append(ConstantEnergyAdjustment(cfg["const"], uncertainty=0.1, name="shift"))
    if "carb" in cfg:
        out.append(CarbonateCorrection(cfg["carb"]))
    if "co2" in cfg:
        out.append(CarbonDioxideAtmosphericCorrection(c.num_atoms, T))
    return out


@case("gibbs", 260, bound="compounds of <=3 elements, formula multiples <=3, T in [300, 2000] incl. floats, <=4 changes of temperature, constant / carbonate / CO2 adjustments")
def gibbs(rng):
    els = pool(rng, 3)
    f = formula(rng, els) if rng.random() < 0.7 else rng.choice(["CO2", "CaCO3", "Li2CO3", "O2"])
    m = rng.randint(1, 3)
    c = Composition(f) * m
    fe, vol = (0.0 if c.is_element else -rng.uniform(0, 3)), rng.uniform(6, 40)
    cfg = {}
    if rng.random() < 0.4:
        cfg["const"] = rng.uniform(-1, 1)
    if "C" in f and rng.random() < 0.4:
        cfg["carb"] = m
    if f == "CO2" and rng.random() < 0.8:
        cfg["co2"] = 1
    T0 = rng.choice(TS)

    def make(T, k=1):
        return GibbsComputedEntry(Composition(c) * k, fe, vol, T, energy_adjustments=adjs({a: (v * k if a in ("const", "carb") else v) for a, v in cfg.items()}, c * k, T) or None, data={"a": 1, "theoretical": True}, parameters={"run_type": "GGA"}, entry_id=rng.choice(["id-1", None]))

    e = make(T0)
    check(close(e.energy, gibbs_energy(c, fe, vol, T0) + corr_at(cfg, c, T0), 1e-9, 1e-9), "energy at %s K: %s, reference %s", T0, e.energy, gibbs_energy(c, fe, vol, T0) + corr_at(cfg, c, T0))
    s0 = snap(e)
    cur, path = e, [T0]
    for _ in range(rng.randint(1, 4)):
        T = rng.choice(TS)
        prev = snap(cur)
        nxt = cur.get_new_temperature(T)
        check(snap(cur) == prev, "the original changed")
        want = gibbs_energy(c, fe, vol, T) + corr_at(cfg, c, T)
        path.append(T)
        check(close(nxt.energy, want, 1e-9, 1e-9), "via %s: energy %s instead of %s", path, nxt.energy, want)
        check(nxt.temperature == T and nxt.composition == c and nxt.data == e.data and nxt.parameters == e.parameters and nxt.entry_id == e.entry_id, "other attributes changed")
        check([a.name for a in nxt.energy_adjustments] == [a.name for a in e.energy_adjustments], "adjustments %s", [a.name for a in nxt.energy_adjustments])
        cur = nxt
    cur.data["x"] = 5
    cur.data["a"] = 9
    check(snap(e) == s0, "the first entry changed")
    k = rng.randint(2, 3)
    e2 = make(T0, k)
    check(close(e2.energy, k * e.energy, 1e-8, 1e-9) and close(e2.energy_per_atom, e.energy_per_atom), "formula multiple: %s vs %s", e2.energy, e.energy)
    for bad in (299, 2001, 0):
        try:
            e.get_new_temperature(bad)
        except ValueError:
            pass
        else:
            check(False, "%s K accepted", bad)
    return f"{f}*{m} {cfg} {path}"


@case("tables", 260, bound="tabulated compounds of both tables, T within the table incl. floats, <=4 changes, multiples <=3, extra adjustments")
def tables(rng):
    cl = rng.choice([NISTReferenceEntry, FREEDReferenceEntry])
    f = rng.choice(sorted(cl.REFERENCES)) if rng.random() < 0.8 else "CO2"
    if Composition(f).reduced_formula != f:
        raise Skip
    g = cl.REFERENCES[f]
    cfg = {}
    if rng.random() < 0.4:
        cfg["const"] = rng.uniform(-1, 1)
    if f == "CO2":
        cfg["co2"] = 1
    c = Composition(f)
    ok = [T for T in TS if min(g) <= T <= max(g)]
    T0 = rng.choice(ok)

    def make(T, k=1):
        cc = Composition(c) * k
        return cl(cc, T, energy_adjustments=adjs({a: (v * k if a == "const" else v) for a, v in cfg.items()}, cc, T) or None, data={"a": 1})

    k = rng.choice([1, 1, 2, 3])
    e = make(T0, k)
    n = Composition(f).get_reduced_composition_and_factor()[1] * k / Composition(f).get_reduced_formula_and_factor()[1]
    n = k
    check(close(e.energy, n * tab(g, T0) + k * (cfg.get("const", 0)) + corr_at({a: 1 for a in cfg if a == "co2"}, c * k, T0), 1e-9, 1e-9), "%s at %s K: %s, table %s", f, T0, e.energy, tab(g, T0))
    cur, path = e, [T0]
    for _ in range(rng.randint(1, 4)):
        T = rng.choice(ok)
        prev = snap(cur)
        nxt = cur.get_new_temperature(T)
        check(snap(cur) == prev, "the original changed")
        path.append(T)
        want = n * tab(g, T) + k * cfg.get("const", 0) + corr_at({a: 1 for a in cfg if a == "co2"}, c * k, T)
        check(close(nxt.energy, want, 1e-9, 1e-9), "%s via %s: %s instead of %s", f, path, nxt.energy, want)
        check(nxt.temperature == T and type(nxt) is cl and nxt.composition == e.composition and nxt.data == e.data, "attributes")
        ref = make(T, k)
        check(nxt == ref and hash(nxt) == hash(ref), "differs from an entry created at %s K", T)
        cur = nxt
    s0 = snap(e)
    cur.data["a"] = 7
    check(snap(e) == s0, "data shared with the original")
    one = make(T0, 1)
    check(close(one.energy_per_atom, e.energy_per_atom), "energy per atom depends on the formula multiple: %s %s", one.energy_per_atom, e.energy_per_atom)
    for bad in (min(g) - 1, max(g) + 0.5):
        try:
            e.get_new_temperature(bad)
        except ValueError:
            pass
        else:
            check(False, "%s K accepted", bad)
    return f"{cl.__name__} {f} {path} {cfg} k={k}"


def gset(rng, T, els, cs, seedv):
    import random

    r = random.Random(seedv)
    out = []
    for i, (f, fe, v, m) in enumerate(cs):
        out.append(GibbsComputedEntry(Composition(f) * m, fe, v, T, energy_adjustments=[ConstantEnergyAdjustment(r.uniform(-1, 1), uncertainty=0.05, name="n")] if i % 2 and fe else None, entry_id=f"e{i}", data={}))
    return out


def spec(rng):
    els = pool(rng, 3)
    cs = []
    for c in comps(rng, els, 8, with_elements=True):
        cs.append((c.formula.replace(" ", ""), 0.0 if len(c) == 1 else -rng.uniform(0.05, 3), rng.uniform(8, 30), rng.choice([1, 1, 2])))
    for _ in range(rng.choice([0, 2])):
        f, fe, v, m = rng.choice([x for x in cs if x[1]])
        cs.append((f, fe + rng.uniform(-0.5, 0.5), v * rng.uniform(0.9, 1.1), m))
    return els, cs


@case("sets", 60, bound="sets of <=10 entries incl. polymorphs and tabulated entries, <=3 changes of temperature")
def sets(rng):
    els, cs = spec(rng)
    sv = rng.random()
    T0 = rng.choice(TS)
    es = gset(rng, T0, els, cs, sv)
    extra = [f for f in ("CO2", "Li2O", "MgO", "SiO2", "FeO", "Fe2O3", "NaCl", "CaO") if {str(x) for x in Composition(f).elements} <= set(els)][:2]
    es += [NISTReferenceEntry(Composition(f), T0) for f in extra]
    hull = rng.random() < 0.5
    s = GibbsEntrySet(es, calculate_e_above_hulls=hull)
    before = sorted(snap(e) for e in s)
    cur, path = s, [T0]
    for _ in range(rng.randint(1, 3)):
        T = rng.choice(TS)
        path.append(T)
        cur = cur.get_entries_with_new_temperature(T)
        ref = GibbsEntrySet(gset(rng, T, els, cs, sv) + [NISTReferenceEntry(Composition(f), T) for f in extra], calculate_e_above_hulls=hull)
        a = sorted((e.composition.formula, round(e.energy, 8), e.temperature, type(e).__name__) for e in cur)
        b = sorted((e.composition.formula, round(e.energy, 8), e.temperature, type(e).__name__) for e in ref)
        check(a == b, "via %s: %s != %s", path, a, b)
        check(cur.calculate_e_above_hulls == hull, "option lost")
        if hull:
            x = sorted((e.composition.formula, round(e.energy, 8), round(e.data["e_above_hull"], 6)) for e in cur)
            y = sorted((e.composition.formula, round(e.energy, 8), round(e.data["e_above_hull"], 6)) for e in ref)
            check(x == y, "energies above hull at %s", T)
    check(sorted(snap(e) for e in s) == before, "the original set changed")
    return f"{els} {path} {len(es)}"


@case("reactions", 120, bound="reactions and reaction sets over <=11 entries incl. polymorphs, open and closed, <=3 changes of temperature")
def reactions(rng):
    els, cs = spec(rng)
    sv = rng.random()
    T0 = rng.choice(TS)
    es = gset(rng, T0, els, cs, sv)
    open_el = rng.choice([None, rng.choice(els)])
    mu = -rng.uniform(0, 2)
    rx = computed_rxns(rng, es, rng.randint(1, 5), open_el=open_el, mu=mu)
    kw = {"open_elem": open_el, "chempot": mu} if open_el else {}
    s = ReactionSet.from_rxns(rx, entries=es, **kw)
    before = [(snapshot(r), r.energy) for r in s]
    pos = {e.entry_id: i for i, e in enumerate(es)}

    def at(r, T):
        new = gset(rng, T, els, cs, sv)
        k2 = {"chempots": r.chempots} if open_el else {}
        return type(r)([new[pos[e.entry_id]] for e in r.entries], r.coefficients, data=r.data, lowest_num_errors=r.lowest_num_errors, **k2)

    path = [T0]
    r0 = rx[0]
    cur, curs = r0, s
    sn = (snapshot(r0), r0.energy)
    for _ in range(rng.randint(1, 3)):
        T = rng.choice(TS)
        path.append(T)
        cur = cur.get_new_temperature(T)
        w = at(r0, T)
        check(type(cur) is type(r0) and close(cur.energy, w.energy, 1e-7) and close(cur.energy_per_atom, w.energy_per_atom, 1e-7), "reaction via %s: %s instead of %s", path, cur.energy, w.energy)
        check(coef_map(cur) == coef_map(r0) and cur.data == r0.data and cur.lowest_num_errors == r0.lowest_num_errors and getattr(cur, "chempots", None) == getattr(r0, "chempots", None), "reaction changed otherwise")
        check(all(e.temperature == T for e in cur.entries), "entries at another temperature")
        curs = curs.set_new_temperature(T)
        a = sorted((rkey(r), round(r.energy, 7), round(r.energy_per_atom, 7), type(r).__name__) for r in curs)
        b = sorted((rkey(at(r, T)), round(at(r, T).energy, 7), round(at(r, T).energy_per_atom, 7), type(r).__name__) for r in rx)
        check(len(a) == len(b) and all(x[0] == y[0] and close(x[1], y[1], 1e-6) and close(x[2], y[2], 1e-6) and x[3] == y[3] for x, y in zip(a, b)), "reaction set via %s: %s instead of %s", path, a, b)
        check(all(e.temperature == T for e in curs.entries), "entries of the set")
    ts = rng.sample([300, 600, 900, 1250], 2)
    res = s.compute_at_temperatures(ts)
    check(sorted(res) == sorted(ts), "temperatures %s", list(res))
    for T in ts:
        a = sorted((rkey(r), round(r.energy, 7)) for r in res[T])
        b = sorted((rkey(at(r, T)), round(at(r, T).energy, 7)) for r in rx)
        check(len(a) == len(b) and all(x[0] == y[0] and close(x[1], y[1], 1e-6) for x, y in zip(a, b)), "compute_at_temperatures(%s)", T)
    check((snapshot(r0), r0.energy) == sn and [(snapshot(r), r.energy) for r in s] == before, "the original changed")
    return f"{open_el} {path} {r0}"
