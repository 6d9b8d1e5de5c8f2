"""R11: conversion of computed entries into Gibbs entries."""
import inspect

from specs.chemsys import *  # noqa: F403
from pyvc.interp import func_ast
from pyvc.loops import havoc_list, havoc_set, invariant_rule
from pymatgen.analysis.phase_diagram import PhaseDiagram
from pymatgen.entries.entry_tools import EntrySet
from rxn_network.entries import entry_set as es
from rxn_network.entries.entry_set import GibbsEntrySet as GES

T = "rxn_network.entries.entry_set:GibbsEntrySet."
OUTE = Kind("ResultEntry", None)
GIB = OUTE.fn("estimated_entry", ENTRY.sort)
EXP = OUTE.fn("tabulated_entry", I, FORMULA.sort)
OUTE.binop["eq_native"] = lambda E, x, y: False
HASX = z3.Function("source_has", I, FORMULA.sort, z3.BoolSort())
PDX = Kind("PhaseDiagram", PhaseDiagram)
REFOF, PDEL, INPD = ENTRY.fn("element_reference", PDX.sort, ELEM.sort), z3.Function("diagram_element", PDX.sort, ELEM.sort, z3.BoolSort()), z3.Function("in_diagram", PDX.sort, ENTRY.sort, z3.BoolSort())
FE = z3.Function("formation_energy_per_atom", PDX.sort, ENTRY.sort, R)
ISEL = z3.Function("is_element", COMP.sort, z3.BoolSort())
COMP.attrs["is_element"] = lambda E, c: SBool(ISEL(c.t))
PDX.attrs["all_entries"] = lambda E, p: entries_of(E, p)
PDX.methods["get_form_energy_per_atom"] = lambda E, p, a, k: SNum(FE(p.t, (list(a) + list(k.values()))[0].t), True)
DESC = Kind("EntryPart", None)
DESC.truth = lambda E, d: True
DESC.binop["eq_native"] = lambda E, x, y: False
PART = {n: DESC.fn("entry_" + n, ENTRY.sort) for n in ("structure", "entry_id", "parameters", "data")}
for _n, _f in PART.items():
    ENTRY.attrs[_n] = lambda E, e, _f=_f: SObj(DESC, _f(e.t))
WHOSE = ENTRY.fn("entry_of_structure", DESC.sort)
CORR = Kind("Correction", None)
CARB, HASCARB = CORR.fn("carbonate_correction", ENTRY.sort), z3.Function("needs_carbonate_correction", ENTRY.sort, z3.BoolSort())
CO2 = CORR.fn("atmospheric_correction", R, R)
CO2F = z3.Const("formula!CO2", FORMULA.sort)


def entries_of(E, p):
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    return VList([Seg([(x, None)], INPD(p.t, x), SObj(ENTRY, x))], "list", E.tick(), True, True)


def _refs(E, p):
    e = z3.Const(fresh_name("e"), ELEM.sort)
    return VDict([Seg([(e, None)], PDEL(p.t, e), E.tup(SObj(ELEM, e), SObj(ENTRY, REFOF(p.t, e))))], E.tick())


PDX.attrs["el_refs"] = _refs


def bound(fn, a, k):
    fn = getattr(fn, "__func__", fn)
    sig = inspect.signature(fn)
    ps = list(sig.parameters)
    a = list(a)
    if ps and ps[0] in ("cls", "self") and not (a and not isinstance(a[0], (SObj, VList, VDict, SNum, SBool, bool, str))):
        a = [None, *a]
    b = sig.bind(*a, **k)
    b.apply_defaults()
    return b.arguments


FLAGS = ("include_nist_data", "include_freed_data", "apply_carbonate_correction", "apply_atmospheric_co2_correction", "ignore_nist_solids", "calculate_e_above_hulls", "minimize_obj_size")


def flags(E):
    return {n: E.bool(n) for n in FLAGS}


def made(E):
    """the result set: its constructor keeps the given entries (contract of R10)"""
    out = []

    def hook(E2, a, k):
        v = bound(GES.__init__, [None, *a], k)
        o = E2.obj(Kind("GibbsSet", None), "result")
        out.append((v, o))
        return o

    E.contracts[(GES, "__call__")] = hook
    return out


def prove_made(E, out, res, fl):
    E.prove("one result set", z3.BoolVal(len(out) == 1 and isinstance(res, SObj)))
    v, o = out[0]
    E.prove("the result set is returned", res.t == o.t if res.kind.sort == o.kind.sort else z3.BoolVal(False))
    for n in ("calculate_e_above_hulls", "minimize_obj_size"):
        E.prove(f"{n} is passed on", E.zb(E.truth(v[n])) == fl[n].t)
    return v["entries"]


def used(fl, s):
    return fl["include_nist_data"].t if s == 0 else fl["include_freed_data"].t


def tabulated(fl, f):
    return z3.Or(*[z3.And(used(fl, s), HASX(s, f)) for s in (0, 1)])


def eligible(p, x):
    e = z3.Const("e!", ELEM.sort)
    return z3.Or(z3.Not(ISEL(ECOMP(x))), z3.Exists([e], z3.And(PDEL(p, e), REFOF(p, e) == x)))


def rule(fl, p, x, y):
    """y is one of the entries the compound of x is represented by"""
    f = RFORM(ECOMP(x))
    return z3.And(eligible(p, x), z3.If(tabulated(fl, f), z3.Or(*[z3.And(used(fl, s), HASX(s, f), y == EXP(s, f)) for s in (0, 1)]), y == GIB(x)))


def atmospheric(E, a, k):
    """the correction is determined by the number of atoms and the temperature (its value: R12)"""
    v = bound(es.CarbonDioxideAtmosphericCorrection.__init__, [None, *a], k)
    if E.num(v["pco2"]) is None or not isinstance(v["pco2"], float) or v["pco2"] != inspect.signature(es.CarbonDioxideAtmosphericCorrection.__init__).parameters["pco2"].default:
        raise Undecided("another partial pressure")
    n, t = E.num(v["n_atoms"]), E.num(v["temp"])
    return SObj(CORR, CO2(*[z3.ToReal(q) if q.is_int() else q for q in (n, t)]))


@contract("every compound gets its tabulated entries if a switched-on source has it and its estimated entry otherwise, elements their reference", [T + "from_pd"], budget=200)
def _(E):
    p, t, fl = E.obj(PDX, "pd"), E.real("T"), flags(E)
    x0 = z3.Const("x!", ENTRY.sort)
    E.axioms.append(z3.ForAll([x0], WHOSE(PART["structure"](x0)) == x0, patterns=[PART["structure"](x0)]))
    out = made(E)

    def experimental(E2, a, k):
        v = bound(GES._check_for_experimental, a, k)
        name = E2.resolve(v["cls_name"])
        s = {"nist": 0, "freed": 1}.get(name.lower() if isinstance(name, str) else None)
        if s is None:
            raise Undecided("source name")
        E2.prove(f"{name}: only if switched on", used(fl, s))
        E2.prove(f"{name}: requested temperature", E2.num(v["temperature"]) == t.t)
        E2.prove(f"{name}: solids ignored as requested", E2.zb(E2.truth(v["ignore_nist_solids"])) == fl["ignore_nist_solids"].t) if s == 0 else None
        E2.prove(f"{name}: CO2 correction as requested", E2.zb(E2.truth(v["apply_atmospheric_co2_correction"])) == fl["apply_atmospheric_co2_correction"].t)
        f = v["formula"].t
        return SObj(OUTE, EXP(z3.IntVal(s), f)) if E2.branch(HASX(s, f)) else None

    def estimate(E2, a, k):
        v = bound(es.GibbsComputedEntry.from_structure, a, k)
        v.update(v.pop("kwargs", {}))
        w = WHOSE(v["structure"].t)
        E2.prove("estimate: its formation energy in the diagram", E2.num(v["formation_energy_per_atom"]) == FE(p.t, w))
        E2.prove("estimate: requested temperature", E2.num(v["temperature"]) == t.t)
        for n in ("entry_id", "parameters", "data"):
            E2.prove(f"estimate: {n} of the computed entry", v[n].t == PART[n](w) if isinstance(v.get(n), SObj) else z3.BoolVal(False))
        adj = v.get("energy_adjustments")
        cs = [E2.resolve(c) for c in adj.items()] if isinstance(adj, VList) and adj.concrete() else None
        if cs is None and adj is not None:
            raise Undecided("form of the corrections")
        cs = cs or []
        is_carb = z3.And(fl["apply_carbonate_correction"].t, HASCARB(w))
        is_co2 = z3.And(fl["apply_atmospheric_co2_correction"].t, RFORM(ECOMP(w)) == CO2F)
        want = [(is_carb, CARB(w)), (is_co2, CO2(E2.num(E2.getattr(SObj(COMP, ECOMP(w)), "num_atoms")), t.t))]
        E2.prove("estimate: as many corrections as requested and applicable", z3.IntVal(len(cs)) == z3.Sum([z3.If(c, 1, 0) for c, _ in want]))
        for c, term in want:
            E2.prove("estimate: the corrections requested and applicable", z3.Implies(c, z3.Or(*[q.t == term for q in cs], z3.BoolVal(False))))
        return SObj(OUTE, GIB(w))

    E.contracts[GES._check_for_experimental] = experimental
    E.contracts[es.GibbsComputedEntry.from_structure.__func__] = estimate
    carb = lambda E2, a, k: SObj(CORR, CARB((list(a) + list(k.values()))[0].t)) if E2.branch(HASCARB((list(a) + list(k.values()))[0].t)) else None
    E.contracts[GES._get_carbonate_correction] = carb
    E.contracts[(es.CarbonDioxideAtmosphericCorrection, "__call__")] = atmospheric

    def lists(fr):
        r = [E.find_frame(fr, n) for n in ("gibbs_entries", "experimental_formulas")]
        if not all(r):
            raise Undecided("no lists of entries and tabulated formulas")
        return [f.vars[n] for f, n in zip(r, ("gibbs_entries", "experimental_formulas"))]

    mem = lambda l, o: E.zb(E.merge_bool(E.generic([o.t], z3.BoolVal(True), lambda: E.contains(l, o))))

    def inv(E, fr, done):
        ge, ef = lists(fr)
        y, f = z3.Const(fresh_name("y"), OUTE.sort), z3.Const(fresh_name("f"), FORMULA.sort)
        my, mf = mem(ge, SObj(OUTE, y)), mem(ef, SObj(FORMULA, f))
        tab = lambda e: z3.And(eligible(p.t, e.t), tabulated(fl, RFORM(ECOMP(e.t))))
        return [("nothing but what the compounds handled call for", z3.ForAll([y], z3.Implies(my, done.any(lambda e: rule(fl, p.t, e.t, y))))),
                ("all that the compounds handled call for", z3.ForAll([y], z3.Implies(done.any(lambda e: rule(fl, p.t, e.t, y)), my))),
                ("formulas with tabulated entries only", z3.ForAll([f], z3.Implies(mf, done.any(lambda e: z3.And(tab(e), RFORM(ECOMP(e.t)) == f)))))]

    def havoc(E, fr):
        ge, ef = lists(fr)
        for l, kind in ((ge, OUTE), (ef, FORMULA)):
            if l.kind == "set":
                P = z3.Function(fresh_name("listed"), kind.sort, z3.BoolSort())
                havoc_set(E, l, kind, lambda x, P=P: P(x))
                continue
            n = E.fresh("n", I)
            E.assume(n >= 0)
            A = kind.fn(fresh_name("listed"), I)
            havoc_list(E, l, n, lambda k, A=A, kind=kind: SObj(kind, A(k)))
        return [ge, ef]

    node = lambda: func_ast(GES.from_pd.__func__)
    E.loop_hooks = [invariant_rule(node, lambda E, n, fr: n in node().body and E.find_frame(fr, "gibbs_entries") is not None, havoc, inv, "compounds")]
    res = E.call(GES.from_pd, [p, t], dict(fl))
    E.cover("reachable")
    ents = prove_made(E, out, res, fl)
    y = E.obj(OUTE, "y")
    E.prove("exactly the entries the compounds call for", E.zb(E.contains(ents, y)) == z3.Exists([x0], z3.And(INPD(p.t, x0), rule(fl, p.t, x0, y.t))))


GSET = Kind("GibbsSetOf", None)
GHAS, OFPD = z3.Function("set_has", GSET.sort, OUTE.sort, z3.BoolSort()), GSET.fn("converted", PDX.sort)


def _gset(E, s):
    y = z3.Const(fresh_name("y"), OUTE.sort)
    return VList([Seg([(y, None)], GHAS(s.t, y), SObj(OUTE, y))], "set", E.tick(), True, True)


GSET.iter = _gset


@contract("all entries are converted with the requested settings, through one diagram or through the diagrams of an expansion", [T + "from_computed_entries"], budget=120)
def _(E):
    t, fl = E.real("T"), flags(E)
    ESK = Kind("ComputedSet", None)
    HASE = z3.Function(fresh_name("given"), ENTRY.sort, z3.BoolSort())
    nel = E.int("elements").t
    E.assume(nel >= 1)
    members = lambda E2, kind: (lambda x: VList([Seg([(x, None)], HASE(x), SObj(ENTRY, x))], kind, E2.tick(), True, True))(z3.Const(fresh_name("x"), ENTRY.sort))
    arg = members(E, "list")
    ESK.iter = lambda E2, s: members(E2, "set")
    SYS = SYM.fn(fresh_name("system_symbol"), I)
    i, j = z3.Ints("i! j!")
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < nel), SYS(i) != SYS(j))))
    q = z3.Int(fresh_name("q"))
    ESK.attrs["chemsys"] = lambda E2, s: VList([Seg([(q, nel)], z3.BoolVal(True), SObj(SYM, SYS(q)))], "set", E2.tick(), True, True)
    only = lambda E2, l: z3.BoolVal(l.kind is ESK) if isinstance(l, SObj) else allgiven(E2, l)

    def allgiven(E2, l):
        x = z3.Const(fresh_name("x"), ENTRY.sort)
        return z3.ForAll([x], E2.zb(E2.merge_bool(E2.generic([x], z3.BoolVal(True), lambda: E2.contains(E2.iterate(l), SObj(ENTRY, x))))) == HASE(x))

    def entry_set(E2, a, k):
        E2.prove("all given entries", only(E2, (list(a) + list(k.values()))[0]))
        return E2.obj(ESK, "eset")

    E.contracts[(EntrySet, "__call__")] = entry_set
    WHOLE = E.obj(PDX, "diagram_of_all")

    def diagram(E2, a, k):
        E2.prove("diagram of all given entries", only(E2, (list(a) + list(k.values()))[0]))
        return WHOLE

    E.contracts[(PhaseDiagram, "__call__")] = diagram
    INDICT, PDOF = z3.Function(fresh_name("in_expansion"), CHEMSYS.sort, z3.BoolSort()), PDX.fn(fresh_name("diagram_of"), CHEMSYS.sort)

    def expansion(E2, a, k):
        E2.prove("all given entries are expanded", only(E2, (list(a) + list(k.values()))[0]))
        c = z3.Const(fresh_name("c"), CHEMSYS.sort)
        d = VDict([Seg([(c, None)], INDICT(c), E2.tup(SObj(CHEMSYS, c), SObj(PDX, PDOF(c))))], E2.tick())
        d.meta["distinct"] = True
        return d

    E.contracts[es.expand_pd] = expansion

    def convert(E2, a, k):
        v = bound(GES.from_pd, a, k)
        E2.prove("conversion at the requested temperature", E2.num(v["temperature"]) == t.t)
        for n in FLAGS[:5]:
            E2.prove(f"conversion with the requested {n}", E2.zb(E2.truth(v[n])) == fl[n].t)
        if v["pd"].t.eq(WHOLE.t):
            for n in FLAGS[5:]:
                E2.prove(f"conversion with the requested {n}", E2.zb(E2.truth(v[n])) == fl[n].t)
        return SObj(GSET, OFPD(v["pd"].t))

    E.contracts[GES.from_pd.__func__] = convert
    out = made(E)
    res = E.call(GES.from_computed_entries, [arg, t], dict(fl))
    E.cover("reachable")
    if not out:
        E.cover("one diagram")
        E.prove("the conversion of the diagram of all entries", res.t == OFPD(WHOLE.t) if res.kind is GSET else z3.BoolVal(False))
        return
    E.cover("expansion")
    ents = prove_made(E, out, res, fl)
    y, c = E.obj(OUTE, "y"), z3.Const("c!", CHEMSYS.sort)
    E.prove("exactly the conversions of the diagrams of the expansion", E.zb(E.contains(ents, y)) == z3.Exists([c], z3.And(INDICT(c), GHAS(OFPD(PDOF(c)), y.t))))


def tables(source):
    cl = {"nist": es.NISTReferenceEntry, "freed": es.FREEDReferenceEntry}[source]

    @contract(f"the tabulated entry of a compound is used unless it is an ignored solid or outside the table's temperatures ({source})", [T + "_check_for_experimental"])
    def _(E):
        f, t, ig, co2 = E.obj(FORMULA, "formula"), E.real("T"), E.bool("ignore"), E.bool("co2")
        inrange = E.bool("temperature_in_table")
        E.contracts[(es.CarbonDioxideAtmosphericCorrection, "__call__")] = atmospheric
        made = []

        def build(E2, a, k):
            v = bound(cl.__init__, [None, *a], k)
            E2.prove("the compound's composition", v["composition"].t == COMP_OF(f.t))
            E2.prove("requested temperature", E2.num(v["temperature"]) == t.t)
            adj = v.get("energy_adjustments")
            cs = [] if adj is None else [E2.resolve(x) for x in adj.items()]
            E2.prove("atmospheric correction of CO2 only, as requested", z3.BoolVal(len(cs) == 1) == z3.And(co2.t, f.t == CO2F))
            if cs:
                E2.prove("the correction is for the three atoms at the requested temperature", cs[0].t == CO2(z3.RealVal(3), t.t))
            if not E2.branch(inrange.t):
                raise VRaise(ValueError("temperature"))
            made.append(1)
            return SObj(OUTE, EXP(z3.IntVal(0 if source == "nist" else 1), f.t))

        for c in (es.NISTReferenceEntry, es.FREEDReferenceEntry):
            E.contracts[(c, "__call__")] = build if c is cl else (lambda E2, a, k: E2.prove("the table asked for", z3.BoolVal(False)))
        out = E.resolve(E.call(GES._check_for_experimental, [f, source, t, ig, co2], {}))
        E.cover("reachable")
        listed = E.zb(E.contains(E.lift(list(cl.REFERENCES)), f))
        ignored = z3.And(ig.t, E.zb(E.contains(E.lift(list(es.IGNORE_NIST_SOLIDS)), f))) if source == "nist" else z3.BoolVal(False)
        E.prove("an entry exactly if listed, in range and not ignored", z3.BoolVal(out is not None) == z3.And(listed, z3.Not(ignored), inrange.t))


tables("nist")
tables("freed")
