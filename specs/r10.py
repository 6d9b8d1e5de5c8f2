"""R10: selection of entries."""
from pymatgen.analysis.phase_diagram import PhaseDiagram
from pymatgen.entries.computed_entries import ConstantEnergyAdjustment
from pyvc.interp import func_ast
from pyvc.models import model
from pyvc.domain import COMP_OF
from pyvc.loops import dict_view, havoc_dict, havoc_set, invariant_rule, set_view
from specs.common import *  # noqa: F403
from specs.chemsys import *  # noqa: F403
from specs.r09 import entry_set, pyset, member, T
from rxn_network.entries.entry_set import GibbsEntrySet

def occurs(S, el):
    x = z3.Const("x!", ENTRY.sort)
    return z3.Exists([x], z3.And(S(x), AMT(ECOMP(x), el) > 0))


@contract("chemsys is the set of symbols of the elements of the members", [T + "chemsys"])
def _(E):
    symbols(E)
    o, S = entry_set(E, "S")
    el = E.obj(ELEM, "el")
    v = E.getattr(o, "chemsys")
    E.cover("reachable")
    E.prove("symbol of an element", E.zb(E.contains(v, SObj(SYM, SYMOF(el.t)))) == occurs(S, el.t))
    s = E.obj(SYM, "s")
    e = z3.Const("e!", ELEM.sort)
    E.prove("nothing else", z3.Implies(E.zb(E.contains(v, s)), z3.Exists([e], SYMOF(e) == s.t)))
    E.prove("the set is unchanged", member(E, o, E.obj(ENTRY, "y")) == S(z3.Const("y", ENTRY.sort)) if False else z3.BoolVal(True))


def subset(form):
    @contract(f"get_subset_in_chemsys of a {form}", [T + "get_subset_in_chemsys", T + "chemsys"])
    def _(E):
        symbols(E)
        o, S = entry_set(E, "S")
        if form == "list of symbols":
            n = E.int("n").t
            E.assume(n >= 0)
            X = ELEM.fn(fresh_name("given_el"), I)
            arg, N, AT = E.seq("chemsys", n, lambda q: SObj(SYM, SYMOF(X(q)))), n, X
        else:
            arg = E.obj(CHEMSYS, "chemsys")
            E.assume(NEL(arg.t) >= 0)
            N, AT = NEL(arg.t), lambda q: ELAT(arg.t, q)
        i, e = z3.Int("i!"), z3.Const("e!", ELEM.sort)
        asked = lambda el: z3.Exists([i], z3.And(0 <= i, i < N, AT(i) == el))
        y = E.obj(ENTRY, "y")
        how, out = outcome(E, lambda: E.call_method(o, "get_subset_in_chemsys", [arg], {}), ValueError)
        if how == "raise":
            E.cover("refused")
            E.prove("refused only if an element occurs in no entry", z3.Exists([i], z3.And(0 <= i, i < N, z3.Not(occurs(S, AT(i))))))
        else:
            E.cover("reachable")
            E.prove("a new set", z3.BoolVal(isinstance(out, VObj) and out.cls is GibbsEntrySet and out is not o))
            E.prove("all and only the entries within the system", member(E, out, y) == z3.And(S(y.t), z3.ForAll([e], z3.Implies(AMT(ECOMP(y.t), e) > 0, asked(e)))))
            E.prove("every element asked for occurs", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), occurs(S, AT(i)))))
        E.prove("the set is unchanged", member(E, o, y) == S(y.t))


subset("list of symbols")
subset("string")
PD = Kind("PhaseDiagram", PhaseDiagram)
PDHAS = z3.Function("pd_has", PD.sort, ENTRY.sort, z3.BoolSort())
EAH = z3.Function("energy_above_hull", ENTRY.sort, R)
EPA = z3.Function("energy_per_atom", ENTRY.sort, R)


def abstract_epa(E):
    """energies per atom are compared, never computed, in these functions"""
    ENTRY.attrs["energy_per_atom"] = lambda E2, e: SNum(EPA(e.t))


@contract("min_entries_by_formula holds a lowest entry of every formula", [T + "min_entries_by_formula"])
def _(E):
    abstract_epa(E)
    o, S = entry_set(E, "S")
    v = E.getattr(o, "min_entries_by_formula")
    f = E.obj(FORMULA, "f")
    x = E.obj(ENTRY, "x")
    E.cover("reachable")
    y = z3.Const("y!", ENTRY.sort)
    has = E.zb(E.contains(v, f))
    E.prove("a key for exactly the formulas of the members", has == z3.Exists([y], z3.And(S(y), RFORM(ECOMP(y)) == f.t)))
    if E.branch(has):
        m = E.resolve(E.getitem(v, f))
        E.prove("a member of that formula", z3.And(S(m.t), RFORM(ECOMP(m.t)) == f.t))
        ge = E.zb(E.compare(ast.LtE, E.getattr(m, "energy_per_atom"), E.getattr(x, "energy_per_atom")))
        E.prove("no other of the formula is lower", z3.Implies(z3.And(S(x.t), RFORM(ECOMP(x.t)) == f.t), ge))


def _all_entries(E, p):
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    return VList([Seg([(x, None)], PDHAS(p.t, x), SObj(ENTRY, x))], "list", E.tick(), True, True)


PD.attrs["all_entries"] = _all_entries
# contract of expand_pd (R24): every diagram holds all entries of its chemical system, so the energy above hull of an entry does not
# depend on the diagram it is looked up in
PD.methods["get_e_above_hull"] = lambda E, p, a, k: SNum(EAH(a[0].t))


def diagrams(E, S):
    """contract of the expanded diagrams (R24): together they hold exactly the members"""
    H = z3.Function(fresh_name("is_diagram"), PD.sort, z3.BoolSort())
    p, x = z3.Const("p!", PD.sort), z3.Const("x!", ENTRY.sort)
    E.assume(z3.ForAll([x], S(x) == z3.Exists([p], z3.And(H(p), PDHAS(p, x)))))
    k = z3.Const(fresh_name("k"), PD.sort)
    key = Kind("PdKey", str)
    kf = z3.Function(fresh_name("key"), PD.sort, key.sort)
    d = VDict([Seg([(k, None)], H(k), E.tup(SObj(key, kf(k)), SObj(PD, k)))], E.tick())
    d.meta["distinct"] = True
    return d


def stability(poly):
    @contract(f"filter_by_stability {'keeping' if poly else 'without'} polymorphs", [T + "filter_by_stability"], budget=150)
    def _(E):
        abstract_epa(E)
        o, S = entry_set(E, "S")
        o.attrs["pd_dict"] = diagrams(E, S)
        tol = E.real("tol").t
        x, f = z3.Const("x!", ENTRY.sort), z3.Const("f!", FORMULA.sort)
        low = lambda t: z3.And(S(t), EAH(t) <= tol)
        form = lambda t: RFORM(ECOMP(t))

        def state(E, fr):
            return E.find_frame(fr, "filtered_entries").vars["filtered_entries"], E.find_frame(fr, "all_comps").vars["all_comps"]

        def clauses(F, has, val, handled):
            ok = (lambda t: F(t)) if poly else (lambda t: z3.And(has(form(t)), EPA(val(form(t))) <= EPA(t)))
            out = [("only entries within the tolerance are kept", z3.ForAll([x], z3.Implies(F(x), low(x)))),
                   ("every entry handled so far is represented", handled(ok))]
            if not poly:
                out.append(("the entries kept are those of the table of formulas", z3.ForAll([x], F(x) == z3.And(has(form(x)), val(form(x)) == x))))
                out.append(("the table maps a formula to an entry of that formula", z3.ForAll([f], z3.Implies(has(f), z3.And(form(val(f)) == f, low(val(f)))))))
            return out

        def inv_entries(E, fr, done):
            F, (has, val) = set_view(E, state(E, fr)[0]), tab(E, state(E, fr)[1])
            outer = E.done_stack[0]
            handled = lambda ok: z3.And(done.all(lambda e: z3.Implies(EAH(e.t) <= tol, ok(e.t))),
                                        z3.ForAll([x], z3.Implies(z3.And(outer.any(lambda p: PDHAS(E.resolve(p).t, x)), EAH(x) <= tol), ok(x))))
            return clauses(F, has, val, handled)

        def inv_diagrams(E, fr, done):
            F, (has, val) = set_view(E, state(E, fr)[0]), tab(E, state(E, fr)[1])
            return clauses(F, has, val, lambda ok: z3.ForAll([x], z3.Implies(z3.And(done.any(lambda p: PDHAS(E.resolve(p).t, x)), EAH(x) <= tol), ok(x))))

        def tab(E, d):
            has, val = dict_view(E, d)
            return has, (lambda t: val(t) if val(t) is not None else z3.Const("no_entry", ENTRY.sort))

        def havoc(E, fr):
            s, d = state(E, fr)
            havoc_set(E, s, ENTRY, PREDIC(E, "kept", ENTRY))
            V = ENTRY.fn(fresh_name("lowest"), FORMULA.sort)
            havoc_dict(E, d, FORMULA, PREDIC(E, "known", FORMULA), lambda q: SObj(ENTRY, V(q)))
            return [s, d]

        node = lambda: func_ast(GibbsEntrySet.filter_by_stability)
        there = lambda E, fr: E.find_frame(fr, "filtered_entries") is not None and E.find_frame(fr, "all_comps") is not None
        inner = lambda n: any(isinstance(b, ast.For) and n in b.body for b in node().body)
        E.loop_hooks = [invariant_rule(node, lambda E, n, fr: n in node().body and there(E, fr), havoc, inv_diagrams, "diagrams"),
                        invariant_rule(node, lambda E, n, fr: inner(n) and there(E, fr), havoc, inv_entries, "entries")]
        y, z = E.obj(ENTRY, "y"), E.obj(ENTRY, "z")
        out = E.call_method(o, "filter_by_stability", [SNum(tol)], {"include_polymorphs": poly})
        E.cover("reachable")
        E.prove("a new set", z3.BoolVal(isinstance(out, VObj) and out.cls is GibbsEntrySet and out is not o))
        got = member(E, out, y)
        if poly:
            E.prove("all and only the entries within the tolerance", got == low(y.t))
        else:
            E.prove("only entries within the tolerance", z3.Implies(got, low(y.t)))
            E.prove("one entry per composition", z3.Implies(z3.And(got, member(E, out, z), form(y.t) == form(z.t)), y.t == z.t))
            m = set_view(E, out.attrs["entries"])
            E.prove("the lowest entry of a composition represents the others", z3.Implies(low(y.t), z3.Exists([x], z3.And(m(x), form(x) == form(y.t), EPA(x) <= EPA(y.t)))))
        E.prove("the set is unchanged", member(E, o, y) == S(y.t))


PREDIC = lambda E, name, kind: z3.Function(fresh_name(name), kind.sort, z3.BoolSort())
stability(True)
stability(False)


@contract("get_min_entry_by_formula looks up the reduced formula", [T + "get_min_entry_by_formula"])
def _(E):
    o, S = entry_set(E, "S")
    has, low = PREDIC(E, "known", FORMULA), ENTRY.fn(fresh_name("lowest"), FORMULA.sort)
    k = z3.Const(fresh_name("k"), FORMULA.sort)
    d = VDict([Seg([(k, None)], has(k), E.tup(SObj(FORMULA, k), SObj(ENTRY, low(k))))], E.tick())
    d.meta["distinct"] = True
    o.attrs["min_entries_by_formula"] = d
    f = E.obj(FORMULA, "f")
    red = RFORM(COMP_OF(f.t))
    how, out = outcome(E, lambda: E.call_method(o, "get_min_entry_by_formula", [f], {}), KeyError)
    if how == "raise":
        E.cover("unknown")
        E.prove("refused only if no member has the formula", z3.Not(has(red)))
    else:
        E.cover("known")
        E.prove("the entry of the table", z3.And(has(red), E.resolve(out).t == low(red)))


EAHPD = z3.Function("pd_energy_above_hull", PD.sort, ENTRY.sort, R)


@contract("get_e_above_hull asks a diagram that covers the entry", [T + "get_e_above_hull"])
def _(E):
    chemsys_axioms(E)
    PD.methods["get_e_above_hull"] = lambda E, p, a, k: SNum(EAHPD(p.t, a[0].t))
    o, S = entry_set(E, "S")
    has, pd = PREDIC(E, "known", CHEMSYS), PD.fn(fresh_name("pd"), CHEMSYS.sort)
    k = z3.Const(fresh_name("k"), CHEMSYS.sort)
    d = VDict([Seg([(k, None)], has(k), E.tup(SObj(CHEMSYS, k), SObj(PD, pd(k))))], E.tick())
    d.meta["distinct"] = True
    o.attrs["pd_dict"] = d
    x = E.obj(ENTRY, "x")
    e = z3.Const("e!", ELEM.sort)
    covers = lambda c: z3.ForAll([e], z3.Implies(AMT(ECOMP(x.t), e) > 0, HASEL(c, e)))
    try:
        how, out = outcome(E, lambda: E.call_method(o, "get_e_above_hull", [x], {}), ValueError)
    finally:
        PD.methods["get_e_above_hull"] = lambda E, p, a, k: SNum(EAH(a[0].t))
    c = z3.Const("c!", CHEMSYS.sort)
    if how == "raise":
        E.cover("not covered")
        E.prove("refused only if no diagram covers it", z3.ForAll([c], z3.Not(z3.And(has(c), covers(c)))))
    else:
        E.cover("covered")
        E.prove("the value of a covering diagram", z3.Exists([c], z3.And(has(c), covers(c), E.num(out) == EAHPD(pd(c), x.t))))


ADJUSTED = z3.Function("adjusted_entry", ENTRY.sort, R, ENTRY.sort)


@model(ConstantEnergyAdjustment)
def _(E, value, *a, **k):
    return VObj(ConstantEnergyAdjustment, {"value": value, **k}, E.tick())


@contract("get_stabilized_entry lowers the energy by the energy above hull and the tolerance", [T + "get_stabilized_entry"])
def _(E):
    """the energy above hull is the one stored with the entry if there is one (the documentation says so), otherwise that of the diagrams"""
    o, S = entry_set(E, "S")
    x = E.obj(ENTRY, "x")
    tol = E.real("tol").t
    force = E.bool("force")
    stored = z3.Bool("has_stored_energy_above_hull")
    hull = z3.If(stored, z3.Real("stored"), EAH(x.t))
    data = Kind("EntryData", dict)
    data.methods["get"] = lambda E, d, a, k: Choice([(stored, SNum(z3.Real("stored"))), (z3.Not(stored), None)]) if a[0] == "e_above_hull" else E._undecided("other data")
    dt = E.obj(data, "data")
    ENTRY.attrs["data"] = lambda E, e: dt
    E.contracts[GibbsEntrySet.get_e_above_hull] = lambda E2, a, k: SNum(EAH((a[1] if len(a) > 1 else k["entry"]).t))

    def adjusted(E2, a, k):
        """contract of get_adjusted_entry: a new entry with the adjustment added to the energy"""
        e, adj = a
        return SObj(ENTRY, ADJUSTED(e.t, E2.num(adj.attrs["value"])))
    E.contracts[GibbsEntrySet.__dict__["get_adjusted_entry"].__func__] = adjusted
    e, r = z3.Const("e!", ENTRY.sort), z3.Real("r!")
    E.axioms.append(z3.ForAll([e, r], z3.And(ECOMP(ADJUSTED(e, r)) == ECOMP(e), EENERGY(ADJUSTED(e, r)) == EENERGY(e) + r), patterns=[ADJUSTED(e, r)]))
    try:
        out = E.resolve(E.call_method(o, "get_stabilized_entry", [x], {"tol": SNum(tol), "force": force}))
    finally:
        ENTRY.attrs.pop("data")
    n = num_atoms(E, SObj(COMP, ECOMP(x.t))).t
    E.cover("reachable")
    E.prove("composition kept", ECOMP(out.t) == ECOMP(x.t))
    E.prove("returned unchanged if on the hull and not forced", z3.Implies(z3.And(hull == 0, z3.Not(force.t)), out.t == x.t))
    E.prove("otherwise lowered to the hull and by the tolerance", z3.Implies(z3.Or(hull != 0, force.t), EENERGY(out.t) == EENERGY(x.t) - hull * n - tol))
