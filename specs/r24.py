"""R24: expansion into phase diagrams."""
from specs.chemsys import *  # noqa: F403
from pymatgen.analysis.phase_diagram import PhaseDiagram, GrandPotentialPhaseDiagram
from pyvc.interp import func_ast
from pyvc.loops import dict_view, havoc_dict, invariant_rule
from pyvc.models import model
from rxn_network.thermo import utils

PD = Kind("PhaseDiagram", PhaseDiagram)
PDHAS = z3.Function("pd_has", PD.sort, ENTRY.sort, z3.BoolSort())


@model(PhaseDiagram)
def _(E, entries, *a, **k):
    """a phase diagram holds exactly the entries it was built from"""
    lst = E.iterate(entries)
    p = SObj(PD, E.fresh("pd", PD.sort))
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    E.define(z3.ForAll([x], PDHAS(p.t, x) == E.zb(E.merge_bool(E.generic([x], z3.BoolVal(True), lambda: E.contains(lst, SObj(ENTRY, x))))), patterns=[PDHAS(p.t, x)]))
    return p


def within(c, sub):
    """all elements of the composition sub are elements of the chemical system c"""
    e = z3.Const(fresh_name("e"), ELEM.sort)
    return z3.ForAll([e], z3.Implies(AMT(sub, e) > 0, HASEL(c, e)))


def view(E, d):
    has, val = dict_view(E, d)
    return has, (lambda t: val(t) if val(t) is not None else z3.Const("no_diagram", PD.sort))


@contract("expand_pd covers every entry by a diagram of all and only the entries of its system", ["rxn_network.thermo.utils:expand_pd"], budget=120)
def _(E):
    chemsys_axioms(E)
    n = E.int("n").t
    E.assume(n >= 0)
    X = ENTRY.fn(fresh_name("X"), I)
    entries = E.seq("entries", n, lambda q: SObj(ENTRY, X(q)))
    i = z3.Int("i!")
    given = lambda t: z3.Exists([i], z3.And(0 <= i, i < n, X(i) == t))
    k, x = z3.Const("k!", CHEMSYS.sort), z3.Const("x!", ENTRY.sort)

    def clauses(has, val, done):
        return [
            ("every handled entry is covered by a key", done(lambda e: z3.Exists([k], z3.And(has(k), within(k, ECOMP(e.t)))))),
            ("every key is the chemical system of an entry", z3.ForAll([k], z3.Implies(has(k), z3.Exists([x], z3.And(given(x), CSYS(ECOMP(x)) == k))))),
            ("every diagram has all and only the entries of its system", z3.ForAll([k, x], z3.Implies(has(k), PDHAS(val(k), x) == z3.And(given(x), within(k, ECOMP(x)))))),
        ]

    def inv(E, fr, done):
        has, val = view(E, E.find_frame(fr, "pd_dict").vars["pd_dict"])
        return clauses(has, val, done.all)

    def havoc(E, fr):
        d = E.find_frame(fr, "pd_dict").vars["pd_dict"]
        H, V = z3.Function(fresh_name("has"), CHEMSYS.sort, z3.BoolSort()), PD.fn(fresh_name("pd_of"), CHEMSYS.sort)
        havoc_dict(E, d, CHEMSYS, H, lambda q: SObj(PD, V(q)))
        return [d]

    node = lambda: func_ast(utils.expand_pd)
    E.loop_hooks = [invariant_rule(node, lambda E, n, fr: n in node().body and E.find_frame(fr, "pd_dict") is not None, havoc, inv, "expansion")]
    out = E.call(utils.expand_pd, [entries], {})
    E.cover("reachable")
    has, val = view(E, out)
    q = idx(E, n)
    for nm, f in clauses(has, val, lambda f: f(SObj(ENTRY, X(q)))):
        E.prove(nm, f)
