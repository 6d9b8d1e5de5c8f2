"""Abstract domain of the repository: elements, compositions, entries."""
from __future__ import annotations

import ast

import z3
from pymatgen.core.composition import Composition as PMGComposition
from pymatgen.core.periodic_table import Element

from rxn_network.core import Composition

from . import models
from .models import SUMMERS, NativeSym, model
from .interp import MISSING, TRUE
from .vals import *  # noqa: F403

ELEM = Kind("Elem", Element)
COMP = Kind("Comp", Composition)
R = z3.RealSort()
AMT = z3.Function("amt", COMP.sort, ELEM.sort, R)
REDUCED = z3.Function("reduced", COMP.sort, COMP.sort)
FACTOR = z3.Function("redfactor", COMP.sort, R)
ELv = z3.Const("EL!", ELEM.sort)


class CompArith:
    """result of composition arithmetic: amounts as a term over EL!"""

    @staticmethod
    def make(E, amt):
        return VObj(CompArith, {"amt": SNum(amt)}, E.tick())


def amt_of(E, c):
    c = E.resolve(c)
    if isinstance(c, SObj) and c.kind is COMP:
        return AMT(c.t, ELv)
    if isinstance(c, VObj) and c.cls is CompArith:
        return c.attrs["amt"].t
    if isinstance(c, PMGComposition):
        if len(c) == 0:
            return z3.RealVal(0)
    raise Undecided(f"composition expected, got {c!r}")


def domain_axioms(E):
    c = z3.Const("c_ax", COMP.sort)
    e = z3.Const("e_ax", ELEM.sort)
    E.axioms.append(z3.ForAll([c, e], AMT(c, e) >= 0, patterns=[AMT(c, e)]))
    E.axioms.append(z3.ForAll([c], FACTOR(c) > 0, patterns=[FACTOR(c)]))
    E.axioms.append(z3.ForAll([c, e], AMT(c, e) == FACTOR(c) * AMT(REDUCED(c), e), patterns=[AMT(REDUCED(c), e)]))
    E.axioms.append(z3.ForAll([c], REDUCED(REDUCED(c)) == REDUCED(c), patterns=[REDUCED(REDUCED(c))]))


def elements_of(E, c):
    x = z3.Const(fresh_name("k"), ELEM.sort)
    a = z3.substitute(amt_of(E, c), (ELv, x))
    r = VList([Seg([(x, None)], a > 0, SObj(ELEM, x))], "list", E.tick(), True, True)
    return r


def num_atoms(E, c):
    x = z3.Const(fresh_name("k"), ELEM.sort)
    return SNum(E.sigma([(x, None)], TRUE, z3.substitute(amt_of(E, c), (ELv, x))))


def comp_getitem(E, c, el):
    el = E.resolve(el)
    a = amt_of(E, c)
    if isinstance(el, SObj) and el.kind is ELEM:
        return SNum(z3.simplify(z3.substitute(a, (ELv, el.t))))
    raise Undecided("composition lookup by non-element")


COMP.getitem = comp_getitem
COMP.attrs["elements"] = lambda E, c: elements_of(E, c)
COMP.attrs["num_atoms"] = lambda E, c: num_atoms(E, c)
COMP.attrs["reduced_composition"] = lambda E, c: SObj(COMP, REDUCED(c.t))
COMP.methods["get_reduced_composition_and_factor"] = lambda E, c, a, k: E.tup(SObj(COMP, REDUCED(c.t)), SNum(FACTOR(c.t)))
COMP.contains = lambda E, c, el: SBool(AMT(c.t, el.t) > 0) if isinstance(el, SObj) else False
COMP.truth = lambda E, c: SBool(z3.Exists([ELv], AMT(c.t, ELv) > 0))
FORMULA = Kind("Formula", str)
RFORM = z3.Function("reduced_formula", COMP.sort, FORMULA.sort)
COMP.attrs["reduced_formula"] = lambda E, c: SObj(FORMULA, RFORM(c.t))
COMP.methods["get_reduced_formula_and_factor"] = lambda E, c, a, k: E.tup(SObj(FORMULA, RFORM(c.t)), SNum(FACTOR(c.t)))


def comp_binop(E, op, a, b):
    """composition * number, composition + composition, composition - composition"""
    if op is ast.Mult:
        c, k = (a, b) if not E.is_num(a) else (b, a)
        return CompArith.make(E, amt_of(E, c) * E.num(k))
    if op is ast.Div:
        return CompArith.make(E, amt_of(E, a) / E.num(b))
    if op is ast.Add:
        if E.is_num(a) or E.is_num(b):
            raise VRaise(TypeError("composition + number"))
        return CompArith.make(E, amt_of(E, a) + amt_of(E, b))
    if op is ast.Sub:
        return CompArith.make(E, amt_of(E, a) - amt_of(E, b))
    return NotImplemented


for _op in (ast.Mult, ast.Add, ast.Sub, ast.Div):
    COMP.binop[_op] = (lambda op: lambda E, x, y, rev: comp_binop(E, op, *((y, x) if rev else (x, y))))(_op)

_old_binop = models.binop


def _binop(E, op, a, b):
    if any(isinstance(x, VObj) and x.cls is CompArith for x in (a, b)) or any(isinstance(x, PMGComposition) for x in (a, b)):
        return comp_binop(E, op, a, b)
    return _old_binop(E, op, a, b)


models.binop = _binop


def _comp_sum(E, acc, dims, g, e):
    a = amt_of(E, e)
    if E.is_num(acc):
        raise VRaise(TypeError("int + Composition"))
    return CompArith.make(E, amt_of(E, acc) + E.sigma(dims, g, a))


SUMMERS[COMP] = _comp_sum
SUMMERS[CompArith] = _comp_sum


def comparith_attr(E, o, name):
    if name == "almost_equals":
        def f(a, k):
            rtol = k.get("rtol", a[1] if len(a) > 1 else 0.1)
            atol = k.get("atol", a[2] if len(a) > 2 else 1e-8)
            x, y = amt_of(E, o), amt_of(E, a[0])
            d = x - y
            ab = lambda t: z3.If(t < 0, -t, t)
            # pymatgen: |a-b| <= rtol*max(|a|,|b|)?  modelled only for rtol == 0
            if not (isinstance(rtol, (int, float)) and rtol == 0):
                raise Undecided("almost_equals with rtol")
            q = z3.Const(fresh_name("el"), ELEM.sort)
            return SBool(z3.ForAll([q], z3.substitute(ab(d) <= E.num(atol), (ELv, q))))
        return NativeSym(f, name)
    return MISSING


from .exec import Exec  # noqa: E402
from . import linalg, uf  # noqa: E402


class RxnExec(Exec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.attr_hooks[CompArith] = comparith_attr
        self.attr_hooks[uf.UF] = uf.uf_attr
        self.cmp_hooks[uf.UF] = uf.uf_cmp
        self.init_axioms()

    def init_axioms(self):
        domain_axioms(self)


@model(Composition, PMGComposition)
def _(E, *a, **k):
    if len(a) == 1 and not k:
        v = E.resolve(a[0])
        if isinstance(v, SObj) and v.kind is COMP:
            return v
        if isinstance(v, VObj) and v.cls is CompArith:
            return v
        if isinstance(v, SObj) and v.kind is FORMULA:
            return SObj(COMP, COMP_OF(v.t))
        if isinstance(v, VDict) and v.concrete() and not v.pairs[0].items:
            return Composition({})
    if not any(is_sym(x) for x in a):
        return Composition(*[to_native(x) for x in a], **k)
    raise Undecided("Composition(...)")


COMP_OF = z3.Function("comp_of_formula", FORMULA.sort, COMP.sort)


# ------------------------------------------------------------------ entries
from pymatgen.entries.computed_entries import ComputedEntry  # noqa: E402

ENTRY = Kind("Entry", ComputedEntry)
ECOMP = z3.Function("entry_comp", ENTRY.sort, COMP.sort)
EENERGY = z3.Function("entry_energy", ENTRY.sort, R)
EUNC = z3.Function("entry_unc", ENTRY.sort, R)
ENTRY.attrs["composition"] = lambda E, e: SObj(COMP, ECOMP(e.t))
ENTRY.attrs["energy"] = lambda E, e: SNum(EENERGY(e.t))
ENTRY.attrs["energy_per_atom"] = lambda E, e: E.binop(ast.Div, SNum(EENERGY(e.t)), num_atoms(E, SObj(COMP, ECOMP(e.t))))
EUNCNAN = z3.Function("entry_unc_is_nan", ENTRY.sort, z3.BoolSort())
models.NANS["entry_unc"] = EUNCNAN
ENTRY.attrs["correction_uncertainty"] = lambda E, e: (E.define(z3.Or(EUNCNAN(e.t), EUNC(e.t) >= 0)), SNum(EUNC(e.t), True))[1]
ENTRY.attrs["name"] = lambda E, e: SObj(FORMULA, RFORM(ECOMP(e.t)))
ENTRY.attrs["attribute"] = lambda E, e: None
ENTRY.truth = lambda E, e: True
FORMULA.truth = lambda E, f: True
FORMULA.binop["eq_native"] = lambda E, x, y: (x.t == z3.Const(f"formula!{y}", FORMULA.sort)) if isinstance(y, str) else False


@model(Element)
def _(E, el):
    """Element(e) of an element is that element (enumeration)"""
    v = E.resolve(el)
    if isinstance(v, SObj) and v.kind is ELEM:
        return v
    if not is_sym(v):
        return Element(to_native(v))
    raise Undecided("Element(...)")
