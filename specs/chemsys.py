"""Chemical systems: symbols of elements, chemical system strings."""
from specs.common import *  # noqa: F403

SYM = Kind("Symbol", str)
SYMOF = z3.Function("symbol", ELEM.sort, SYM.sort)
ELOF = z3.Function("element_of_symbol", SYM.sort, ELEM.sort)
ELEM.attrs["symbol"] = lambda E, e: SObj(SYM, SYMOF(e.t))
ELEM.methods["__str__"] = lambda E, e, a, k: SObj(SYM, SYMOF(e.t))
COMP.iter = lambda E, c: elements_of(E, c)
CHEMSYS = Kind("Chemsys", str)
NEL = z3.Function("chemsys_length", CHEMSYS.sort, I)
ELAT = z3.Function("chemsys_element", CHEMSYS.sort, I, ELEM.sort)


def _split(E, c, a, k):
    assert a == ["-"]
    E.define(NEL(c.t) >= 0)
    return E.seq("symbols", NEL(c.t), lambda q: SObj(SYM, SYMOF(ELAT(c.t, q))))


CHEMSYS.methods["split"] = _split


def symbols(E):
    e = z3.Const("e!", ELEM.sort)
    E.axioms.append(z3.ForAll([e], ELOF(SYMOF(e)) == e, patterns=[SYMOF(e)]))


CSYS = z3.Function("chemical_system", COMP.sort, CHEMSYS.sort)
HASEL = z3.Function("chemsys_has", CHEMSYS.sort, ELEM.sort, z3.BoolSort())
COMP.attrs["chemical_system"] = lambda E, c: SObj(CHEMSYS, CSYS(c.t))


def chemsys_axioms(E):
    """the chemical system string of a composition lists the symbols of its elements in sorted order (pymatgen): two compositions with
    the same elements have the same string"""
    symbols(E)
    c, d, e, s, i = z3.Const("c!", COMP.sort), z3.Const("d!", COMP.sort), z3.Const("e!", ELEM.sort), z3.Const("s!", CHEMSYS.sort), z3.Int("i!")
    E.axioms.append(z3.ForAll([c, e], HASEL(CSYS(c), e) == (AMT(c, e) > 0), patterns=[HASEL(CSYS(c), e)]))
    E.axioms.append(z3.ForAll([s, i], z3.Implies(z3.And(0 <= i, i < NEL(s)), HASEL(s, ELAT(s, i))), patterns=[ELAT(s, i)]))
    E.axioms.append(z3.ForAll([s, e], z3.Implies(HASEL(s, e), z3.Exists([i], z3.And(0 <= i, i < NEL(s), ELAT(s, i) == e))), patterns=[HASEL(s, e)]))
    E.axioms.append(z3.ForAll([s], NEL(s) >= 0, patterns=[NEL(s)]))
