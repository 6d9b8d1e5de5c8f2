"""R18: calculators annotate copies."""
from specs.common import *  # noqa: F403
import rxn_network.costs.calculators as _calc
from rxn_network.costs.base import Calculator
from rxn_network.costs.calculators import ChempotDistanceCalculator
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

KEY = Kind("DataKey", str)
KEY.binop["eq_native"] = lambda E, x, y: False
VALUE = Kind("DataValue", None)
RXNO = Kind("OpaqueReaction", None)
CALC = z3.Function("calculate", RXNO.sort, R)
DECO = RXNO.fn("decorate", RXNO.sort)
ATTRS = ["_compositions", "_coefficients", "reactant_coeffs", "product_coeffs", "balanced", "lowest_num_errors", "_entries", "reactant_entries", "product_entries", "chempots", "open_elems"]
SUBCLASSES = [c for c in vars(_calc).values() if isinstance(c, type) and issubclass(c, Calculator) and c is not Calculator]


def sym_data(E):
    m = E.int("nd").t
    E.assume(m >= 0)
    K, V = KEY.fn(fresh_name("dkey"), I), VALUE.fn(fresh_name("dval"), I)
    i, j = z3.Ints("i! j!")
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < m, i != j), K(i) != K(j)), patterns=[z3.MultiPattern(K(i), K(j))]))
    k = z3.Int(fresh_name("k"))
    d = VDict([Seg([(k, m)], z3.BoolVal(True), VList([Conc([SObj(KEY, K(k)), SObj(VALUE, V(k))])], "tuple"))], E.tick())
    return d, (m, K, V)


def resolved(method):
    """(class, tag, target): one representative class per distinct implementation of `method` among the calculators"""
    seen = []
    for c in [ChempotDistanceCalculator, *SUBCLASSES]:
        f = getattr(c, method)
        if f not in seen:
            seen.append(f)
            yield c, (method if f is getattr(Calculator, method) else f"{c.__name__}.{method}"), [f"{f.__module__}:{f.__qualname__}"]


def reg_decorate(rcls, none, cls, tag, target):
    @contract(f"{tag} {rcls.__name__} {'without data' if none else 'with data'}", target)
    def _(E):
        r = sym_reaction(E, rcls)
        name = E.obj(KEY, "name")
        if none:
            E.set_attr_raw(r.obj, "data", None)
            m, K, V = z3.IntVal(0), None, None
        else:
            d, (m, K, V) = sym_data(E)
            E.set_attr_raw(r.obj, "data", d)
        fr = Frame(E, r.obj, ATTRS + ["data"])
        data0 = r.obj.attrs["data"]
        calc = VObj(cls, {"name": name}, E.tick())
        seen = []
        v = E.real("value")

        def calculate(E2, a, k):
            """callee contract of calculate: reads the reaction it is given, changes nothing, returns a number"""
            seen.append(a[1] if len(a) > 1 else k["rxn"])
            return v

        E.contracts[cls.calculate] = calculate
        out = E.call_method(calc, "decorate", [r.obj], {})
        E.cover("reachable")
        E.prove("calculate is asked once", z3.BoolVal(len(seen) == 1))
        E.prove("the original reaction object is not returned", z3.BoolVal(out is not r.obj))
        q = idx(E, r.n)
        for what, o in [("result", out)] + [("calculated reaction", s) for s in seen]:
            E.prove(f"{what}: same class", z3.BoolVal(isinstance(o, VObj) and o.cls is rcls))
            prove_scaled(E, what, o, r, q, z3.RealVal(1))
            E.prove(f"{what}: entries kept", E.zb(E.eq(E.getattr(o, "entries"), r.entries)))
            E.prove(f"{what}: error count kept", E.zb(E.eq(E.getattr(o, "lowest_num_errors"), r.err)))
        nd = E.getattr(out, "data")
        E.prove("the value is stored under the calculator's name", E.num(E.getitem(nd, name)) == v.t)
        k = E.obj(KEY, "other")
        E.assume(k.t != name.t)
        if none:
            E.prove("no other data item appears", z3.Not(E.zb(E.contains(nd, k))))
        else:
            E.prove("no other data item appears or disappears", E.zb(E.contains(nd, k)) == E.zb(E.contains(data0, k)))
            j = idx(E, m, "j")
            E.assume(K(j) != name.t)
            E.prove("other data items keep their values", E.zb(E.eq(E.getitem(nd, SObj(KEY, K(j))), SObj(VALUE, V(j)))))
        fr.prove("frame")


for _a in resolved("decorate"):
    for _r in (ComputedReaction, OpenComputedReaction):
        for _n in (True, False):
            reg_decorate(_r, _n, *_a)


def many(E):
    n = E.int("n").t
    E.assume(n >= 0)
    X = RXNO.fn(fresh_name("rxn"), I)
    return n, X, E.seq("rxns", n, lambda k: SObj(RXNO, X(k)))


def reg_many(cls, tag, target):
    @contract(tag, target)
    def _(E):
        n, X, rxns = many(E)
        calc = VObj(cls, {"name": E.obj(KEY, "name")}, E.tick())
        E.contracts[cls.calculate] = lambda E2, a, k: SNum(CALC(a[1].t))
        out = E.call_method(calc, "calculate_many", [rxns], {})
        E.cover("reachable")
        E.prove("one value per reaction", E.zb(E.eq(E.length(out), SNum(n))))
        q = idx(E, n)
        E.prove("values in the order of the reactions, each the single form's value", E.num(E.index(out, SNum(q))) == CALC(X(q)))
        E.prove("the input list is unchanged", z3.And(E.zb(E.eq(E.length(rxns), SNum(n))), E.zb(E.eq(E.index(rxns, SNum(q)), SObj(RXNO, X(q))))))


def reg_decorate_many(cls, tag, target):
    @contract(tag, target)
    def _(E):
        n, X, rxns = many(E)
        calc = VObj(cls, {"name": E.obj(KEY, "name")}, E.tick())
        E.contracts[cls.decorate] = lambda E2, a, k: SObj(RXNO, DECO(a[1].t))
        out = E.call_method(calc, "decorate_many", [rxns], {})
        E.cover("reachable")
        E.prove("one result per reaction", E.zb(E.eq(E.length(out), SNum(n))))
        q = idx(E, n)
        E.prove("results in the order of the reactions, each decorated singly", E.zb(E.eq(E.index(out, SNum(q)), SObj(RXNO, DECO(X(q))))))


for _a in resolved("calculate_many"):
    reg_many(*_a)
for _a in resolved("decorate_many"):
    reg_decorate_many(*_a)
