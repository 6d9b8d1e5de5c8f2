"""R16: cost functions."""
from pyvc.models import _EXP, _LOG, explog_axioms
from specs.common import *  # noqa: F403
from rxn_network.costs.functions import Softplus, WeightedSum

NAME = Kind("ParamName", str)
RXN = Kind("AnyReaction", None)
PDATA = Kind("DataDict", dict)
HASD = z3.Function("in_data", PDATA.sort, NAME.sort, z3.BoolSort())
VALD = z3.Function("data_value", PDATA.sort, NAME.sort, R)
HASA = z3.Function("has_attribute", RXN.sort, NAME.sort, z3.BoolSort())
VALA = z3.Function("attribute_value", RXN.sort, NAME.sort, R)
DATAOF = z3.Function("data_of", RXN.sort, PDATA.sort)
ISNONE = z3.Function("data_is_none", PDATA.sort, z3.BoolSort())
NAME.binop["eq_native"] = lambda E, x, y: False
RXN.symattr = (lambda E, o, n: HASA(o.t, n.t), lambda E, o, n: SNum(VALA(o.t, n.t)))
RXN.attrs["data"] = lambda E, o: None if E.branch(ISNONE(DATAOF(o.t))) else SObj(PDATA, DATAOF(o.t))
PDATA.contains = lambda E, d, n: SBool(HASD(d.t, n.t))
PDATA.truth = lambda E, d: SBool(z3.Exists([_n], HASD(d.t, _n)))
_n = z3.Const("n!", NAME.sort)


def _get(E, d, n, default=None, strict=False):
    if E.branch(HASD(d.t, n.t)):
        return SNum(VALD(d.t, n.t))
    if strict:
        raise VRaise(KeyError("parameter"))
    return default


PDATA.getitem = lambda E, d, n: _get(E, d, n, strict=True)
PDATA.methods["get"] = lambda E, d, a, k: _get(E, d, a[0], a[1] if len(a) > 1 else k.get("default"))
PDATA.methods["keys"] = lambda E, d, a, k: d


def setup(E, cls, *args):
    """a cost function with m >= 1 parameters and as many weights, and an arbitrary reaction"""
    m = E.int("m").t
    E.assume(m >= 1)
    P = NAME.fn(fresh_name("param"), I)
    W = z3.Function(fresh_name("weight"), I, R)
    i = z3.Int("i!")
    params = E.seq("params", m, lambda k: SObj(NAME, P(k)))
    weights = E.seq("weights", m, lambda k: SNum(W(k)), "list")
    cf = E.instantiate(cls, list(args), {"params": params, "weights": weights})
    rxn = E.obj(RXN, "rxn")
    d = DATAOF(rxn.t)
    indata = lambda k: z3.And(z3.Not(ISNONE(d)), HASD(d, P(k)))
    value = lambda k: z3.If(indata(k), VALD(d, P(k)), VALA(rxn.t, P(k)))
    present = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Or(indata(i), HASA(rxn.t, P(i)))))
    v = z3.Int("k!spec")
    total = E.sigma([(v, m)], z3.BoolVal(True), W(v) * value(v))
    return cf, rxn, present, total


def reg(cls):
    n = cls.__name__
    T = f"rxn_network.costs.functions:{n}."

    @contract(f"{n}.evaluate", [T + "evaluate", T + "__init__"])
    def _(E):
        args = []
        if cls is Softplus:
            t = E.real("T")
            E.assume(t.t > 0)
            args = [t]
        cf, rxn, present, total = setup(E, cls, *args)
        fr = Frame(E, cf, ["params", "weights", "temp"])
        how, out = outcome(E, lambda: E.call_method(cf, "evaluate", [rxn], {}), ValueError, KeyError, AttributeError)
        if how == "raise":
            E.cover("a parameter is missing")
            E.prove("an error is raised only if a parameter is neither in the data nor an attribute", z3.Not(present))
            return
        E.cover("evaluated")
        E.prove("a missing parameter is an error", present)
        if cls is WeightedSum:
            E.prove("cost is the sum of weight times parameter, data taking precedence over attributes", E.num(out) == total)
        else:
            explog_axioms(E)
            exponents(E, E.num(out), total)
            E.prove("cost is ln(1 + 273/T * exp(weighted sum))", E.num(out) == _LOG(1 + 273 / t.t * _EXP(total)))
            E.prove("the cost is positive", E.num(out) > 0)
        fr.prove("frame")


def exponents(E, t, total):
    """hint: the exponents in the computed cost that are the weighted sum"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += x.children()
        if x.decl().eq(_EXP):
            E.lemma("an exponent is the weighted sum", x.arg(0) == total)


reg(WeightedSum)
reg(Softplus)


@contract("Softplus._softplus monotone", ["rxn_network.costs.functions:Softplus.evaluate"])
def _(E):
    """strictly increasing in the weighted sum, strictly decreasing in the temperature (lemma over the contract of evaluate)"""
    explog_axioms(E)
    x, y, t, u = (E.real(k).t for k in ("x", "y", "t", "u"))
    E.assume(z3.And(0 < t, t < u, x < y))
    f = lambda a, b: _LOG(1 + 273 / b * _EXP(a))
    a, b = 273 / t, 273 / u
    E.assume(z3.And(a > 0, b > 0, a * t == 273, b * u == 273))
    E.prove("temperature factor decreases", a > b)
    E.assume(a > b)
    E.assume(z3.And(_EXP(x) > 0, _EXP(x) < _EXP(y)))
    E.prove("inner argument increases with the weighted sum", 1 + a * _EXP(x) < 1 + a * _EXP(y))
    E.prove("inner argument decreases with temperature", 1 + b * _EXP(x) < 1 + a * _EXP(x))
    p, q = E.real("p").t, E.real("q").t
    E.prove("ln keeps both orders, and ln of more than one is positive", z3.And(z3.Implies(z3.And(1 < p, p < q), _LOG(p) < _LOG(q)), z3.Implies(p > 1, _LOG(p) > 0)))


@contract("Softplus.__init__ temperature", ["rxn_network.costs.functions:Softplus.__init__"])
def _(E):
    t = E.real("T")
    how, out = outcome(E, lambda: E.instantiate(Softplus, [t], {}), ValueError)
    if how == "raise":
        E.prove("only a non-positive temperature is rejected", t.t <= 0)
    else:
        E.prove("a non-positive temperature is rejected", t.t > 0)
        E.prove("temperature kept", E.num(E.getattr(out, "temp")) == t.t)
    E.cover("reachable")
