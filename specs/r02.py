"""R02: normalizing, reversing and copying keep the same reaction."""
from specs.common import *  # noqa: F403
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

CLS = {"BasicReaction": ("basic", BasicReaction), "ComputedReaction": ("computed", ComputedReaction), "OpenComputedReaction": ("open", OpenComputedReaction)}
ATTRS = ["_compositions", "_coefficients", "reactant_coeffs", "product_coeffs", "balanced", "data", "lowest_num_errors", "_entries", "reactant_entries", "product_entries", "chempots", "open_elems"]


def reg(cname, mod, cls):
    T = f"rxn_network.reactions.{mod}:{cname}."
    init = [f"rxn_network.reactions.{mod}:{cname}.__init__"]
    basic = cls is BasicReaction

    @contract(f"{cname}.normalize_to", [T + "normalize_to"] + init, budget=300)
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ATTRS)
        k = idx(E, r.n, "k")
        q = idx(E, r.n, "q")
        f = E.real("factor")
        E.assume(f.t > 0)
        out = E.call_method(r.obj, "normalize_to", [SObj(COMP, r.C(k)), f], {})
        E.cover("reachable")
        s = E.real("scale").t
        E.assume(s * absz(r.K(k)) == f.t)
        E.prove("the common factor is positive", s > 0)
        prove_scaled(E, "normalize_to", out, r, q, s)
        E.prove("that composition's coefficient has the requested magnitude", absz(E.num(E.call_method(out, "get_coeff", [SObj(COMP, r.C(k))], {}))) == f.t)
        if not basic:
            prove_meta(E, "normalize_to", out, r)
        if cls is OpenComputedReaction:
            E.prove("chemical potentials kept", E.zb(E.eq(E.getattr(out, "chempots"), E.getattr(r.obj, "chempots"))))
        fr.prove("frame")

    @contract(f"{cname}.normalize_to_element", [T + "normalize_to_element", T + "get_el_amount"], budget=300)
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ATTRS)
        q = idx(E, r.n, "q")
        el = E.obj(ELEM, "el")
        f = E.real("factor")
        E.assume(f.t > 0)
        amt = E.call_method(r.obj, "get_el_amount", [el], {})
        v = z3.Int("k!spec")
        want = E.sigma([(v, r.n)], z3.BoolVal(True), AMT(r.C(v), el.t) * absz(r.K(v))) / 2
        E.prove("get_el_amount is half of the total amount over all species", E.num(amt) == want)
        E.assume(E.num(amt) > 0)
        out = E.call_method(r.obj, "normalize_to_element", [el, f], {})
        E.cover("reachable")
        s = E.real("scale").t
        E.assume(s * want == f.t)
        E.prove("the common factor is positive", s > 0)
        prove_scaled(E, "normalize_to_element", out, r, q, s)
        # by the contract of get_el_amount above and the scaled coefficients (proved at an arbitrary index)
        new = E.sigma([(v, r.n)], z3.BoolVal(True), AMT(r.C(v), el.t) * absz(s * r.K(v))) / 2
        if E.prove("the element amount is scaled by the common factor", new == s * want):
            x, y = E.real("amount").t, E.real("scaled").t
            E.prove("the element has the requested amount", z3.Implies(z3.And(y == s * x, s * x == f.t), y == f.t))
        if not basic:
            prove_meta(E, "normalize_to_element", out, r)
        fr.prove("frame")

    @contract(f"{cname}.reverse", [T + "reverse"])
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ATTRS)
        q = idx(E, r.n, "q")
        out = E.call_method(r.obj, "reverse", [], {})
        E.cover("reachable")
        prove_scaled(E, "reverse", out, r, q, z3.RealVal(-1))
        prove_meta(E, "reverse", out, r)
        if basic:
            E.prove("balanced flag kept", E.zb(E.eq(E.getattr(out, "balanced"), E.getattr(r.obj, "balanced"))))
        if cls is OpenComputedReaction:
            E.prove("chemical potentials kept", E.zb(E.eq(E.getattr(out, "chempots"), E.getattr(r.obj, "chempots"))))
        back = E.call_method(out, "reverse", [], {})
        prove_scaled(E, "reverse twice", back, r, q, z3.RealVal(1))
        prove_meta(E, "reverse twice", back, r)
        fr.prove("frame")

    @contract(f"{cname}.copy", [T + "copy"])
    def _(E):
        r = sym_reaction(E, cls)
        fr = Frame(E, r.obj, ATTRS)
        q = idx(E, r.n, "q")
        out = E.call_method(r.obj, "copy", [], {})
        E.cover("reachable")
        prove_scaled(E, "copy", out, r, q, z3.RealVal(1))
        prove_meta(E, "copy", out, r)
        E.prove("same class", E.zb(E.getattr(out, "__class__") is cls) if False else z3.BoolVal(out.cls is cls))
        if cls is OpenComputedReaction:
            E.prove("chemical potentials kept", E.zb(E.eq(E.getattr(out, "chempots"), E.getattr(r.obj, "chempots"))))
        fr.prove("frame")

    @contract(f"{cname}.__init__ sides", [T + "__init__"])
    def _(E):
        """the constructor splits the species by the sign of their coefficient"""
        r = sym_reaction(E, cls)
        c = E.obj(COMP, "c")
        i = z3.Int("i!w")
        for side, neg in (("reactants", True), ("products", False)):
            lst = E.getattr(r.obj, side)
            member = E.zb(E.contains(lst, c))
            want = z3.Exists([i], z3.And(i >= 0, i < r.n, r.C(i) == c.t, r.K(i) < 0 if neg else r.K(i) > 0))
            E.prove(f"{side} are exactly the species with a {'negative' if neg else 'positive'} coefficient", member == want)
        q = idx(E, r.n, "q")
        d = E.getattr(r.obj, "reactant_coeffs")
        E.prove("reactant_coeffs holds the coefficient", z3.Implies(r.K(q) < 0, E.num(E.dict_get(d, SObj(COMP, r.C(q)), SNum(z3.RealVal(0)))) == r.K(q)))
        d = E.getattr(r.obj, "product_coeffs")
        E.prove("product_coeffs holds the coefficient", z3.Implies(r.K(q) > 0, E.num(E.dict_get(d, SObj(COMP, r.C(q)), SNum(z3.RealVal(0)))) == r.K(q)))


for _n, (_m, _c) in CLS.items():
    reg(_n, _m, _c)
