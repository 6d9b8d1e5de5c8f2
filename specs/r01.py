"""R01: balancing."""
import numpy as np

from specs.common import *  # noqa: F403
from pyvc.interp import func_ast
from pyvc.loops import continuation_rule
from pyvc.models import REGISTRY, elementwise
from pyvc.interp import TRUE
from pyvc.vals import rename_seg
from rxn_network.reactions import basic
from rxn_network.reactions.basic import BasicReaction
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction

T = "rxn_network.reactions.basic:BasicReaction."
TOL = z3.RealVal(str(basic.TOLERANCE))
ATOL = z3.Q(1, 10**8)


def vec(E, v):
    """the returned coefficients as a flat sequence"""
    v = E.resolve(v)
    from pyvc.linalg import flat_of
    return v if not isinstance(v, VList) else flat_of(E, v)


def reg():
    @contract("balancing: error count zero means conserved and on the intended sides", [T + "_balance_coeffs"], budget=200)
    def _(E):
        n1, n2 = E.int("n1").t, E.int("n2").t
        E.assume(z3.And(n1 >= 1, n2 >= 1))
        A, B = COMP.fn(fresh_name("rc"), I), COMP.fn(fresh_name("pc"), I)
        ra = E.seq("reactants", n1, lambda k: SObj(COMP, A(k)))
        pr = E.seq("products", n2, lambda k: SObj(COMP, B(k)))
        row = lambda n, C: Seg([(z3.Int("k!row"), n)], TRUE, SNum(AMT(C(z3.Int("k!row")), el), True))
        q = idx(E, n1 + n2)
        el = E.obj(ELEM, "el").t

        E.hint_idx = E.hint_idx + [q - n1]
        amts = VList([row(n1, A), row(n2, B)], "ndarray", E.tick())

        def post(E, r):
            items = E.resolve(r).items()
            coefs, low = vec(E, items[0]), E.resolve(items[1])
            out = [("as many coefficients as species", E.num(E.length(coefs)) == n1 + n2)]
            if not isinstance(low, (float, np.floating)):
                l = E.num(low)
                v = E.num(E.index(coefs, SNum(q)))
                out.append(("no errors means every species on its side", z3.Implies(l == 0, z3.If(q < n1, v <= -TOL, v >= TOL))))
                ks = z3.Int(fresh_name("k"))
                present = z3.Or(z3.Exists([ks], z3.And(ks >= 0, ks < n1, AMT(A(ks), el) > 0)), z3.Exists([ks], z3.And(ks >= 0, ks < n2, AMT(B(ks), el) > 0)))
                tot = E.num(REGISTRY[id(sum)](E, [elementwise(E, lambda x, y: E.binop(ast.Mult, x, y), coefs, amts)], {}))
                out.append(("no errors means every element conserved", z3.Implies(z3.And(l == 0, present), absz(tot) <= ATOL)))
            return out
        node = lambda: func_ast(BasicReaction.__dict__["_balance_coeffs"].__func__)
        E.loop_hooks = [continuation_rule(node, lambda E, r: z3.And(*[f for _, f in post(E, r)]))]
        got = E.call(BasicReaction._balance_coeffs, [ra, pr], {})
        E.cover("reachable")
        for nm, f in post(E, got):
            E.prove(nm, f)

    for cname, mod, cls in (("BasicReaction", "basic", BasicReaction), ("ComputedReaction", "computed", ComputedReaction), ("OpenComputedReaction", "open", OpenComputedReaction)):
        reg_balance(cname, f"rxn_network.reactions.{mod}:{cname}.", cls)
        reg_flag(cname, f"rxn_network.reactions.{mod}:{cname}.", cls)


def reg_balance(cname, T, cls):
    @contract(f"{cname}.balance uses the balanced coefficients for the species in order", [T + "balance"], budget=200)
    def _(E):
        n1, n2 = E.int("n1").t, E.int("n2").t
        E.assume(z3.And(n1 >= 1, n2 >= 1))
        n = n1 + n2
        q = idx(E, n)
        K = z3.Function(fresh_name("bal"), I, R)
        low, nc, inf = E.int("low"), E.int("ncons"), E.bool("inf")
        E.assume(low.t >= 0)
        got = []
        if cls is BasicReaction:
            A, B = COMP.fn(fresh_name("rc"), I), COMP.fn(fresh_name("pc"), I)
            mk = lambda f: (lambda k: SObj(COMP, f(k)))
            CA, CB = A, B
        else:
            A, B = ENTRY.fn(fresh_name("re"), I), ENTRY.fn(fresh_name("pe"), I)
            mk = lambda f: (lambda k: SObj(ENTRY, f(k)))
            CA, CB = (lambda k: REDUCED(ECOMP(A(k)))), (lambda k: REDUCED(ECOMP(B(k))))
        i, j = z3.Ints("i! j!")
        for X, m, Y, w, C, D, cross in ((A, n1, A, n1, CA, CA, False), (B, n2, B, n2, CB, CB, False), (A, n1, B, n2, CA, CB, True)):
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < w, True if cross else i != j), C(i) != D(j)), patterns=[z3.MultiPattern(X(i), Y(j))]))
        ra, pr = E.seq("reactants", n1, mk(A)), E.seq("products", n2, mk(B))

        def balanced(E2, args, k):
            """contract of _balance_coeffs, for the species it is given"""
            r, p = [a for a in args if isinstance(E2.resolve(a), VList)]
            got.append((freeze(E2.resolve(r)), freeze(E2.resolve(p))))
            coefs = E2.seq("bal", n, lambda i: SNum(z3.If(inf.t, z3.RealVal(0), K(i)), True), "ndarray")
            return E2.tup(coefs, Choice([(inf.t, float("inf")), (z3.Not(inf.t), low)]), nc)
        E.contracts[BasicReaction._balance_coeffs.__func__] = balanced
        kw = {}
        if cls is OpenComputedReaction:
            kw["chempots"] = VDict([Conc([E.tup(E.obj(ELEM, "open_el"), E.real("mu"))])], E.tick())
        data = VDict([Conc([])], E.tick())
        out = E.call(cls.balance, [ra, pr], {**kw, "data": data})
        E.cover("reachable")
        if len(got) != 1:
            E.fail("the coefficients come from the balancing algorithm")
            return
        for side, C, m, off in ((got[0][0], CA, n1, 0), (got[0][1], CB, n2, n1)):
            E.prove("the algorithm gets all species of a side", E.num(E.length(side)) == m)
            if E.branch(z3.And(q >= off, q < off + m)):
                E.prove("the algorithm gets the species in order", E.zb(E.eq(E.index(side, SNum(q - off)), SObj(COMP, C(q - off)))))
        co = E.getattr(out, "coefficients")
        E.prove("as many coefficients as species", E.num(E.length(co)) == n)
        E.prove("the coefficients of the algorithm", E.num(E.index(co, SNum(q))) == z3.If(inf.t, z3.RealVal(0), K(q)))
        comp = E.index(E.getattr(out, "compositions"), SNum(q))
        E.prove("species in the given order", E.zb(E.eq(comp, SObj(COMP, z3.If(q < n1, CA(q), CB(q - n1))))))
        E.prove("as many species", E.num(E.length(E.getattr(out, "compositions"))) == n)
        lo = E.getattr(out, "lowest_num_errors")
        E.prove("the number of errors is recorded", E.zb(E.eq(lo, Choice([(inf.t, float("inf")), (z3.Not(inf.t), low)]))))
        E.prove("the number of constraints is recorded", E.zb(E.eq(E.getitem(E.getattr(out, "data"), "num_constraints"), nc)))
        if cls is BasicReaction:
            E.prove("balanced unless no solution exists", E.zb(E.eq(E.getattr(out, "balanced"), True)) == z3.Not(inf.t))
        elif cls is OpenComputedReaction:
            E.prove("an open reaction", z3.BoolVal(out.cls is OpenComputedReaction))


def reg_flag(cname, T, cls):
    @contract(f"{cname}: marked balanced exactly when every element balances", [T + "__init__"], budget=200)
    def _(E):
        r = sym_reaction(E, cls, nonzero=False)
        if cls is BasicReaction:
            r.obj = E.instantiate(cls, [E.getattr(r.obj, "compositions"), E.getattr(r.obj, "coefficients")], {})
        el = E.obj(ELEM, "el").t
        E.cover("reachable")
        k = z3.Int(fresh_name("k"))

        def tot(e, sign):
            """total of an element over one side (its coefficients have the given sign)"""
            return E.sigma([(k, r.n)], r.K(k) < 0 if sign < 0 else r.K(k) > 0, r.K(k) * AMT(r.C(k), e))
        E.prove("the sides add up to the whole", E.sigma([(k, r.n)], TRUE, r.K(k) * AMT(r.C(k), el)) == tot(el, -1) + tot(el, 1))
        flag = E.truth(E.getattr(r.obj, "balanced"))
        if flag:
            E.prove("marked balanced: this element's total is within the tolerance", absz(tot(el, -1) + tot(el, 1)) <= TOL)
        else:
            e = z3.Const("EL!tot", ELEM.sort)
            E.prove("marked unbalanced: some element's total exceeds the tolerance", z3.Exists([e], absz(tot(e, -1) + tot(e, 1)) > TOL))


reg()
