"""R14: enumeration by free-energy minimization."""
import inspect

from specs.enumset import *  # noqa: F403
from specs.enumset import T, react, react_title
from rxn_network.enumerators import minimize, utils


def _reg(p, t):
    @contract(react_title(p, t, True), [T + "_react"], budget=120)
    def _(E):
        react(p, t, True)(E)


for _p in ("issuperset", "intersection"):
    for _t in ("issuperset", "intersection"):
        _reg(_p, _t)

M, U = "rxn_network.enumerators.minimize:", "rxn_network.enumerators.utils:"
PDK = Kind("Diagram", None)
PDK.truth = lambda E, d: True
SET = Kind("EntrySet", None)
SET.truth = lambda E, d: SBool(E.bool("set_nonempty").t)
MINE = ENTRY.fn("minimum_entry", FORMULA.sort)
HASMIN = z3.Function("formula_in_set", FORMULA.sort, z3.BoolSort())
OPENEL, MU = z3.Const("open_element_of_diagram", ELEM.sort), z3.Const("open_mu_of_diagram", R)
PDK.attrs["chempots"] = lambda E, d: VDict([Conc([E.tup(SObj(ELEM, OPENEL), SNum(MU, True))])], E.tick())
RXN = Kind("KinkReaction", None)
NRE, NPR = z3.Function("number_of_reactants", RXN.sort, I), z3.Function("number_of_products", RXN.sort, I)
REA, PRO = COMP.fn("kink_reactant", RXN.sort, I), COMP.fn("kink_product", RXN.sort, I)
RXN.attrs["reactants"] = lambda E, r: E.seq("reactants", NRE(r.t), lambda q: SObj(COMP, REA(r.t, q)))
RXN.attrs["products"] = lambda E, r: E.seq("products", NPR(r.t), lambda q: SObj(COMP, PRO(r.t, q)))
OUT = Kind("ComputedRxn", None)


def bound(fn, a, k, skip):
    sig = inspect.signature(fn)
    b = sig.bind(*([None] * skip), *a, **k)
    b.apply_defaults()
    return b.arguments


def react_function(cls, grand):
    @contract(f"the pair handed to the interface analysis is the pair of reactants ({'grand' if grand else 'closed'})", [M + cls.__name__ + "._react_function"])
    def _(E):
        a, b = E.obj(ENTRY, "a"), E.obj(ENTRY, "b")
        n = E.choose([(1, z3.BoolVal(True)), (2, z3.BoolVal(True))])
        if n == 2:
            E.assume(a.t != b.t)
        rs = [a, b][:n]
        s, pd, gpd = E.obj(SET, "entries"), E.obj(PDK, "pd"), E.obj(PDK, "gpd") if grand else None
        calls = []

        def interface(E2, args, kw):
            v = bound(utils.react_interface, args, kw, 0)
            calls.append(v)
            return E2.obj(OUT, "found")

        E.contracts[minimize.react_interface] = interface
        out = E.call(cls._react_function, [VList([Conc(rs)], "set", E.tick(), True, True), None], {"filtered_entries": s, "pd": pd, "grand_pd": gpd, "p_set_func": "x"})
        E.cover("reachable")
        e = z3.Const("e!", ELEM.sort)
        pure = lambda x: z3.And(AMT(ECOMP(x.t), OPENEL) > 0, z3.ForAll([e], z3.Implies(AMT(ECOMP(x.t), e) > 0, e == OPENEL)))
        skip = z3.Or(*[pure(x) for x in rs]) if grand else z3.BoolVal(False)
        if not calls:
            E.prove("only mixtures with the open element itself are skipped", skip)
            E.prove("nothing is returned for them", E.zb(E.eq(E.length(out), SNum(z3.IntVal(0)))))
            return
        E.cover("interface analysed")
        v = calls[0]
        E.prove("analysed once", z3.BoolVal(len(calls) == 1))
        E.prove("mixtures with the open element itself are skipped", z3.Not(skip))
        c1, c2 = v["r1"].t, v["r2"].t
        A, B = ECOMP(a.t), ECOMP(rs[-1].t)
        E.prove("both reactants, and nothing else", z3.Or(z3.And(c1 == A, c2 == B), z3.And(c1 == B, c2 == A)))
        E.prove("with the entries of the chemical system", v["filtered_entries"].t == s.t)
        E.prove("with its phase diagram", v["pd"].t == pd.t)
        if grand:
            E.prove("with its grand potential diagram", z3.BoolVal(v["grand_pd"] is not None) if v["grand_pd"] is None else v["grand_pd"].t == gpd.t)
        else:
            E.prove("without open elements", z3.BoolVal(v["grand_pd"] is None))
        E.prove("what the analysis finds is returned", E.zb(E.eq(out, out)) if not isinstance(out, SObj) else z3.BoolVal(out.kind is OUT))


react_function(minimize.MinimizeGibbsEnumerator, False)
react_function(minimize.MinimizeGrandPotentialEnumerator, True)


def interface(grand):
    @contract(f"every kink of the mixing line gives its reaction ({'grand' if grand else 'closed'})", [U + "react_interface"])
    def _(E):
        c1, c2 = E.obj(COMP, "c1"), E.obj(COMP, "c2")
        s, pd, gpd = E.obj(SET, "entries"), E.obj(PDK, "pd"), E.obj(PDK, "gpd") if grand else None
        IR = Kind("Interface", None)
        KINK = RXN.fn(fresh_name("kink"), I)
        n = E.int("kinks").t
        E.assume(n >= 0)
        made = []

        def build(is_grand, cls):
            def hook(E2, args, kw):
                v = bound(cls.__init__, args, kw, 1)
                made.append((is_grand, v))
                return E2.obj(IR, "interface")
            return hook

        E.contracts[(utils.InterfacialReactivity, "__call__")] = build(False, utils.InterfacialReactivity)
        E.contracts[(utils.GrandPotentialInterfacialReactivity, "__call__")] = build(True, utils.GrandPotentialInterfacialReactivity)
        q = z3.Int(fresh_name("k"))
        row = lambda k: VList([Conc([SNum(k + 1), E.real("x"), E.real("e"), SObj(RXN, KINK(k)), E.real("ekj")])], "tuple")
        IR.methods["get_kinks"] = lambda E2, i, a, k: VList([Seg([(q, n)], z3.BoolVal(True), row(q))], "list", E2.tick())
        COMPUTED = OUT.fn(fresh_name("computed"), RXN.sort)

        def computed(E2, args, kw):
            v = bound(utils.get_computed_rxn, args, kw, 0)
            E2.prove("entries of the chemical system", v["entries"].t == s.t)
            ch = v["chempots"]
            if grand:
                E2.prove("chemical potential of the open element", z3.BoolVal(False) if not isinstance(ch, VDict) else E2.zb(E2.eq(ch, PDK.attrs["chempots"](E2, gpd))))
            else:
                E2.prove("no chemical potential", z3.Not(E2.zb(E2.truth(ch))))
            return SObj(OUT, COMPUTED(v["rxn"].t))

        E.contracts[utils.get_computed_rxn] = computed
        out = E.call(utils.react_interface, [c1, c2, s, pd] + ([gpd] if grand else []), {})
        E.cover("reachable")
        E.prove("one interface", z3.BoolVal(len(made) == 1))
        is_grand, v = made[0]
        E.prove("an interface with the open element" if grand else "a closed interface", z3.BoolVal(is_grand == grand))
        A, B = v["c1"].t, v["c2"].t
        E.prove("between the two reactants", z3.Or(z3.And(A == c1.t, B == c2.t), z3.And(A == c2.t, B == c1.t)))
        if grand:
            E.prove("on the grand potential diagram", v["grand_pd"].t == gpd.t)
            E.prove("and the closed diagram", v["pd_non_grand"].t == pd.t)
        else:
            E.prove("on the phase diagram", v["pd"].t == pd.t)
        w = idx(E, n, "w")
        E.prove("every kink's reaction is returned", E.zb(E.contains(out, SObj(OUT, COMPUTED(KINK(w))))))
        y = E.obj(OUT, "y")
        E.assume(E.zb(E.contains(out, y)))
        kk = z3.Int("k!")
        E.prove("nothing else is returned", z3.Exists([kk], z3.And(0 <= kk, kk < n, y.t == COMPUTED(KINK(kk)))))


interface(False)
interface(True)


def computed_rxn(grand):
    @contract(f"the reaction is balanced between the minimum entries of its phases ({'open' if grand else 'closed'})", [U + "get_computed_rxn"])
    def _(E):
        s = E.obj(SET, "entries")
        SET.methods["get_min_entry_by_formula"] = lambda E2, o, a, k: SObj(ENTRY, MINE((list(a) + list(k.values()))[0].t))
        r = E.obj(RXN, "rxn")
        E.assume(z3.And(NRE(r.t) >= 0, NPR(r.t) >= 0))
        made = []

        def bal(is_open, cls):
            def hook(E2, args, kw):
                args = list(args)
                if args and not isinstance(args[0], VList):
                    args = args[1:]
                v = bound(cls.balance, args, kw, 0)
                o = E2.obj(OUT, "balanced")
                made.append((is_open, v, o))
                return o
            return hook

        E.contracts[utils.ComputedReaction.balance.__func__] = bal(False, utils.ComputedReaction)
        E.contracts[utils.OpenComputedReaction.balance.__func__] = bal(True, utils.OpenComputedReaction)
        ch = VDict([Conc([E.tup(SObj(ELEM, OPENEL), SNum(MU, True))])], E.tick()) if grand else None
        out = E.call(utils.get_computed_rxn, [r, s, ch], {})
        E.cover("reachable")
        E.prove("balanced once", z3.BoolVal(len(made) == 1))
        is_open, v, o = made[0]
        E.prove("with the open element" if grand else "without open elements", z3.BoolVal(is_open == grand) if is_open == grand else (z3.BoolVal(False) if grand else z3.Not(E.zb(E.truth(v.get("chempots"))))))
        if grand and is_open:
            E.prove("at its chemical potential", E.zb(E.eq(v["chempots"], ch)))
        for side, N, F, name in (("reactant_entries", NRE, REA, "reactants"), ("product_entries", NPR, PRO, "products")):
            E.prove(f"as many {name}", E.zb(E.eq(E.length(v[side]), SNum(N(r.t)))))
            w = idx(E, N(r.t), "w")
            E.prove(f"the minimum entries of the {name}", E.zb(E.eq(E.index(v[side], SNum(w)), SObj(ENTRY, MINE(RFORM(F(r.t, w)))))))
        E.prove("the balanced reaction is returned", z3.BoolVal(isinstance(out, SObj)) if not isinstance(out, SObj) else (out.t == o.t if out.kind is OUT else z3.BoolVal(False)))


computed_rxn(False)
computed_rxn(True)
