"""R26: scores of the synthesis-planning jobs."""
from specs.common import *  # noqa: F403
from specs.chemsys import *  # noqa: F403
import ray
from ray.remote_function import RemoteFunction
from pyvc.domain import COMP_OF
from pyvc.interp import func_ast
from pyvc.models import model
from pyvc.loops import havoc_dict, dict_view, invariant_rule
from rxn_network.costs.calculators import ChempotDistanceCalculator, PrimaryCompetitionCalculator, SecondaryCompetitionCalculator
from rxn_network.entries.entry_set import GibbsEntrySet
from rxn_network.jobs import core
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.hull import InterfaceReactionHull
from rxn_network.reactions.reaction_set import ReactionSet

T = "rxn_network.jobs.core:"
JR = Kind("JobReaction", None)
JEN = z3.Function("job_rxn_energy_per_atom", JR.sort, R)
JR.attrs["energy_per_atom"] = lambda E, r: SNum(JEN(r.t), True)
FORM = Kind("JobFormula", str)


def target(E, items):
    """a reaction with its own data dictionary"""
    r = E.obj(JR, "rxn")
    data = VDict([Conc([E.tup(k, v) for k, v in items])], E.tick())
    JR.attrs["data"] = lambda E2, o: data if o.t.eq(r.t) else Poison("data of another reaction")
    return r, data


def near(v, w):
    """|v - w| <= the rounding of a score to 4 decimals"""
    d = v - w
    return z3.And(d <= z3.RealVal("0.00005001"), -d <= z3.RealVal("0.00005001"))


@contract("scores of a reaction of one precursor", [T + "_get_competition_decorated_rxn"])
def _(E):
    r, data = target(E, [("kept", kept := E.obj(DATA, "v"))])
    n = E.int("n").t
    E.assume(n >= 0)
    X = JR.fn(fresh_name("competing"), I)
    comp = E.seq("competing", n, lambda q: SObj(JR, X(q)))
    p = E.obj(FORM, "p")
    out = E.call(core._get_competition_decorated_rxn, [r, comp, VList([Conc([p])], "list", E.tick())], {})
    E.cover("reachable")
    E.prove("the reaction itself is decorated", E.zb(E.eq(out, r)))
    e = JEN(r.t)
    i = z3.Int("i!")
    other = lambda q: z3.And(0 <= q, q < n, X(q) != r.t)
    zero = z3.Exists([i], z3.And(other(i), JEN(X(i)) <= z3.RealVal("1e-8"), JEN(X(i)) >= z3.RealVal("-1e-8")))
    c1 = E.num(E.getitem(data, "primary_competition"))
    c2 = E.num(E.getitem(data, "secondary_competition"))
    q = idx(E, n)
    slack = z3.RealVal("0.00005001")
    E.prove("primary: no less than the energy over any other reaction of the precursor", z3.Implies(other(q), c1 >= e - JEN(X(q)) - slack))
    E.prove("primary: no less than the energy over doing nothing", z3.Implies(z3.Not(zero), c1 >= e - slack))
    E.prove("primary: attained by another reaction or by doing nothing", z3.Or(z3.And(z3.Not(zero), near(c1, e)), z3.Exists([i], z3.And(other(i), near(c1, e - JEN(X(i)))))))
    E.prove("secondary: no less than the driving force of any other reaction from the products", z3.Implies(other(q), c2 >= e - JEN(X(q)) - slack))
    E.prove("secondary: not negative", c2 >= -slack)
    E.prove("secondary: attained", z3.Or(near(c2, z3.RealVal(0)), z3.And(z3.Not(zero), near(c2, e)), z3.Exists([i], z3.And(other(i), near(c2, e - JEN(X(i)))))))
    E.prove("other data kept", E.zb(E.eq(E.getitem(data, "kept"), kept)))
    E.prove("nothing else is added", E.zb(E.eq(E.length(data), 3)))


@contract("scores of a reaction of two precursors", [T + "_get_competition_decorated_rxn", "rxn_network.costs.calculators:PrimaryCompetitionCalculator.calculate",
                                                     "rxn_network.costs.calculators:SecondaryCompetitionCalculator.calculate"])
def _(E):
    r = sym_reaction(E, ComputedReaction)
    kept = E.obj(DATA, "v")
    data = VDict([Conc([E.tup("kept", kept)])], E.tick())
    E.set_attr_raw(r.obj, "data", data)
    n = E.int("n").t
    E.assume(n >= 0)
    X = JR.fn(fresh_name("competing"), I)
    comp = E.seq("competing", n, lambda q: SObj(JR, X(q)))
    p1, p2 = E.obj(FORM, "p1"), E.obj(FORM, "p2")
    hulls = []
    c1, c2 = E.real("c1"), E.real("c2")

    def hull(E2, a, k):
        """contract of the hull's constructor (R19): the hull of the given reactions between the two phases"""
        hulls.append({**dict(zip(["c1", "c2", "reactions"], a[1:])), **k})

    def score(v):
        def f(E2, a, k):
            rx = (a[1:] or list(k.values()))[0]
            E2.prove("scores are of the reaction itself", same(E2, E2.getattr(rx, "coefficients"), E2.getattr(r.obj, "coefficients")))
            E2.prove("scores are of the reaction itself (entries)", E2.zb(E2.eq(E2.getattr(rx, "entries"), r.entries)))
            return v
        return f

    E.contracts[(InterfaceReactionHull, "__init__")] = hull
    E.contracts[InterfaceReactionHull.__init__] = hull
    E.contracts[InterfaceReactionHull.get_primary_competition] = score(c1)
    E.contracts[InterfaceReactionHull.get_secondary_competition] = score(c2)
    fr = Frame(E, r.obj, ["_compositions", "_coefficients", "_entries", "lowest_num_errors"])
    out = E.call(core._get_competition_decorated_rxn, [r.obj, comp, VList([Conc([p1, p2])], "list", E.tick())], {})
    E.cover("reachable")
    if not hulls:
        raise Undecided("no hull is built through its constructor")
    for h in hulls:
        E.prove("the hull lies between the two precursors", z3.And(E.zb(E.eq(h["c1"], p1)), E.zb(E.eq(h["c2"], p2))))
        q = idx(E, n)
        E.prove("the hull is built from exactly the competing reactions", z3.And(E.zb(E.eq(E.length(h["reactions"]), SNum(n))), E.zb(E.eq(E.index(h["reactions"], SNum(q)), SObj(JR, X(q))))))
    d = E.getattr(out, "data")
    E.prove("primary competition", near(E.num(E.getitem(d, "primary_competition")), c1.t))
    E.prove("secondary competition", near(E.num(E.getitem(d, "secondary_competition")), c2.t))
    E.prove("other data kept", E.zb(E.eq(E.getitem(d, "kept"), kept)))
    q = idx(E, r.n)
    prove_scaled(E, "the decorated reaction", out, r, q, z3.RealVal(1))
    E.prove("same class", z3.BoolVal(out.cls is ComputedReaction))
    E.prove("entries kept", E.zb(E.eq(E.getattr(out, "entries"), r.entries)))
    fr.prove("frame")


NR = z3.Function("number_of_reactants", JR.sort, I)
RC = COMP.fn("reactant", JR.sort, I)
DECO = JR.fn("scored", JR.sort)


def _reactants(E, r):
    n = E.resolve(Choice([(NR(r.t) == m, m) for m in (1, 2, 3)]))
    return VList([Conc([SObj(COMP, RC(r.t, z3.IntVal(j))) for j in range(n)])], "list", E.tick())


def reactant_with(r, f, but=None):
    """some reactant of r has the formula f"""
    return z3.Or(*[z3.And(NR(r) > j, RFORM(RC(r, z3.IntVal(j))) == f) for j in range(3)])


def chunk(E):
    """a chunk of reactions of one to three reactants of different formulas, filled up with None"""
    n = E.int("n").t
    E.assume(n >= 0)
    X = JR.fn(fresh_name("chunk"), I)
    NONE = z3.Function(fresh_name("is_none"), I, z3.BoolSort())
    x = z3.Const("x!", JR.sort)
    E.axioms.append(z3.ForAll([x], z3.And(NR(x) >= 1, NR(x) <= 3), patterns=[NR(x)]))
    E.axioms.append(z3.ForAll([x], z3.And(*[z3.Implies(NR(x) > b, RFORM(RC(x, z3.IntVal(a))) != RFORM(RC(x, z3.IntVal(b)))) for a in range(3) for b in range(a + 1, 3)]), patterns=[NR(x)]))
    JR.attrs["reactants"] = _reactants
    return n, X, NONE, E.seq("chunk", n, lambda q: Choice([(NONE(q), None), (z3.Not(NONE(q)), SObj(JR, X(q)))]))


def competing(open_):
    @contract(f"reactions of a chunk are scored against those of their own precursors ({'open' if open_ else 'closed'})", [T + "_get_competition_decorated_rxns_by_chunk"])
    def _(E):
        n, X, NONE, ch = chunk(E)
        of = E.obj(FORMULA, "open_formula") if open_ else None
        # precondition of the flow maker: no more than two reactants besides the open one
        i = z3.Int("i!")
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Not(NONE(i))), NR(X(i)) <= 2 if not open_ else z3.Or(NR(X(i)) <= 2, reactant_with(X(i), of.t))), patterns=[X(i)]))
        stored = E.obj(DATA, "stored set")

        def loaded(E2, a, k):
            E2.prove("the competing reactions are the stored ones", E2.zb(E2.eq((a[1:] or a or list(k.values()))[-1], stored)))
            return VObj(ReactionSet, {"loaded": True}, E2.tick())

        def by_reactants(E2, a, k):
            """contract of get_rxns_by_reactants (R08): the reactions whose reactants are among the given formulas"""
            return VObj(object, {"formulas": freeze(E2.aslist(a[1])) if hasattr(E2, "aslist") else freeze(VList(list(E2.iterate(a[1]).segs), "list"))}, E2.tick())

        def scored(E2, a, k):
            k = {**dict(zip(["rxn", "competing_rxns", "precursors_list"], a)), **k}
            r, comp, pl = E2.resolve(k["rxn"]), E2.resolve(k["competing_rxns"]), k["precursors_list"]
            if not (isinstance(comp, VObj) and "formulas" in comp.attrs):
                raise Undecided("competing reactions not from get_rxns_by_reactants")
            f = E2.obj(FORMULA, fresh_name("f"))
            isopen = f.t == of.t if open_ else z3.BoolVal(False)
            E2.prove("competing are the reactions of its reactants and the open element", E2.zb(E2.contains(comp.attrs["formulas"], f)) == z3.Or(reactant_with(r.t, f.t), isopen))
            E2.prove("precursors are its reactants besides the open element", E2.zb(E2.contains(pl, f)) == z3.And(reactant_with(r.t, f.t), z3.Or(z3.Not(isopen), NR(r.t) == 1)))
            E2.prove("one or two precursors", z3.And(E2.zb(E2.compare(ast.GtE, E2.length(pl), 1)), E2.zb(E2.compare(ast.LtE, E2.length(pl), 2))))
            return SObj(JR, DECO(r.t))

        E.contracts[ReactionSet.from_dict] = loaded
        E.contracts[ReactionSet.from_dict.__func__] = loaded
        E.contracts[ReactionSet.get_rxns_by_reactants] = by_reactants
        E.contracts[core._get_competition_decorated_rxn] = scored
        f = core._get_competition_decorated_rxns_by_chunk
        out = E.call(getattr(f, "_function", f), [ch, stored, of], {})
        E.cover("reachable")
        q = idx(E, n)
        E.prove("every reaction of the chunk is in the result with its scores", z3.Implies(z3.Not(NONE(q)), E.zb(E.contains(out, SObj(JR, DECO(X(q)))))))
        E.prove("once each", E.zb(E.eq(E.length(out), SNum(E.sigma([(i, n)], z3.Not(NONE(i)), z3.RealVal(1))))))
        y = E.obj(JR, "y")
        E.prove("nothing else", z3.Implies(E.zb(E.contains(out, y)), z3.Exists([i], z3.And(0 <= i, i < n, z3.Not(NONE(i)), y.t == DECO(X(i))))))


competing(False)
competing(True)


def some(r):
    """the reaction of an element of a chunk that is not a filler"""
    return next(v for _, v in r.alts if v is not None) if isinstance(r, Choice) else r


CPDC = Kind("ChempotCalculator", ChempotDistanceCalculator)
CHAS = z3.Function("calculator_has", CPDC.sort, ENTRY.sort, z3.BoolSort())
DECO2 = JR.fn("distance_scored", JR.sort, CPDC.sort)
CPDC.methods["decorate"] = lambda E, c, a, k: SObj(JR, DECO2(E.resolve((a or list(k.values()))[0]).t, c.t))
RCS = z3.Function("rxn_chemical_system", JR.sort, CHEMSYS.sort)
JR.attrs["chemical_system"] = lambda E, r: SObj(CHEMSYS, RCS(r.t))
JR.attrs["elements"] = lambda E, r: VList([Seg([(q := z3.Int(fresh_name("q")), NEL(RCS(r.t)))], z3.BoolVal(True), SObj(ELEM, ELAT(RCS(r.t), q)))], "list", E.tick())
GRAND = ENTRY.fn("grand_entry", ENTRY.sort, ELEM.sort, R)


def distances(open_):
    @contract(f"distances of a chunk are those of the reaction's own system ({'open' if open_ else 'closed'})", [T + "_get_chempot_decorated_rxns_by_chunk"], budget=120)
    def _(E):
        symbols(E)
        s, i, e = z3.Const("s!", CHEMSYS.sort), z3.Int("i!"), z3.Const("e!", ELEM.sort)
        E.axioms.append(z3.ForAll([s], NEL(s) >= 0, patterns=[NEL(s)]))
        n = E.int("n").t
        E.assume(n >= 0)
        X = JR.fn(fresh_name("chunk"), I)
        NONE = z3.Function(fresh_name("is_none"), I, z3.BoolSort())
        ch = E.seq("chunk", n, lambda q: Choice([(NONE(q), None), (z3.Not(NONE(q)), SObj(JR, X(q)))]))
        S = z3.Function("in_entries", ENTRY.sort, z3.BoolSort())
        entries = VObj(GibbsEntrySet, {"tag": "all"}, E.tick())
        oe, mu = (E.obj(ELEM, "open_el"), E.real("mu")) if open_ else (None, None)
        kwv = E.obj(DATA, "kwarg")
        asked = lambda k, el: z3.Or(z3.Exists([i], z3.And(0 <= i, i < NEL(k), ELAT(k, i) == el)), el == oe.t if open_ else z3.BoolVal(False))
        inside = lambda k, x: z3.And(S(x), z3.ForAll([e], z3.Implies(AMT(ECOMP(x), e) > 0, asked(k, e))))
        pure = lambda x: z3.And(AMT(ECOMP(x), oe.t) > 0, z3.ForAll([e], z3.Implies(AMT(ECOMP(x), e) > 0, e == oe.t)))
        x0 = z3.Const("x!", ENTRY.sort)
        GEL = z3.Function("grand_elem", ENTRY.sort, ELEM.sort)

        def expected(k, y):
            if not open_:
                return inside(k, y)
            return z3.Exists([x0], z3.And(inside(k, x0), z3.Not(pure(x0)), y == GRAND(x0, oe.t, mu.t)))

        def subset(E2, a, k):
            """contract of get_subset_in_chemsys (R10)"""
            syms = (a[1:] or list(k.values()))[0]
            x = z3.Const(fresh_name("x"), ENTRY.sort)
            el = z3.Const(fresh_name("el"), ELEM.sort)
            has = E2.zb(E2.merge_bool(E2.generic([el], z3.BoolVal(True), lambda: E2.contains(syms, SObj(SYM, SYMOF(el))))))
            return VList([Seg([(x, None)], z3.And(S(x), z3.ForAll([el], z3.Implies(AMT(ECOMP(x), el) > 0, has))), SObj(ENTRY, x))], "set", E2.tick(), True, True)

        def grand(E2, x, a, k):
            d = (a or list(k.values()))[0]
            E2.prove("one chemical potential", E2.zb(E2.eq(E2.length(d), 1)))
            E2.prove("the potential of the open element", E2.zb(E2.eq(E2.getitem(d, oe), mu)))
            return SObj(ENTRY, GRAND(x.t, oe.t, mu.t))

        def from_entries(E2, a, k):
            """contract of the calculator's constructor: a calculator of exactly the given entries, with the given options"""
            a = [v for v in a if v is not ChempotDistanceCalculator]
            es = a[0] if a else k.pop("entries")
            E2.prove("the options are the maker's", z3.And(z3.BoolVal(set(k) == {"some_option"}), E2.zb(E2.eq(k.get("some_option"), kwv))))
            c = SObj(CPDC, E2.fresh("calc", CPDC.sort))
            y = z3.Const(fresh_name("y"), ENTRY.sort)
            lst = E2.iterate(es)
            E2.define(z3.ForAll([y], CHAS(c.t, y) == E2.zb(E2.merge_bool(E2.generic([y], z3.BoolVal(True), lambda: E2.contains(lst, SObj(ENTRY, y))))), patterns=[CHAS(c.t, y)]))
            return c

        fits = lambda c, k: z3.ForAll([x1], CHAS(c, x1) == expected(k, x1))
        x1 = z3.Const("y!", ENTRY.sort)
        ENTRY.methods["to_grand_entry"] = grand
        E.contracts[GibbsEntrySet.get_subset_in_chemsys] = subset
        E.contracts[ChempotDistanceCalculator.from_entries] = from_entries
        E.contracts[ChempotDistanceCalculator.from_entries.__func__] = from_entries
        made = []

        def from_rxns(E2, a, k):
            a = [v for v in a if v is not ReactionSet]
            made.append({**dict(zip(["rxns", "entries"], a)), **k})
            return VObj(ReactionSet, {"made": len(made)}, E2.tick())

        E.contracts[ReactionSet.from_rxns] = from_rxns
        E.contracts[ReactionSet.from_rxns.__func__] = from_rxns
        f = core._get_chempot_decorated_rxns_by_chunk
        f = getattr(f, "_function", f)
        k0 = z3.Const("k!", CHEMSYS.sort)
        st = {}

        def parts(E2, fr):
            d, l = E2.find_frame(fr, "cpd_calc_dict").vars["cpd_calc_dict"], E2.find_frame(fr, "new_rxns").vars["new_rxns"]
            has, val = dict_view(E2, d)
            v = lambda t: val(t) if val(t) is not None else z3.Const("no_calculator", CPDC.sort)
            return d, l, has, v

        def results(E2, l, has, v, done):
            return [
                ("every calculator is of its key's system", z3.ForAll([k0], z3.Implies(has(k0), fits(v(k0), k0)))),
                ("every handled reaction is in the result with the distance of its own system", done(lambda r: z3.And(has(RCS((r := some(r)).t)), E2.zb(E2.contains(l, SObj(JR, DECO2(r.t, v(RCS(r.t))))))))),
            ]

        def inv(E2, fr, done):
            d, l, has, v = parts(E2, fr)
            out = results(E2, l, has, v, done.all)
            if "len" in st and st["list"] is l:
                now = E2.length(l)
                if st.get("seen"):
                    out.append(("one result per reaction", E2.zb(E2.eq(now, E2.binop(ast.Add, st["len"], 1)))))
                st["seen"] = True
            return out

        def havoc(E2, fr):
            d, l, _, _ = parts(E2, fr)
            H, V = z3.Function(fresh_name("has"), CHEMSYS.sort, z3.BoolSort()), CPDC.fn(fresh_name("calc_of"), CHEMSYS.sort)
            havoc_dict(E2, d, CHEMSYS, H, lambda q: SObj(CPDC, V(q)))
            m = E2.fresh("results", I)
            E2.assume(m >= 0)
            W = JR.fn(fresh_name("result"), I)
            E2.set_segs(l, [Seg([(w := z3.Int(fresh_name("w")), m)], z3.BoolVal(True), SObj(JR, W(w)))])
            st.clear()
            st.update({"len": SNum(m), "list": l})
            return [d, l]

        node = lambda: func_ast(f)
        E.loop_hooks = [invariant_rule(node, lambda E2, nn, fr: nn in node().body and E2.find_frame(fr, "cpd_calc_dict") is not None, havoc, inv, "chunk")]
        E.call(f, [ch, entries, VDict([Conc([E.tup("some_option", kwv)])], E.tick()), oe, mu], {})
        E.cover("reachable")
        if len(made) != 1:
            raise Undecided("the result is not made by from_rxns")
        E.prove("the result is over the given entries", z3.BoolVal(made[0].get("entries") is entries))
        q = idx(E, n)
        c = z3.Const("c!", CPDC.sort)
        E.prove("every reaction is in the result with the distance of its own system", z3.Implies(z3.Not(NONE(q)), z3.Exists([c], z3.And(fits(c, RCS(X(q))), E.zb(E.contains(made[0]["rxns"], SObj(JR, DECO2(X(q), c))))))))


distances(False)
distances(True)


def _fn(f):
    return getattr(f, "_function", f)


@model(RemoteFunction.options)
def _(E, f, **k):
    """scheduling options do not change what a task computes"""
    return VObj(object, {"remote": _fn(f)}, E.tick())


@model(ray.put)
def _(E, v, **k):
    return v


@model(ray.is_initialized)
def _(E):
    return E.bool(fresh_name("ray_is_initialized"))


@model(ray.cluster_resources)
def _(E):
    c, m = E.fresh("cpus", R), E.fresh("memory", R)
    E.define(z3.And(c >= 1, m > 0))
    return VDict([Conc([E.tup("CPU", SNum(c)), E.tup("memory", SNum(m))])], E.tick())


def batches(E, n):
    """contracts of grouper (R15: every item is in exactly one slot of one chunk, other slots hold the fill value) and to_iterator
    (every result once, in any order)"""
    AT, SJ, SI = z3.Function(fresh_name("item_at"), I, I, I), z3.Function(fresh_name("chunk_of"), I, I), z3.Function(fresh_name("slot_of"), I, I)
    g = Rx()
    g.calls = 0

    def grouper(E2, a, k):
        g.calls += 1
        k = {**dict(zip(["iterable", "n", "fillvalue"], a)), **k}
        c = E2.num(k["n"])
        E2.prove("chunks are not empty", c >= 1)
        E2.prove("chunks are filled up with None", z3.BoolVal(E2.resolve(k.get("fillvalue")) is None))
        sg = E2.iterate(k["iterable"]).simple_seg()
        if sg is None or not z3.is_true(z3.simplify(sg.guard)):
            raise Undecided("grouping of a collection of another form")
        v, hi = sg.dims[0]
        E2.prove("all target reactions are grouped", hi == n)
        at = lambda i: subst(sg.elem, [(v, i)])
        m = E2.fresh("chunks", I)
        q = z3.Int("q!")
        j, i = z3.Int(fresh_name("j")), z3.Int(fresh_name("i"))
        E2.define(m >= 0)
        E2.define(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= SJ(q), SJ(q) < m, 0 <= SI(q), SI(q) < c, AT(SJ(q), SI(q)) == q)), patterns=[SJ(q)]))
        E2.define(E2.sigma([(j, m), (i, c)], z3.And(0 <= AT(j, i), AT(j, i) < n), z3.RealVal(1)) == z3.ToReal(n))
        full = z3.And(0 <= AT(j, i), AT(j, i) < n)
        return VList([Seg([(j, m)], z3.BoolVal(True), VList([Seg([(i, c)], z3.BoolVal(True), Choice([(full, at(AT(j, i))), (z3.Not(full), None)]))], "tuple"))], "list", E2.tick())

    def results(E2, a, k):
        l = E2.iterate(a[0])
        return VList(list(l.segs), "list", E2.tick(), True)

    E.contracts[core.grouper] = grouper
    E.contracts[core.to_iterator] = results
    return g, SJ, SI


def batch(which, open_):
    meth = {"competition": "_get_competition_decorated_rxns", "distance": "_get_chempot_decorated_rxns"}[which]

    @contract(f"every target reaction is in the {which} result once, whatever the batches ({'open' if open_ else 'closed'})", [T + "CalculateCompetitionMaker." + meth])
    def _(E):
        n = E.int("n").t
        E.assume(n >= 0)
        X = JR.fn(fresh_name("target"), I)
        g, SJ, SI = batches(E, n)
        oe, of, mu = (E.obj(ELEM, "open_el"), E.obj(FORMULA, "open_formula"), E.real("mu")) if open_ else (None, None, 0)
        size, kw = E.int("chunk_size"), E.obj(DATA, "cpd_kwargs")
        E.assume(size.t >= 1)
        maker = VObj(core.CalculateCompetitionMaker, {"chunk_size": size, "open_elem": oe, "open_formula": of, "chempot": mu, "cpd_kwargs": kw}, E.tick())
        # iterating a reaction set gives its reactions (R06)
        targets = E.seq("targets", n, lambda q: SObj(JR, X(q)))
        entries = E.obj(DATA, "entries")
        stored = E.obj(DATA, "stored")
        made = []

        def scored(E2, a, deco):
            ch = E2.iterate(a)
            x = E2.iterate(ch)
            out = []
            for s in x.segs:
                if isinstance(s, Conc):
                    raise Undecided("a chunk of another form")
                e = s.elem
                if not isinstance(e, Choice):
                    raise Undecided("a chunk of another form")
                c, v = next((c, v) for c, v in e.alts if v is not None)
                out.append(Seg(s.dims, z3.And(s.guard, c), SObj(JR, deco(v.t))))
            return VList(out, "list", E2.tick())

        def comp_chunk(E2, a, k):
            k = {**dict(zip(["rxn_chunk", "all_rxns", "open_formula"], a)), **k}
            E2.prove("scored against all reactions", E2.zb(E2.eq(k["all_rxns"], stored)))
            E2.prove("with the open phase", E2.zb(E2.eq(k["open_formula"], of)) if of is not None else z3.BoolVal(E2.resolve(k["open_formula"]) is None))
            return scored(E2, k["rxn_chunk"], DECO)

        def dist_chunk(E2, a, k):
            k = {**dict(zip(["rxn_chunk", "entries", "cpd_kwargs", "open_elem", "chempot"], a)), **k}
            E2.prove("over the given entries", E2.zb(E2.eq(k["entries"], entries)))
            E2.prove("with the maker's options", E2.zb(E2.eq(k["cpd_kwargs"], kw)))
            E2.prove("at the potential of the target reactions", z3.And(E2.zb(E2.eq(k["open_elem"], oe)), E2.num(k["chempot"]) == mu.t) if open_ else z3.BoolVal(not E2.resolve(k["open_elem"])))
            return scored(E2, k["rxn_chunk"], DECO)

        def from_rxns(E2, a, k):
            a = [v for v in a if v is not ReactionSet]
            made.append({**dict(zip(["rxns", "entries"], a)), **k})
            return VObj(ReactionSet, {"made": len(made)}, E2.tick())

        def init_ray(E2, a, k):
            return None

        E.contracts[ReactionSet.from_rxns] = from_rxns
        E.contracts[ReactionSet.from_rxns.__func__] = from_rxns
        E.contracts[_fn(core._get_competition_decorated_rxns_by_chunk)] = comp_chunk
        E.contracts[_fn(core._get_chempot_decorated_rxns_by_chunk)] = dist_chunk
        E.contracts[core.initialize_ray] = init_ray
        if which == "competition":
            total = E.int("total")
            E.assume(z3.And(total.t >= 1, total.t >= n))
            # a cluster without the memory for one task is not considered
            how, out = outcome(E, lambda: E.call_method(maker, meth, [targets, stored, total], {}), ZeroDivisionError)
            if how == "raise":
                return
        else:
            RSK = Kind("TargetSet", ReactionSet)
            tset = SObj(RSK, E.fresh("targets", RSK.sort))
            RSK.attrs.update({"open_elem": lambda E2, o: oe, "chempot": lambda E2, o: mu})
            RSK.iter = lambda E2, o: targets
            out = E.call_method(maker, meth, [tset, entries], {})
        E.cover("reachable")
        if not g.calls or len(made) != 1:
            raise Undecided("the result is not made from grouped chunks")
        res = made[0]["rxns"]
        q = idx(E, n)
        j, i = E.fresh("j", I), E.fresh("i", I)
        E.define(z3.And(j == SJ(q), i == SI(q)))
        E.hint_idx = [*E.hint_idx, j, i]
        E.prove("every target reaction is in the result with its scores", E.zb(E.contains(res, SObj(JR, DECO(X(q))))))
        E.prove("as many results as target reactions", E.zb(E.eq(E.length(res), SNum(n))))
        E.prove("the set of these is returned", z3.BoolVal(isinstance(out, VObj) and out.attrs.get("made") == 1))


for _w in ("competition", "distance"):
    for _o in (False, True):
        batch(_w, _o)


RSK = Kind("JobReactionSet", ReactionSet)
IN = z3.Function("in_set", RSK.sort, JR.sort, z3.BoolSort())
NREACT = z3.Function("reactants_of", JR.sort, I)
PRODUCES = z3.Function("produces", JR.sort, FORMULA.sort, z3.BoolSort())
REOPEN = RSK.fn("at_open_conditions", RSK.sort, ELEM.sort, R)
SCORED = RSK.fn("with_competition", RSK.sort, RSK.sort)
DISTANCED = RSK.fn("with_distances", RSK.sort)
RSDICT = Kind("ReactionSetDict", dict)
ASDICT = RSDICT.fn("as_dict", RSK.sort)
PART = {n: Kind("Set_" + n, None) for n in ("entries", "indices", "coeffs", "all_data")}
PARTF = {n: k.fn("set_" + n, RSK.sort) for n, k in PART.items()}
for _n in PART:
    RSK.attrs[_n] = lambda E, s, _n=_n: SObj(PART[_n], PARTF[_n](s.t))
RSK.attrs["open_elem"] = lambda E, s: Opaque("open element")
RSK.methods["as_dict"] = lambda E, s, a, k: SObj(RSDICT, ASDICT(s.t))


def of_formula(r, P):
    """every reactant of r has a formula with P"""
    j = z3.Int("j!")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < NREACT(r)), P(RFORM(RC(r, j)))))


def make(open_):
    @contract(f"the job scores the target reactions against all reactions of their reactants ({'open' if open_ else 'closed'})", [T + "CalculateCompetitionMaker.make"], budget=120)
    def _(E):
        x = z3.Const("x!", JR.sort)
        E.axioms.append(z3.ForAll([x], NREACT(x) >= 0, patterns=[NREACT(x)]))
        JR.attrs["reactants"] = lambda E2, r: E2.seq("reactants", NREACT(r.t), lambda q: SObj(COMP, RC(r.t, q)))
        n = E.int("n").t
        E.assume(n >= 1)
        GIVEN = RSK.fn(fresh_name("given"), I)
        sets = E.seq("rxn_sets", n, lambda q: SObj(RSK, GIVEN(q)))
        oe, of, mu = (E.obj(ELEM, "open_el"), E.obj(FORMULA, "open_formula"), E.real("mu")) if open_ else (None, None, 0)
        entries, tf = E.obj(DATA, "entries"), E.obj(FORMULA, "target")
        cc, cd, kw = E.bool("calculate_competition"), E.bool("calculate_distances"), E.obj(DATA, "kw")
        maker = VObj(core.CalculateCompetitionMaker, {"name": "m", "open_elem": oe, "open_formula": of, "chempot": mu, "calculate_competition": cc,
                                                      "calculate_chempot_distances": cd, "chunk_size": E.int("chunk"), "cpd_kwargs": kw}, E.tick())
        s0, s1 = z3.Const("s!", RSK.sort), z3.Const("t!", RSK.sort)
        # contract of add_rxn_set (R06): the union
        ADD = RSK.fn("union", RSK.sort, RSK.sort)
        E.axioms.append(z3.ForAll([s0, s1, x], IN(ADD(s0, s1), x) == z3.Or(IN(s0, x), IN(s1, x)), patterns=[IN(ADD(s0, s1), x)]))
        RSK.methods["add_rxn_set"] = lambda E2, s, a, k: SObj(RSK, ADD(s.t, (a or list(k.values()))[0].t))
        i = z3.Int("i!")
        goal = RFORM(COMP_OF(tf.t))
        made, docs, targets, reduced = [], [], [], []
        allin = lambda r: z3.Exists([i], z3.And(0 <= i, i < n, IN(GIVEN(i), r)))
        w = idx(E, n)
        before = E.fresh("before", I)
        E.define(before == w - 1)
        E.hint_idx = [*E.hint_idx, before]

        def length(E2, s):
            m = E2.fresh("size", I)
            E2.define(z3.And(m >= 0, (m == 0) == z3.Not(z3.Exists([x], IN(s.t, x)))))
            return SNum(m)

        RSK.methods["__len__"] = lambda E2, s, a, k: length(E2, s)
        RSK.iter = lambda E2, s: VList([Seg([(v := z3.Const(fresh_name("r"), JR.sort), None)], IN(s.t, v), SObj(JR, v))], "list", E2.tick(), True, True)

        def by_product(E2, s, a, k):
            """contract of get_rxns_by_product (R08)"""
            k = {**dict(zip(["product", "return_set"], a)), **k}
            E2.prove("a reaction set of target reactions", E2.zb(E2.truth(k.get("return_set", False))))
            f = E2.resolve(k["product"])
            if not targets:
                # lemma, proved for an arbitrary reaction and an arbitrary set
                y = E2.fresh("y", JR.sort)
                E2.prove("lemma: the reactions of every set are there", z3.Implies(IN(GIVEN(w), y), IN(s.t, y)))
                E2.prove("lemma: no other reactions are there", z3.Implies(IN(s.t, y), allin(y)))
                SK = z3.Function(fresh_name("set_of"), JR.sort, I)
                E2.define(z3.ForAll([x, i], z3.Implies(z3.And(0 <= i, i < n, IN(GIVEN(i), x)), IN(s.t, x)), patterns=[IN(GIVEN(i), x)]))
                E2.define(z3.ForAll([x], z3.Implies(IN(s.t, x), z3.And(0 <= SK(x), SK(x) < n, IN(GIVEN(SK(x)), x))), patterns=[IN(s.t, x)]))
            t = E2.fresh("targets", RSK.sort)
            E2.define(z3.ForAll([x], IN(t, x) == z3.And(IN(s.t, x), PRODUCES(x, f.t)), patterns=[IN(t, x)]))
            targets.append((s, f, SObj(RSK, t)))
            return targets[-1][-1]

        def by_reactants(E2, s, a, k):
            """contract of get_rxns_by_reactants (R08)"""
            k = {**dict(zip(["reactants", "return_set"], a)), **k}
            fs = k["reactants"]
            f = z3.Const(fresh_name("f"), FORMULA.sort)
            G = z3.Function(fresh_name("given_formula"), FORMULA.sort, z3.BoolSort())
            E2.define(z3.ForAll([f], G(f) == E2.zb(E2.merge_bool(E2.generic([f], z3.BoolVal(True), lambda: E2.contains(fs, SObj(FORMULA, f))))), patterns=[G(f)]))
            t = E2.fresh("reduced", RSK.sort)
            E2.define(z3.ForAll([x], IN(t, x) == z3.And(IN(s.t, x), of_formula(x, G)), patterns=[IN(t, x)]))
            return SObj(RSK, t)

        RSK.methods["get_rxns_by_product"], RSK.methods["get_rxns_by_reactants"] = by_product, by_reactants
        def inst(E2, a, k):
            a = [v for v in a if v is not ReactionSet]
            k = {**dict(zip(["entries", "indices", "coeffs", "open_elem", "chempot", "all_data"], a)), **k}
            src = k["entries"]
            if not (isinstance(src, SObj) and src.kind is PART["entries"] and src.t.num_args() == 1):
                raise Undecided("a reaction set of other entries")
            s = src.t.arg(0)
            for nme in PART:
                E2.prove(f"the open set has the same {nme}", E2.zb(E2.eq(k.get(nme), SObj(PART[nme], PARTF[nme](s)))))
            return SObj(RSK, REOPEN(s, E2.resolve(k["open_elem"]).t, E2.num(k["chempot"])))

        # contract of the constructor (R06): the same rows, evaluated at the open conditions
        e0, m0 = z3.Const("e!", ELEM.sort), z3.Real("mu!")
        E.axioms.append(z3.ForAll([s0, e0, m0, x], IN(REOPEN(s0, e0, m0), x) == IN(s0, x), patterns=[IN(REOPEN(s0, e0, m0), x)]))

        def scored(E2, a, k):
            k = {**dict(zip(["target_rxns", "all_rxns", "num_rxns"], a[1:])), **k}
            d = E2.resolve(k["all_rxns"])
            if not (isinstance(d, SObj) and d.kind is RSDICT and d.t.decl().eq(ASDICT.decl if hasattr(ASDICT, "decl") else ASDICT)):
                raise Undecided("stored reactions are not a dictionary of a reaction set")
            reduced.append((E2.resolve(k["target_rxns"]), SObj(RSK, d.t.arg(0))))
            return SObj(RSK, SCORED(reduced[-1][0].t, d.t.arg(0)))

        def distanced(E2, a, k):
            k = {**dict(zip(["target_rxns", "entries"], a[1:])), **k}
            E2.prove("distances over the given entries", E2.zb(E2.eq(k["entries"], entries)))
            return SObj(RSK, DISTANCED(E2.resolve(k["target_rxns"]).t))

        def from_rxns(E2, a, k):
            a = [v for v in a if v is not ReactionSet]
            made.append({**dict(zip(["rxns", "entries"], a)), **k})
            return VObj(ReactionSet, {"made": len(made)}, E2.tick())

        def doc(E2, a, k):
            docs.append(k)
            return VObj(object, dict(k), E2.tick())

        M = core.CalculateCompetitionMaker
        E.contracts[(core.CompetitionTaskDocument, "__call__")] = doc
        E.contracts[(ReactionSet, "__call__")] = inst
        E.contracts[ReactionSet.from_rxns] = from_rxns
        E.contracts[ReactionSet.from_rxns.__func__] = from_rxns
        E.contracts[M._get_competition_decorated_rxns] = scored
        E.contracts[M._get_chempot_decorated_rxns] = distanced
        E.contracts[core.initialize_ray] = lambda E2, a, k: None
        E.contracts[core.get_added_elem_data] = lambda E2, a, k: E2.tup(Opaque("elements"), Opaque("system"))
        f = M.make.original
        node = lambda: func_ast(f)

        def inv(E2, fr, done):
            s = E2.resolve(E2.find_frame(fr, "all_rxns").vars["all_rxns"])
            r = z3.Const("r!", JR.sort)
            return [("the first set is in the union", z3.ForAll([r], z3.Implies(IN(GIVEN(0), r), IN(s.t, r)), patterns=[IN(GIVEN(0), r)])),
                    ("the handled sets are in the union", done.all(lambda o: z3.ForAll([r], z3.Implies(IN(o.t, r), IN(s.t, r))))),
                    ("nothing else is", z3.ForAll([r], z3.Implies(IN(s.t, r), z3.Or(IN(GIVEN(0), r), done.any(lambda o: IN(o.t, r)))), patterns=[IN(s.t, r)]))]

        def havoc(E2, fr):
            s = SObj(RSK, E2.fresh("all", RSK.sort))
            E2.set_var_in(E2.find_frame(fr, "all_rxns"), "all_rxns", s)
            return [s]

        E.loop_hooks = [invariant_rule(node, lambda E2, nn, fr: nn in node().body and E2.find_frame(fr, "all_rxns") is not None, havoc, inv, "union")]
        how, out = outcome(E, lambda: E.call(f, [maker, sets, entries, tf], {}), ValueError)
        r = E.obj(JR, "r")
        given = lambda r: IN(GIVEN(w), r)
        if how == "raise":
            E.cover("refused")
            E.prove("refused only without target reactions", z3.Not(z3.And(given(r.t), PRODUCES(r.t, goal))))
            return
        E.cover("reachable")
        if len(made) != 1 or not docs or not targets:
            raise Undecided("the result is not made by from_rxns")
        src, f0, tset = targets[0]
        E.prove("target reactions are reactions of the sets that produce the target", z3.Implies(IN(tset.t, r.t), z3.And(allin(r.t), PRODUCES(r.t, goal))))
        E.prove("every reaction of the sets that produces the target is a target reaction", z3.Implies(z3.And(given(r.t), PRODUCES(r.t, goal)), IN(tset.t, r.t)))
        if open_:
            ok = src.t.decl().name().startswith("at_open") and src.t.num_args() == 3
            if not ok:
                raise Undecided("open conditions set otherwise")
            E.prove("targets are taken at the open conditions", z3.And(src.t.arg(1) == oe.t, src.t.arg(2) == mu.t))
        cur = tset.t
        if E.branch(cc.t):
            E.prove("competition is calculated", z3.BoolVal(len(reduced) == 1))
            t, red = reduced[0]
            E.prove("of the target reactions", t.t == tset.t)
            g = E.obj(JR, "competitor")
            E.prove("competitors are among all reactions", z3.Implies(IN(red.t, g.t), allin(g.t)))
            j = z3.Int("j!!")
            of_target = lambda fm: z3.Or(z3.Exists([j], z3.And(0 <= j, j < NREACT(r.t), RFORM(RC(r.t, j)) == fm)), fm == of.t if open_ else z3.BoolVal(False))
            E.prove("no reaction of a target's reactants and the open element is left out", z3.Implies(z3.And(IN(tset.t, r.t), given(g.t), of_formula(g.t, of_target)), IN(red.t, g.t)))
            cur = SCORED(tset.t, red.t)
        if E.branch(cd.t):
            cur = DISTANCED(cur)
        E.prove("the result holds the decorated target reactions", E.zb(E.eq(made[0]["rxns"], SObj(RSK, cur))))
        E.prove("over the given entries", E.zb(E.eq(made[0].get("entries"), entries)))
        E.prove("the document holds the result", z3.BoolVal(isinstance(docs[0].get("rxns"), VObj) and docs[0]["rxns"].attrs.get("made") == 1))
        E.prove("the document states the conditions", z3.And(E.zb(E.eq(docs[0]["open_elem"], oe)), E.num(docs[0]["chempot"]) == mu.t) if open_ else z3.BoolVal(docs[0]["open_elem"] is None))


make(False)
make(True)
