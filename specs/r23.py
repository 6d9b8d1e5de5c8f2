"""R23: pathways."""
from specs.common import *  # noqa: F403
from rxn_network.pathways.balanced import BalancedPathway
from rxn_network.pathways.basic import BasicPathway
from rxn_network.pathways.pathway_set import PathwaySet
from rxn_network.reactions.reaction_set import ReactionSet

STEP = Kind("Step", None)
EQ = z3.Function("step_eq", STEP.sort, STEP.sort, z3.BoolSort())
HASH = z3.Function("step_hash", STEP.sort, I)
CONS = z3.Function("step_consumes", STEP.sort, COMP.sort, z3.BoolSort())
PROD = z3.Function("step_produces", STEP.sort, COMP.sort, z3.BoolSort())
HASE = z3.Function("step_entry", STEP.sort, ENTRY.sort, z3.BoolSort())
ENERGY = z3.Function("step_energy", STEP.sort, R)
EPA = z3.Function("step_energy_per_atom", STEP.sort, R)


def members(E, f, t, kind):
    x = z3.Const(fresh_name("k"), kind.sort)
    return VList([Seg([(x, None)], f(t, x), SObj(kind, x))], "list", 0, True, True)


STEP.attrs["reactants"] = lambda E, o: members(E, CONS, o.t, COMP)
STEP.attrs["products"] = lambda E, o: members(E, PROD, o.t, COMP)
STEP.attrs["entries"] = lambda E, o: members(E, HASE, o.t, ENTRY)
STEP.attrs["energy"] = lambda E, o: SNum(ENERGY(o.t), True)
STEP.attrs["energy_per_atom"] = lambda E, o: SNum(EPA(o.t), True)
STEP.binop["eq"] = lambda E, a, b: EQ(a.t, b.t)
STEP.binop["eq_native"] = lambda E, a, b: False


def eq_axioms(E):
    """reaction equality is reflexive and symmetric (contracts of R05)"""
    a, b = z3.Consts("a! b!", STEP.sort)
    E.axioms += [
        z3.ForAll([a], EQ(a, a), patterns=[EQ(a, a)]),
        z3.ForAll([a, b], EQ(a, b) == EQ(b, a), patterns=[EQ(a, b)]),
    ]


def steps(E, prefix=""):
    n = E.int(prefix + "n").t
    E.assume(n >= 0)
    X = STEP.fn(fresh_name(prefix + "step"), I)
    return n, X, E.seq(prefix + "steps", n, lambda k: SObj(STEP, X(k)))


def numbers(E, name, m):
    F = z3.Function(fresh_name(name), I, R)
    return F, E.seq(name, m, lambda k: SNum(F(k), True))


def path(E, cls, prefix="", coefs=True):
    n, X, rx = steps(E, prefix)
    m = E.int(prefix + "ncosts").t
    E.assume(m >= 0)
    C, costs = numbers(E, prefix + "cost", m)
    if cls is BasicPathway:
        return E.instantiate(cls, [rx], {"costs": costs}), (n, X, rx), (m, C, costs), None
    l = E.int(prefix + "ncoefs").t
    E.assume(l >= 0)
    K, co = numbers(E, prefix + "mult", l)
    return E.instantiate(cls, [rx, co], {"costs": costs, "balanced": E.bool(prefix + "balanced")}), (n, X, rx), (m, C, costs), (l, K, co)


def ex(X, n, f):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], z3.And(0 <= i, i < n, f(X(i))))


def reg(cls):
    N = cls.__name__
    T = f"rxn_network.pathways.{'basic' if cls is BasicPathway else 'balanced'}:{N}."
    B = "rxn_network.pathways.base:Pathway."

    @contract(f"{N} members", [B + m for m in ("entries", "all_reactants", "all_products", "compositions", "reactants", "products", "intermediates")])
    def _(E):
        p, (n, X, _), _, _ = path(E, cls)
        c = E.obj(COMP, "phase")
        used, made = ex(X, n, lambda s: CONS(s, c.t)), ex(X, n, lambda s: PROD(s, c.t))
        has = lambda a, x=c: E.zb(E.contains(E.getattr(p, a), x))
        E.cover("reachable")
        E.prove("all_reactants are the phases that some step consumes", has("all_reactants") == used)
        E.prove("all_products are the phases that some step produces", has("all_products") == made)
        E.prove("compositions are the phases of any step", has("compositions") == z3.Or(used, made))
        E.prove("reactants are the phases consumed but never produced", has("reactants") == z3.And(used, z3.Not(made)))
        E.prove("products are the phases produced but never consumed", has("products") == z3.And(made, z3.Not(used)))
        E.prove("intermediates are the phases both produced and consumed", has("intermediates") == z3.And(made, used))
        e = E.obj(ENTRY, "entry")
        E.prove("entries are those of the steps", has("entries", e) == ex(X, n, lambda s: HASE(s, e.t)))

    @contract(f"{N} energy and total cost", [B + "energy", B + "energy_per_atom", T + "total_cost", T + "reactions"])
    def _(E):
        p, (n, X, rx), (m, C, costs), _ = path(E, cls)
        v = z3.Int("k!spec")
        E.cover("reachable")
        E.prove("energy is the sum of the step energies", E.num(E.getattr(p, "energy")) == E.sigma([(v, n)], z3.BoolVal(True), ENERGY(X(v))))
        E.prove("energy per atom is the sum of the step energies per atom", E.num(E.getattr(p, "energy_per_atom")) == E.sigma([(v, n)], z3.BoolVal(True), EPA(X(v))))
        E.prove("total cost is the sum of the costs", E.num(E.getattr(p, "total_cost")) == E.sigma([(v, m)], z3.BoolVal(True), C(v)))
        E.prove("the steps are those given, in order", same(E, E.getattr(p, "reactions"), rx))
        E.prove("the costs are those given, in order", same(E, E.getattr(p, "costs"), costs))

    if cls is BalancedPathway:

        @contract(f"{N}.average_cost", [T + "average_cost"])
        def _(E):
            p, _, (m, C, _), (l, K, _) = path(E, cls)
            v = z3.Int("k!spec")
            tot = E.sigma([(v, l)], z3.BoolVal(True), K(v))
            E.assume(z3.And(m == l, tot != 0))
            E.cover("reachable")
            E.prove("average cost is the multiplicity-weighted mean of the costs", E.num(E.getattr(p, "average_cost")) * tot == E.sigma([(v, l)], z3.BoolVal(True), K(v) * C(v)))

    @contract(f"{N}.__eq__ only if same steps", [T + "__eq__"])
    def _(E):
        eq_axioms(E)
        a, (n, X, _), (ma, Ca, _), ka = path(E, cls, "a")
        b, (n2, Y, _), (mb, Cb, _), kb = path(E, cls, "b")
        got = E.truth(E.compare(ast.Eq, a, b))
        E.cover("reachable")
        if got:
            q = idx(E, n)
            E.prove("equal pathways have as many steps", n == n2)
            E.prove("equal pathways have the same steps in the same order", EQ(X(q), Y(q)))
            if ka:
                j = idx(E, ma)
                E.prove("equal balanced pathways have as many costs", ma == mb)
                E.prove("equal balanced pathways have the same costs", near(Ca(j), Cb(j)))
                j = idx(E, ka[0])
                E.prove("equal balanced pathways have as many multiplicities", ka[0] == kb[0])
                E.prove("equal balanced pathways have the same multiplicities", near(ka[1](j), kb[1](j)))

    @contract(f"{N}.__eq__ whenever same steps", [T + "__eq__"])
    def _(E):
        eq_axioms(E)
        a, (n, X, _), (ma, Ca, _), ka = path(E, cls, "a")
        b, (n2, Y, _), (mb, Cb, _), kb = path(E, cls, "b")
        i = z3.Int("i!")
        E.assume(z3.And(n == n2, z3.ForAll([i], EQ(X(i), Y(i)), patterns=[z3.MultiPattern(X(i), Y(i))])))
        if ka:
            E.assume(z3.And(ma == mb, ka[0] == kb[0], z3.ForAll([i], Ca(i) == Cb(i), patterns=[Ca(i)]), z3.ForAll([i], ka[1](i) == kb[1](i), patterns=[ka[1](i)])))
        got = E.compare(ast.Eq, a, b)
        E.cover("reachable")
        E.prove("pathways with equal steps (and costs) are equal", E.zb(got) if not isinstance(got, bool) else z3.BoolVal(got))

    @contract(f"{N}.__hash__", [T + "__hash__"])
    def _(E):
        """hash() is a function of its argument, and equal steps are interchangeable in it (the premise "whenever their
        reactions do"): the hashed values of two pathways with equal steps agree, whatever their costs"""
        eq_axioms(E)
        a, (n, X, _), _, _ = path(E, cls, "a")
        b, (n2, Y, _), _, _ = path(E, cls, "b")
        i = z3.Int("i!")
        E.assume(z3.And(n == n2, z3.ForAll([i], EQ(X(i), Y(i)), patterns=[z3.MultiPattern(X(i), Y(i))])))
        x, y = E.call(hash, [a], {}), E.call(hash, [b], {})
        E.cover("reachable")
        E.prove("the hashed values agree", same(E, x.v, y.v))


TOL = z3.Q(1, 1000)


def near(a, b):
    return absz(a - b) <= TOL + TOL * absz(b)


reg(BasicPathway)
reg(BalancedPathway)

XS = STEP.fn("path_step", I, I)
YS = STEP.fn("stored_step", I)


def reg_set(cls):
    N = cls.__name__
    T = "rxn_network.pathways.pathway_set:PathwaySet."

    @contract(f"PathwaySet of {N}", [T + m for m in ("from_paths", "_get_reaction_set", "_get_paths", "paths", "__iter__", "__len__", "__init__")])
    def _(E):
        """paths of any lengths; ReactionSet.from_rxns and get_rxns by their contract (R06): a list that holds an equal reaction
        for every reaction given"""
        eq_axioms(E)
        m, M = E.int("npaths").t, E.int("nstored").t
        E.assume(z3.And(m >= 0, M >= 0))
        LEN, NC, NK = (z3.Function(fresh_name(s), I, I) for s in ("nsteps", "ncosts", "nmult"))
        C, K = (z3.Function(fresh_name(s), I, I, R) for s in ("cost", "mult"))
        BAL = z3.Function(fresh_name("is_balanced"), I, z3.BoolSort())
        p, i, j = z3.Ints("p! i! j!")
        for f in (LEN, NC, NK):
            E.axioms.append(z3.ForAll([p], f(p) >= 0, patterns=[f(p)]))

        def mk(k):
            o = {"_reactions": E.seq("rx", LEN(k), lambda q: SObj(STEP, XS(k, q))), "costs": E.seq("co", NC(k), lambda q: SNum(C(k, q), True))}
            if cls is BalancedPathway:
                o |= {"coefficients": E.seq("mu", NK(k), lambda q: SNum(K(k, q), True)), "balanced": SBool(BAL(k))}
            return VObj(cls, o, E.tick())

        given = []
        rset = VObj(ReactionSet, {}, E.tick())

        def from_rxns(E2, a, k):
            given.append(a[1] if a and a[0] is ReactionSet else a[0])
            return rset

        E.contracts[ReactionSet.from_rxns.__func__] = from_rxns
        E.contracts[ReactionSet.get_rxns] = lambda E2, a, k: E.seq("stored", M, lambda q: SObj(STEP, YS(q)))
        paths = E.seq("paths", m, mk)
        # contract of ReactionSet (R06): every reaction of every path has an equal stored one
        E.assume(z3.ForAll([p, i], z3.Implies(z3.And(0 <= p, p < m, 0 <= i, i < LEN(p)), z3.Exists([j], z3.And(0 <= j, j < M, EQ(YS(j), XS(p, i))))), patterns=[XS(p, i)]))
        ps = E.call_method(PathwaySet, "from_paths", [paths], {})
        q = idx(E, m, "p")
        s = idx(E, LEN(q), "s")
        E.cover("reachable")
        E.prove("one reaction set is built", z3.BoolVal(len(given) == 1))
        if given:
            x = z3.Const(fresh_name("k"), STEP.sort)
            E.prove("from all the steps", E.zb(E.contains(given[0], SObj(STEP, XS(q, s)))))
        out = E.getattr(ps, "paths")
        E.prove("as many pathways are returned", E.zb(E.eq(E.length(out), SNum(m))))
        E.prove("the length is the number of pathways", E.zb(E.eq(E.call(len, [ps], {}), SNum(m))))
        got = E.resolve(E.index(out, SNum(q)))
        E.prove("of the same class", z3.BoolVal(isinstance(got, VObj) and got.cls is cls))
        E.prove("with as many steps", E.zb(E.eq(E.length(E.getattr(got, "reactions")), SNum(LEN(q)))))
        E.prove("with equal steps in the same order", E.zb(E.eq(E.index(E.getattr(got, "reactions"), SNum(s)), SObj(STEP, XS(q, s)))))
        E.prove("with the same costs in the same order", same(E, E.getattr(got, "costs"), E.seq("co", NC(q), lambda z: SNum(C(q, z), True))))
        if cls is BalancedPathway:
            E.prove("with the same multiplicities in the same order", same(E, E.getattr(got, "coefficients"), E.seq("mu", NK(q), lambda z: SNum(K(q, z), True))))
            E.prove("with the same balanced flag", E.zb(E.eq(E.getattr(got, "balanced"), SBool(BAL(q)))))
        it = E.call(list, [ps], {})
        E.prove("iteration returns the same pathways", E.zb(E.eq(E.length(it), SNum(m))))


reg_set(BasicPathway)
reg_set(BalancedPathway)
