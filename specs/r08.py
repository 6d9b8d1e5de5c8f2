"""R08: queries by reactant or product return exactly the matching reactions."""
from specs.rxnset import *  # noqa: F403
from pyvc.domain import COMP_OF

from specs.r06 import record

TOL = z3.RealVal("1/1000000000000")


def formula(o, t):
    return RFORM(ECOMP(o.X(t)))


def reg(what, as_set):
    method = "get_rxns_by_" + what
    tag = f"{method} {'as a set' if as_set else 'as reactions'}: exactly the matching rows"

    @contract(tag, [RS + method, RS + "_get_rxn_set_by_indices", RS + "_get_rxns_by_indices"], budget=200)
    def _(E):
        o = sym_set(E)
        fr = Frame(E, o.obj, SET_ATTRS)
        s, r, c = z3.Ints("s! r! c!")
        if what == "product":
            p = E.obj(FORMULA, "product")
            arg = p
            cond = lambda s, r: z3.Exists([c], z3.And(0 <= c, c < s, o.CO(s, r, c) > TOL, formula(o, o.IX(s, r, c)) == RFORM(COMP_OF(p.t))))
        else:
            n = E.int("np").t
            E.assume(n >= 0)
            P = FORMULA.fn(fresh_name("reactant"), I)
            arg = E.seq("reactants", n, lambda k: SObj(FORMULA, P(k)))
            k = z3.Int("k!")
            # a reaction has a reactant
            E.assume(z3.ForAll([s, r], z3.Implies(z3.And(o.HAS(s), 0 <= r, r < o.ROWS(s)), z3.Exists([c], z3.And(0 <= c, c < s, o.CO(s, r, c) < -TOL)))))
            cond = lambda s, r: z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < s, o.CO(s, r, c) < -TOL),
                                                          z3.Exists([k], z3.And(0 <= k, k < n, formula(o, o.IX(s, r, c)) == RFORM(COMP_OF(P(k)))))))
        seen = []

        def rxns_of(E2, a, kw):
            """contract of the row selections: the rows listed for each size, in that order"""
            seen.append((a + list(kw.values()))[-1])
            return None
        for m in ("_get_rxns_by_indices", "_get_rxn_set_by_indices"):
            E.contracts[getattr(ReactionSet, m)] = rxns_of
        E.call_method(o.obj, method, [arg], {"return_set": as_set})
        E.cover("reachable")
        if len(seen) != 1:
            raise Undecided("the query does not go through one row selection")
        d = seen[0]
        t = a_size(E)
        E.prove("every size is in the selection", E.zb(E.contains(d, SNum(t))) == o.HAS(t))
        E.assume(o.HAS(t))
        sel = E.resolve(E.getitem(d, SNum(t)))
        u = z3.Int(fresh_name("row"))
        E.prove("a row is selected if and only if it matches", E.zb(E.contains(sel, SNum(u))) == z3.And(0 <= u, u < o.ROWS(t), cond(t, u)))
        fr.prove("frame")


for _w in ("product", "reactants"):
    for _s in (True, False):
        reg(_w, _s)


def selection(E, o, kind):
    """rows J(s, 0..N(s)-1) of the sizes SEL"""
    SEL = z3.Function(fresh_name("selected_size"), I, z3.BoolSort())
    N = z3.Function(fresh_name("selected_rows"), I, I)
    J = z3.Function(fresh_name("selected_row"), I, I, I)
    s, k = z3.Ints("s! k!")
    E.axioms.append(z3.ForAll([s], z3.Implies(SEL(s), o.HAS(s)), patterns=[SEL(s)]))
    E.axioms.append(z3.ForAll([s], N(s) >= 0, patterns=[N(s)]))
    E.axioms.append(z3.ForAll([s, k], z3.Implies(z3.And(SEL(s), 0 <= k, k < N(s)), z3.And(0 <= J(s, k), J(s, k) < o.ROWS(s))), patterns=[J(s, k)]))

    def rows(s):
        k = z3.Int(fresh_name("k"))
        return VList([Seg([(k, N(s))], z3.BoolVal(True), SNum(J(s, k)))], kind, 0)
    return SEL, N, J, size_dict(E, SEL, rows)


def reg_rows(kind, open_):
    tag = f"from a {kind}, {'open' if open_ else 'closed'}"

    if kind == "list":
        @contract(f"_get_rxns_by_indices yields the selected rows ({tag})", [RS + "_get_rxns_by_indices"])
        def _(E):
            o = sym_set(E, open_=open_)
            record(E)
            mu = (o.el, o.mu) if open_ else None
            SEL, N, J, sel = selection(E, o, kind)
            fr = Frame(E, o.obj, SET_ATTRS)
            out = VList(list(E.iterate(E.call_method(o.obj, "_get_rxns_by_indices", [sel], {})).segs), "list")
            E.cover("reachable")
            s, k, t, u = (z3.Int(fresh_name(x)) for x in "skts")
            E.assume(z3.And(SEL(s), 0 <= k, k < N(s)))
            E.prove("every selected row is yielded", some(E, out, lambda x: is_row(E, o, x, s, J(s, k), mu)))
            E.prove("every reaction yielded is a selected row", every(E, out, lambda x: z3.Exists([t, u], z3.And(SEL(t), 0 <= u, u < N(t), is_row(E, o, x, t, J(t, u), mu)))))
            E.prove("one reaction per selected row", E.num(E.length(out)) == E.sigma([(t, None), (u, N(t))], SEL(t), z3.RealVal(1)))
            fr.prove("frame")

    @contract(f"_get_rxn_set_by_indices has the selected rows ({tag})", [RS + "_get_rxn_set_by_indices", RS + "__init__"])
    def _(E):
        o = sym_set(E, open_=open_)
        SEL, N, J, sel = selection(E, o, kind)
        fr = Frame(E, o.obj, SET_ATTRS)
        out = E.call_method(o.obj, "_get_rxn_set_by_indices", [sel], {})
        E.cover("reachable")
        E.prove("a new object of the class", z3.BoolVal(isinstance(out, VObj) and out.cls is ReactionSet and out is not o.obj))
        E.prove("entries kept", E.zb(E.eq(E.getattr(out, "entries"), o.entries)))
        if open_:
            E.prove("potential kept", is_mu(E, E.getattr(out, "mu_dict"), o.el, o.mu))
        else:
            E.prove("no potential", z3.BoolVal(E.getattr(out, "mu_dict") is None))
        arbitrary_row(E, "selection", out, SEL, N, lambda s, r, c: SNum(o.IX(s, J(s, r), c)), lambda s, r, c: SNum(o.CO(s, J(s, r), c), True), lambda s, r, c: SObj(DATA, o.D(s, J(s, r))))
        fr.prove("frame")


for _k in ("list", "ndarray"):
    for _o in (False, True):
        reg_rows(_k, _o)
