"""Enumeration: the settings filter of _react (contracts registered by R13 and R14)."""
from specs.common import *  # noqa: F403
import ray
from pyvc.models import model
from rxn_network.enumerators import basic

T = "rxn_network.enumerators.basic:"
ER = Kind("EnumReaction", None)
SUG = ER.fn("suggested", I, I, I)
NSUG = z3.Function("number_suggested", I, I, I)
REACT, PROD = (z3.Function(n, ER.sort, ENTRY.sort, z3.BoolSort()) for n in ("reactant_entry", "product_entry"))
RE, PE = (z3.Function(n, I, I, ENTRY.sort, z3.BoolSort()) for n in ("in_reactants", "in_products"))
FLAGS = {n: z3.Function("rxn_" + n, ER.sort, z3.BoolSort()) for n in ("is_identity", "balanced")}
for _n, _f in FLAGS.items():
    ER.attrs[_n] = lambda E, r, _f=_f: SBool(_f(r.t))
ERRORS, NCON = (z3.Function(n, ER.sort, I) for n in ("rxn_errors", "rxn_constraints"))
ER.attrs["lowest_num_errors"] = lambda E, r: SNum(ERRORS(r.t))
ER.attrs["data"] = lambda E, r: VDict([Conc([E.tup("num_constraints", SNum(NCON(r.t)))])], E.tick())


def eset(E, P, kind="set"):
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    return VList([Seg([(x, None)], P(x), SObj(ENTRY, x))], kind, E.tick(), True, True)


ER.attrs["reactant_entries"] = lambda E, r: eset(E, lambda x: REACT(r.t, x), "list")
ER.attrs["product_entries"] = lambda E, r: eset(E, lambda x: PROD(r.t, x), "list")


@model(ray.get)
def _(E, v, **k):
    return v


def every(P, Q):
    x = z3.Const("x!", ENTRY.sort)
    return z3.ForAll([x], z3.Implies(P(x), Q(x)))


def some(*P):
    x = z3.Const("x!", ENTRY.sort)
    return z3.Exists([x], z3.And(*[p(x) for p in P]))


def react_title(pf, tf, minimize):
    return f"suggested reactions are returned exactly when the settings allow them ({pf} of precursors, {tf} of targets{', no products given' if minimize else ''})"


def react(pf, tf, minimize):
    def body(E):
        j0, i0, s0 = z3.Int("j!"), z3.Int("i!"), z3.Int("s!")
        J = E.int("J").t
        N = z3.Function(fresh_name("items"), I, I)
        E.assume(J >= 0)
        E.axioms += [z3.ForAll([j0], N(j0) >= 0, patterns=[N(j0)]), z3.ForAll([j0, i0], NSUG(j0, i0) >= 0, patterns=[NSUG(j0, i0)])]
        prec, targ, opn = (z3.Function(fresh_name(n), ENTRY.sort, z3.BoolSort()) for n in ("precursor", "target", "open"))
        some_p, some_t = E.bool("precursors_given"), E.bool("targets_given")
        E.assume(some_p.t == some(prec))
        E.assume(some_t.t == some(targ))

        def item(j, i):
            return E.tup(eset(E, lambda x: RE(j, i, x)), None if minimize else eset(E, lambda x: PE(j, i, x)))

        j, i = z3.Int(fresh_name("j")), z3.Int(fresh_name("i"))
        fil, pd, gpd = (Opaque(n) for n in ("filtered", "pd", "grand"))
        chunk = VList([Seg([(j, J)], z3.BoolVal(True), VList([Conc([VList([Seg([(i, N(j))], z3.BoolVal(True), item(j, i))], "list"), fil, pd, gpd])], "tuple"))], "list", E.tick())
        RF = Kind("ReactFunction", None)

        def function(E2, f, a, k):
            lv = [v for v, *_ in E2.loopvars] if E2.loopvars and isinstance(E2.loopvars[0], tuple) else list(E2.loopvars)
            if len(lv) < 2:
                raise Undecided("no loop over groups and pairs")
            jj, ii = lv[0], lv[1]
            e = E2.obj(ENTRY, fresh_name("e"))
            E2.prove("reactants as paired", E2.zb(E2.contains(a[0], e)) == RE(jj, ii, e.t))
            E2.prove("products as paired", E2.zb(E2.contains(a[1], e)) == (z3.BoolVal(False) if minimize else PE(jj, ii, e.t)))
            s = z3.Int(fresh_name("s"))
            return VList([Seg([(s, NSUG(jj, ii))], z3.BoolVal(True), SObj(ER, SUG(jj, ii, s)))], "list", E2.tick())

        RF.methods["__call__"] = function
        ub, ch, mx = E.bool("remove_unbalanced"), E.bool("remove_changed"), E.int("max_constraints")
        f = basic._react
        out = E.call(getattr(f, "_function", f), [chunk, SObj(RF, E.fresh("rf", RF.sort)), eset(E, opn), eset(E, prec), eset(E, targ), pf, tf, ub, ch, mx], {})
        E.cover("reachable")
        diff = lambda P: lambda x: z3.And(P(x), z3.Not(opn(x)))
        # the settings: all of the (non-open) phases are listed ones / some of them is
        rule = lambda how, L, P: every(diff(P), lambda x: z3.Or(L(x), opn(x))) if how == "issuperset" else some(diff(P), L)

        def allowed(y):
            return z3.And(z3.Not(FLAGS["is_identity"](y)), z3.Implies(ub.t, FLAGS["balanced"](y)), z3.Implies(ch.t, ERRORS(y) == 0), NCON(y) <= mx.t,
                          z3.Implies(some_p.t, rule(pf, prec, lambda x: REACT(y, x))), z3.Implies(some_t.t, rule(tf, targ, lambda x: PROD(y, x))))

        jq, iq, sq = E.fresh("jq", I), E.fresh("iq", I), E.fresh("sq", I)
        E.hint_idx = [jq, iq, sq]
        R0, P0 = (lambda x: RE(jq, iq, x)), (lambda x: z3.BoolVal(False) if minimize else PE(jq, iq, x))
        y = SUG(jq, iq, sq)
        rs, ps = (lambda x: z3.And(REACT(y, x), z3.Not(opn(x)))), (lambda x: z3.And(PROD(y, x), z3.Not(opn(x))))
        alike = lambda A, B: z3.And(every(A, B), every(B, A))
        between = alike(rs, diff(R0)) if minimize else z3.Or(z3.And(alike(rs, diff(R0)), alike(ps, diff(P0))), z3.And(alike(rs, diff(P0)), alike(ps, diff(R0))))
        both = lambda x: z3.Or(R0(x), P0(x))
        hyp = [jq >= 0, jq < J, iq >= 0, iq < N(jq), sq >= 0, sq < NSUG(jq, iq), allowed(y), between, z3.Not(some(R0, P0)), z3.Implies(some_p.t, some(both, prec))]
        if not minimize:
            hyp += [z3.Implies(some_t.t, some(both, targ)), some(P0)]
        if E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))]):
            for h in hyp:
                E.assume(h)
            E.cover("allowed")
            E.prove("every allowed reaction between the paired phases is returned", E.zb(E.contains(out, SObj(ER, y))))
        else:
            y = E.obj(ER, "y")
            E.assume(E.zb(E.contains(out, y)))
            E.prove("every returned reaction satisfies the settings", allowed(y.t))
            E.prove("every returned reaction is a suggested one", z3.Exists([j0, i0, s0], z3.And(0 <= j0, j0 < J, 0 <= i0, i0 < N(j0), 0 <= s0, s0 < NSUG(j0, i0), SUG(j0, i0, s0) == y.t)))

    return body
