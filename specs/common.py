"""Symbolic preconditions shared by the contracts."""
from __future__ import annotations

import ast

import z3

from pyvc.domain import *  # noqa: F403
from pyvc.domain import EUNC, EUNCNAN, AMT, COMP, FORMULA, RFORM, ECOMP, EENERGY, ELEM, ELv, ENTRY, FACTOR, REDUCED, R
from pyvc.vals import *  # noqa: F403
from vlib import contract  # noqa: F401

I = z3.IntSort()
DATA = Kind("Data", dict)
DTRUTH = z3.Function("data_nonempty", DATA.sort, z3.BoolSort())
DATA.truth = lambda E, d: SBool(DTRUTH(d.t))
DATA.binop["eq_native"] = lambda E, x, y: False


class Rx:
    """a symbolic reaction: n species with distinct compositions C(i) and coefficients K(i)"""


def sym_comps(E, n, C, distinct=True, kind="list"):
    i, j = z3.Ints("i! j!")
    if distinct:
        E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), C(i) != C(j)), patterns=[z3.MultiPattern(C(i), C(j))]))
    return E.seq("comps", n, lambda k: SObj(COMP, C(k)), kind)


def sym_reaction(E, cls, nonzero=True, distinct=True, prefix=""):
    """precondition: a reaction object of class `cls` built by its own constructor from n >= 1 species"""
    from rxn_network.reactions.basic import BasicReaction

    r = Rx()
    r.n = E.int(prefix + "n").t
    E.assume(r.n >= 1)
    k = z3.Function(fresh_name(prefix + "coef"), I, R)
    i = z3.Int("i!")
    j = z3.Int("j!")
    if nonzero:
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), k(i) != 0), patterns=[k(i)]))
    r.K = k
    coefs = E.seq("coefs", r.n, lambda q: SNum(k(q), True), "ndarray")
    r.data = E.obj(DATA, prefix + "data")
    r.err = E.int(prefix + "err")
    if cls is BasicReaction:
        C = COMP.fn(fresh_name(prefix + "comp"), I)
        r.C = C
        comps = sym_comps(E, r.n, C, distinct)
        r.balanced = E.bool(prefix + "balanced")
        r.obj = E.instantiate(cls, [comps, coefs], {"balanced": r.balanced, "data": r.data, "lowest_num_errors": r.err})
        r.entries = None
    else:
        X = ENTRY.fn(fresh_name(prefix + "entry"), I)
        r.X = X
        r.C = lambda q: REDUCED(ECOMP(X(q)))
        if distinct:
            E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < r.n, 0 <= j, j < r.n, i != j), r.C(i) != r.C(j)), patterns=[z3.MultiPattern(X(i), X(j))]))
        entries = E.seq("entries", r.n, lambda q: SObj(ENTRY, X(q)))
        r.entries = entries
        kw = {"data": r.data, "lowest_num_errors": r.err}
        from rxn_network.reactions.open import OpenComputedReaction

        if issubclass(cls, OpenComputedReaction):
            r.mu_elem = E.obj(ELEM, "open_el")
            r.mu = E.real("mu")
            kw["chempots"] = VDict([Conc([E.tup(r.mu_elem, r.mu)])], E.tick())
        r.obj = E.instantiate(cls, [entries, coefs], kw)
    return r


def idx(E, n, name="q"):
    q = z3.Int(fresh_name(name))
    E.assume(z3.And(q >= 0, q < n))
    E.hint_idx = E.hint_idx + [q] if E.hint_idx else [q]
    return q


def absz(t):
    return z3.If(t < 0, -t, t)


def prove_scaled(E, tag, out, r, q, factor):
    """postcondition: out has the species of r in the same order and coefficient factor*K(q) at the arbitrary index q"""
    oc = E.getattr(out, "coefficients")
    E.prove(f"{tag}: as many coefficients", E.zb(E.eq(E.length(oc), SNum(r.n))))
    v = E.num(E.index(oc, SNum(q)))
    E.prove(f"{tag}: every coefficient is multiplied by the common factor", v == factor * r.K(q))
    c = E.index(E.getattr(out, "compositions"), SNum(q))
    E.prove(f"{tag}: species order kept", E.zb(E.eq(c, SObj(COMP, r.C(q)))))
    E.prove(f"{tag}: as many species", E.zb(E.eq(E.length(E.getattr(out, "compositions")), SNum(r.n))))


def prove_meta(E, tag, out, r, entries=True):
    if entries and r.entries is not None:
        E.prove(f"{tag}: entries kept in order", E.zb(E.eq(E.getattr(out, "entries"), r.entries)))
    E.prove(f"{tag}: data kept", E.zb(E.eq(E.getattr(out, "data"), E.getattr(r.obj, "data"))))
    E.prove(f"{tag}: error count kept", E.zb(E.eq(E.getattr(out, "lowest_num_errors"), r.err)))


class Frame:
    """frame condition: the observable attributes of an object are what they were"""

    def __init__(self, E, obj, names):
        self.E, self.obj = E, obj
        self.old = {n: freeze(obj.attrs[n]) for n in names if n in obj.attrs}

    def prove(self, tag):
        for n, v in self.old.items():
            if n not in self.obj.attrs:
                self.E.fail(f"{tag}: attribute {n} removed")
            else:
                self.E.prove(f"{tag}: the original's {n} unchanged", same(self.E, self.obj.attrs[n], v))


def same(E, a, b):
    """structural equality (sufficient for equality of dictionaries: the same items in the same order)"""
    a, b = E.resolve(a), E.resolve(b)
    if isinstance(a, VDict) and isinstance(b, VDict):
        return same(E, VList(a.pairs, "list"), VList(b.pairs, "list"))
    if isinstance(a, VList) and isinstance(b, VList) and a.kind == b.kind and len(a.segs) == len(b.segs) and all(x is y for x, y in zip(a.segs, b.segs)):
        return z3.BoolVal(True)
    if isinstance(a, VList) and isinstance(b, VList) and len(a.segs) == len(b.segs) and all(isinstance(x, Conc) == isinstance(y, Conc) for x, y in zip(a.segs, b.segs)):
        out = []
        for x, y in zip(a.segs, b.segs):
            if isinstance(x, Conc):
                if len(x.items) != len(y.items):
                    return z3.BoolVal(False)
                out += [same(E, p, q) for p, q in zip(x.items, y.items)]
            else:
                if len(x.dims) != len(y.dims):
                    return E.zb(E.eq(a, b))
                dims, g, e = rename_seg(x)
                d2, g2, e2 = rename_seg(y, [v for v, _ in dims])
                vs = [v for v, _ in dims]
                rng = dims_cond(dims)
                out.append(z3.And(*[h1 == h2 for (_, h1), (_, h2) in zip(dims, d2) if h1 is not None], z3.BoolVal(True)))
                out.append(z3.ForAll(vs, z3.Implies(rng, z3.And(g == g2, z3.Implies(g, E.zb(E.pure_eq(e, e2, vs, z3.And(rng, g))))))))
        return z3.And(*out)
    return E.zb(E.eq(a, b))


def freeze(v):
    """a snapshot that later in-place updates cannot reach"""
    if isinstance(v, VList):
        n = VList([Conc([freeze(x) for x in s.items]) if isinstance(s, Conc) else s for s in v.segs], v.kind, 0, v.unordered, v.distinct)
        n.meta = dict(v.meta)
        return n
    if isinstance(v, VDict):
        n = VDict([Conc([freeze(x) for x in s.items]) if isinstance(s, Conc) else s for s in v.pairs], 0, v.default)
        n.meta = dict(v.meta)
        return n
    return v


def outcome(E, fn, *excs):
    """('ok', value) or ('raise', exception) for the listed exception classes"""
    try:
        return "ok", fn()
    except VRaise as r:
        if isinstance(r.exc, excs):
            return "raise", r.exc
        raise
DATA.methods["copy"] = lambda E, d, a, k: d


def prop_func(cls, name):
    """the function behind a property or cached property"""
    for c in cls.__mro__:
        if name in c.__dict__:
            p = c.__dict__[name]
            return getattr(p, "func", None) or getattr(p, "fget", None) or p
    raise AttributeError(name)


def formula_energy(E, cls, r, k):
    """energy of species k per reduced formula unit (grand-canonical with open elements)"""
    from rxn_network.reactions.open import OpenComputedReaction

    c = ECOMP(r.X(k))
    en = EENERGY(r.X(k))
    if issubclass(cls, OpenComputedReaction):
        el = z3.Const(fresh_name("o"), ELEM.sort)
        red = REDUCED(c)
        pure = z3.And(AMT(red, r.mu_elem.t) > 0, z3.ForAll([el], z3.Implies(AMT(red, el) > 0, el == r.mu_elem.t)))
        en = z3.If(pure, en, en - r.mu.t * AMT(c, r.mu_elem.t))
    return en / FACTOR(c)


def species_reaction(E, cls, prefix=""):
    """a reaction by its class invariant (established by the constructor: contracts of R02): reactant_coeffs maps exactly the
    species with negative coefficient to it, product_coeffs those with positive coefficient; iteration order is arbitrary"""
    r = Rx()
    r.RA = z3.Function(fresh_name(prefix + "rcoef"), COMP.sort, R)
    r.PA = z3.Function(fresh_name(prefix + "pcoef"), COMP.sort, R)
    c, d = z3.Const(fresh_name("k"), COMP.sort), z3.Const(fresh_name("k"), COMP.sort)
    E.axioms.append(z3.ForAll([c], r.RA(c) <= 0, patterns=[r.RA(c)]))
    E.axioms.append(z3.ForAll([c], r.PA(c) >= 0, patterns=[r.PA(c)]))
    mk = lambda x, f, g: VDict([Seg([(x, None)], g, E.tup(SObj(COMP, x), SNum(f(x), True)))], E.tick())
    r.balanced = E.bool(prefix + "balanced")
    r.data = E.obj(DATA, prefix + "data")
    r.err = E.int(prefix + "err")
    r.obj = VObj(cls, {
        "reactant_coeffs": mk(c, r.RA, r.RA(c) < 0), "product_coeffs": mk(d, r.PA, r.PA(d) > 0), "balanced": r.balanced, "data": r.data,
        "lowest_num_errors": r.err, "_compositions": Poison("ordered species list not constrained here"),
        "_coefficients": VList([Seg([(c, None)], r.RA(c) < 0, SNum(r.RA(c), True)), Seg([(d, None)], r.PA(d) > 0, SNum(r.PA(d), True))], "ndarray", E.tick(), True),
        "_entries": Poison("entries not constrained here"), "grand_entries": Poison("entries not constrained here"), "chempots": Poison("not constrained here"),
        "open_elems": Poison("not constrained here")}, E.tick())
    return r
