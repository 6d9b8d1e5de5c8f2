"""Symbolic reaction sets: any number of sizes, rows and entries."""
from specs.common import *  # noqa: F403
from rxn_network.reactions.computed import ComputedReaction
from rxn_network.reactions.open import OpenComputedReaction
from rxn_network.reactions.reaction_set import ReactionSet

RS = "rxn_network.reactions.reaction_set:ReactionSet."
SET_ATTRS = ["entries", "indices", "coeffs", "all_data", "open_elem", "chempot", "mu_dict"]


def nd(dims, elem):
    """an array of the given shape: dims = [(index variable, bound)...] from the outside in"""
    for v, hi in reversed(dims):
        elem = VList([Seg([(v, hi)], z3.BoolVal(True), elem)], "ndarray", 0)
    return elem


def size_dict(E, has, value):
    s = z3.Int(fresh_name("s"))
    return VDict([Seg([(s, None)], has(s), E.tup(SNum(s), value(s)))], E.tick())


def entry_list(E, prefix=""):
    m = E.int(prefix + "m").t
    E.assume(m >= 0)
    X = ENTRY.fn(fresh_name(prefix + "entry"), I)
    return m, X, E.seq(prefix + "entries", m, lambda k: SObj(ENTRY, X(k)))


def sym_set(E, prefix="", open_=False, entries=None):
    """precondition: a reaction set made by its constructor; rows of a size s >= 1 index the entry list"""
    o = Rx()
    o.m, o.X, o.entries = entries or entry_list(E, prefix)
    o.HAS = z3.Function(fresh_name(prefix + "has_size"), I, z3.BoolSort())
    o.ROWS = z3.Function(fresh_name(prefix + "rows"), I, I)
    o.IX = z3.Function(fresh_name(prefix + "ix"), I, I, I, I)
    o.CO = z3.Function(fresh_name(prefix + "co"), I, I, I, R)
    o.D = DATA.fn(fresh_name(prefix + "data"), I, I)
    s, r, c = z3.Ints("s! r! c!")
    E.axioms.append(z3.ForAll([s], z3.Implies(o.HAS(s), z3.And(s >= 1, o.ROWS(s) >= 0)), patterns=[o.HAS(s)]))
    E.axioms.append(z3.ForAll([s], o.ROWS(s) >= 0, patterns=[o.ROWS(s)]))
    E.axioms.append(z3.ForAll([s, r, c], z3.And(0 <= o.IX(s, r, c), o.IX(s, r, c) < o.m), patterns=[o.IX(s, r, c)]))

    def arr(s, elem, last=True):
        r, c = z3.Int(fresh_name("r")), z3.Int(fresh_name("c"))
        return nd([(r, o.ROWS(s))] + ([(c, s)] if last else []), elem(s, r, c))

    o.indices = size_dict(E, o.HAS, lambda s: arr(s, lambda s, r, c: SNum(o.IX(s, r, c))))
    o.coeffs = size_dict(E, o.HAS, lambda s: arr(s, lambda s, r, c: SNum(o.CO(s, r, c), True)))
    o.all_data = size_dict(E, o.HAS, lambda s: arr(s, lambda s, r, c: SObj(DATA, o.D(s, r)), False))
    kw = {}
    if open_:
        o.el, o.mu = E.obj(ELEM, prefix + "open_el"), E.real(prefix + "mu")
        kw = {"open_elem": o.el, "chempot": o.mu}
    o.obj = E.instantiate(ReactionSet, [o.entries, o.indices, o.coeffs], {**kw, "all_data": o.all_data})
    return o


def row(E, o, s):
    r = z3.Int(fresh_name("row"))
    E.assume(z3.And(o.HAS(s), 0 <= r, r < o.ROWS(s)))
    return r


def a_size(E, name="size"):
    return z3.Int(fresh_name(name))


def arrays(E, obj, s, r, c):
    """(has size, number of rows, index, coefficient, data) of a set object at one place"""
    z = SNum(s)
    out = {}
    for n in ("indices", "coeffs", "all_data"):
        d = E.getattr(obj, n)
        out[n] = d
    return out


def template(E, s, f):
    """f(elem) under the bound variables of a segment -> (dims, guard, formula)"""
    dims, g, e = rename_seg(s)
    return dims, g, E.zb(E.merge_bool(E.generic([v for v, _ in dims], z3.And(dims_cond(dims), g), lambda: SBool(f(e)))))


def some(E, lst, f):
    """some element of the collection satisfies f"""
    out = []
    for s in E.iterate(lst).segs:
        if isinstance(s, Conc):
            out += [f(x) for x in s.items]
        else:
            dims, g, b = template(E, s, f)
            out.append(z3.Exists([v for v, _ in dims], z3.And(dims_cond(dims), g, b)))
    return z3.Or(*out) if out else z3.BoolVal(False)


def every(E, lst, f):
    """every element of the collection satisfies f"""
    out = []
    for s in E.iterate(lst).segs:
        if isinstance(s, Conc):
            out += [f(x) for x in s.items]
        else:
            dims, g, b = template(E, s, f)
            vs = [v for v, _ in dims]
            fresh = [(v, z3.Const(fresh_name("any"), v.sort())) for v in vs]
            out.append(z3.substitute(z3.Implies(z3.And(dims_cond(dims), g), b), *fresh))
    return z3.And(*out) if out else z3.BoolVal(True)


def is_row(E, o, x, s, r, mu=None):
    """x is the reaction object of row r of size s"""
    if not (isinstance(x, VObj) and x.cls is (OpenComputedReaction if mu else ComputedReaction)):
        return z3.BoolVal(False)
    c, d = z3.Int(fresh_name("c")), z3.Int(fresh_name("c"))
    want = {"entries": VList([Seg([(c, s)], z3.BoolVal(True), SObj(ENTRY, o.X(o.IX(s, r, c))))], "list"),
            "coefficients": VList([Seg([(d, s)], z3.BoolVal(True), SNum(o.CO(s, r, d), True))], "ndarray"), "data": SObj(DATA, o.D(s, r))}
    got = {k: v for k, v in x.attrs.items() if k in want}
    if set(got) != set(want):
        return z3.BoolVal(False)
    out = [E.zb(E.eq(got["data"], want["data"])), elementwise(E, got["entries"], want["entries"]), elementwise(E, got["coefficients"], want["coefficients"])]
    if mu:
        out.append(is_mu(E, x.attrs.get("chempots"), *mu))
    else:
        out.append(z3.BoolVal(x.attrs.get("chempots") is None))
    return z3.And(*out)


def elementwise(E, a, b):
    a, b = E.iterate(a), E.iterate(b)
    k = z3.Int(fresh_name("k"))
    na, nb = E.num(E.length(a)), E.num(E.length(b))
    rng = z3.And(0 <= k, k < na, k < nb)
    return z3.And(na == nb, z3.ForAll([k], z3.Implies(rng, E.zb(E.merge_bool(E.generic([k], rng, lambda: E.eq(E.index(a, SNum(k)), E.index(b, SNum(k)))))))))


def is_mu(E, d, el, mu):
    d = E.resolve(d)
    if not isinstance(d, VDict):
        return z3.BoolVal(False)
    return z3.And(E.num(E.length(d)) == 1, E.zb(E.eq(E.getitem(d, el), mu)))


def arbitrary_row(E, tag, out, has, rows, index, coef, data):
    """postcondition: the arrays of the set object `out` have exactly the sizes, row counts and cells given"""
    s = a_size(E)
    z = SNum(s)
    for n in ("indices", "coeffs", "all_data"):
        E.prove(f"{tag}: {n} has the right sizes", E.zb(E.contains(E.getattr(out, n), z)) == has(s))
    E.assume(has(s))
    r, c = z3.Int(fresh_name("row")), z3.Int(fresh_name("col"))
    for n, cell in (("indices", index), ("coeffs", coef), ("all_data", data)):
        a = E.resolve(E.getitem(E.getattr(out, n), z))
        E.prove(f"{tag}: {n} has the right number of rows", E.num(E.length(a)) == rows(s))
    E.assume(z3.And(0 <= r, r < rows(s), 0 <= c, c < s))
    for n, cell in (("indices", index), ("coeffs", coef), ("all_data", data)):
        x = E.resolve(E.index(E.resolve(E.getitem(E.getattr(out, n), z)), SNum(r)))
        if n != "all_data":
            E.prove(f"{tag}: {n} rows have one column per species", E.num(E.length(x)) == s)
            x = E.index(x, SNum(c))
        E.prove(f"{tag}: {n} cells", E.zb(E.eq(x, cell(s, r, c))))


def same_rows(E, tag, out, o):
    arbitrary_row(E, tag, out, o.HAS, o.ROWS, lambda s, r, c: SNum(o.IX(s, r, c)), lambda s, r, c: SNum(o.CO(s, r, c), True), lambda s, r, c: SObj(DATA, o.D(s, r)))
