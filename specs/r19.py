"""R19: interface reaction hulls."""
from specs.common import *  # noqa: F403
from rxn_network.reactions.hull import InterfaceReactionHull as IRH

T = "rxn_network.reactions.hull:InterfaceReactionHull."
RX = Kind("HullReaction", None)
REN = z3.Function("rxn_energy_per_atom", RX.sort, R)
XOF = z3.Function("hull_coordinate", RX.sort, R)
FRAC = z3.Function("reactant_atomic_fraction", RX.sort, COMP.sort, R)
ISREACT = z3.Function("is_reactant", RX.sort, COMP.sort, z3.BoolSort())
RX.attrs["energy_per_atom"] = lambda E, r: SNum(REN(r.t), True)


def _fractions(E, r):
    c = z3.Const(fresh_name("c"), COMP.sort)
    return VDict([Seg([(c, None)], ISREACT(r.t, c), E.tup(SObj(COMP, c), SNum(FRAC(r.t, c), True)))], E.tick())


RX.attrs["reactant_atomic_fractions"] = _fractions
HULL_ATTRS = ["c1", "c2", "coords", "reactions", "hull_vertices"]


def hull(E):
    """precondition: a hull object made by its constructor: n >= 2 points sorted by coordinate, the first at 0 and the last at 1
    (the two reactants), each point being its reaction's coordinate and energy"""
    h = Rx()
    h.n = E.int("n").t
    E.assume(h.n >= 2)
    h.X, h.Y, h.RX = z3.Function(fresh_name("x"), I, R), z3.Function(fresh_name("y"), I, R), RX.fn(fresh_name("hull_rxn"), I)
    i, j = z3.Ints("i! j!")
    rng = z3.And(0 <= i, i < h.n)
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < h.n), h.X(i) <= h.X(j)), patterns=[z3.MultiPattern(h.X(i), h.X(j))]))
    E.assume(z3.And(h.X(0) == 0, h.X(h.n - 1) == 1))
    E.assume(z3.ForAll([i], z3.Implies(rng, REN(h.RX(i)) == h.Y(i)), patterns=[h.RX(i)]))
    k = z3.Int(fresh_name("k"))
    h.coords = VList([Seg([(k, h.n)], z3.BoolVal(True), VList([Conc([SNum(h.X(k), True), SNum(h.Y(k), True)])], "ndarray"))], "ndarray", E.tick())
    h.reactions = E.seq("reactions", h.n, lambda q: SObj(RX, h.RX(q)))
    h.c1, h.c2 = E.obj(COMP, "c1"), E.obj(COMP, "c2")
    E.assume(h.c1.t != h.c2.t)
    h.obj = VObj(IRH, {"c1": h.c1, "c2": h.c2, "coords": h.coords, "reactions": h.reactions, "hull": Poison("scipy hull"), "e1": Poison("entry"), "e2": Poison("entry"),
                       "endpoint_reactions": Poison("endpoints")}, E.tick())
    return h


def coordinate(E, h):
    """contract of get_coordinate: the reaction's mixing ratio"""
    f = z3.Function(fresh_name("coordinate"), RX.sort, R)
    E.contracts[IRH.get_coordinate] = lambda E2, a, k: SNum(f((a[1:] or list(k.values()))[0].t), True)
    return f


@contract("get_coordinate is the mixing ratio of the second reactant", [T + "get_coordinate"])
def _(E):
    h = hull(E)
    r = E.obj(RX, "rxn")
    fr = Frame(E, h.obj, HULL_ATTRS)
    f = lambda c: z3.If(ISREACT(r.t, c.t), FRAC(r.t, c.t), 0)
    E.assume(z3.And(f(h.c1) >= 0, f(h.c2) >= 0, f(h.c1) + f(h.c2) > 0))
    v = E.num(E.call_method(h.obj, "get_coordinate", [r], {}))
    E.cover("reachable")
    x = f(h.c2) / (f(h.c1) + f(h.c2))
    tol = z3.RealVal("1/1000000000000")
    E.prove("mixing ratio (rounded to 12 digits)", z3.And(v - x <= tol, x - v <= tol))
    fr.prove("frame")


@contract("get_primary_competition is the energy above the best reaction at another ratio", [T + "get_primary_competition"])
def _(E):
    h = hull(E)
    f = coordinate(E, h)
    r = E.obj(RX, "rxn")
    i = z3.Int("i!")
    E.assume(z3.Exists([i], z3.And(0 <= i, i < h.n, h.X(i) == f(r.t))))
    fr = Frame(E, h.obj, HULL_ATTRS)
    v = E.num(E.call_method(h.obj, "get_primary_competition", [r], {}))
    E.cover("reachable")
    other = z3.And(0 <= i, i < h.n, h.X(i) != f(r.t))
    q = idx(E, h.n)
    E.prove("no competing reaction is lower", z3.Implies(h.X(q) != f(r.t), v >= REN(r.t) - h.Y(q)))
    E.prove("some competing reaction attains it", z3.Exists([i], z3.And(other, v == REN(r.t) - h.Y(i))))
    fr.prove("frame")


@contract("altitude is the height over the chord", [T + "_calculate_altitude"])
def _(E):
    p = [[E.real(f"{a}{i}") for a in "xy"] for i in "123"]
    E.assume(p[0][0].t != p[2][0].t)
    v = E.num(E.call(IRH._calculate_altitude, [E.mk(q, "ndarray") for q in p], {}))
    E.cover("reachable")
    (x1, y1), (x2, y2), (x3, y3) = [(a.t, b.t) for a, b in p]
    lam = E.real("lam").t
    E.prove("height over the chord", z3.Implies(x2 == x1 + lam * (x3 - x1), v == y2 - (y1 + lam * (y3 - y1))))


@contract("secondary competition combines both sides", [T + "get_secondary_competition"])
def _(E):
    h = hull(E)
    f = coordinate(E, h)
    r = E.obj(RX, "rxn")
    x = f(r.t)
    EN, CNT, LEN = z3.Function("decomposition_energy", R, R, R), z3.Function("decomposition_paths", I, I), z3.Function("points_in_range", R, R, I)
    two = lambda a, k: [E.num(z) for z in (list(a[1:]) + list(k.values()))[:2]]
    real = lambda t: z3.ToReal(t) if t.is_int() else t
    a, b = z3.Reals("a! b!")
    m = z3.Int("m!")
    E.axioms.append(z3.ForAll([a, b], LEN(a, b) >= 0, patterns=[LEN(a, b)]))
    E.axioms.append(z3.ForAll([m], CNT(m) >= 1, patterns=[CNT(m)]))
    E.contracts[IRH.get_decomposition_energy] = lambda E2, a, k: SNum(EN(*map(real, two(a, k))), True)
    E.contracts[IRH.get_coords_in_range] = lambda E2, a, k: E2.seq("pts", LEN(*map(real, two(a, k))), lambda q: E2.mk([0.0, 0.0], "ndarray"), "ndarray")
    E.contracts[IRH.count] = lambda E2, a, k: SNum(CNT(E.num((a[1:] or list(k.values()))[0])))
    rec = lambda E2, a, k: E2.tup(SNum(EN(*map(real, two(a, k))), True), SNum(CNT(LEN(*map(real, two(a, k))) - 2)))
    E.contracts[IRH.get_decomposition_energy_and_num_paths_recursive] = rec
    E.contracts[getattr(IRH.get_decomposition_energy_and_num_paths_recursive, "__wrapped__", None)] = rec
    eah = E.real("eah")
    E.contracts[IRH.get_energy_above_hull] = lambda E2, a, k: eah
    fr = Frame(E, h.obj, HULL_ATTRS)
    l, rt = EN(0, x), EN(x, 1)
    nl, nr = z3.ToReal(CNT(LEN(0, x) - 2)), z3.ToReal(CNT(LEN(x, 1) - 2))
    for norm in (True, False):
        for inc in (True, False):
            for recursive in (True, False):
                v = E.num(E.call_method(h.obj, "get_secondary_competition", [r], {"normalize": norm, "include_e_hull": inc, "recursive": recursive}))
                E.cover("reachable")
                tot = -(l * nr + rt * nl) / (nl * nr if norm else 1) + (eah.t if inc else 0)
                E.prove(f"negated {'mean' if norm else 'sum'} of the decomposition energies{' plus the energy above hull' if inc else ''}{' (recursive)' if recursive else ''}", v == tot)
    fr.prove("frame")


@contract("energy above hull", [T + "get_energy_above_hull"])
def _(E):
    h = hull(E)
    HE = z3.Function("hull_energy", R, R)
    E.contracts[IRH.get_hull_energy] = lambda E2, a, k: SNum(HE(E2.num((a[1:] or list(k.values()))[0])), True)
    q = idx(E, h.n)
    fr = Frame(E, h.obj, HULL_ATTRS)
    v = E.num(E.call_method(h.obj, "get_energy_above_hull", [SObj(RX, h.RX(q))], {}))
    E.cover("reachable")
    i = z3.Int("i!")
    E.prove("energy of the reaction minus the hull's at its coordinate", z3.Exists([i], z3.And(0 <= i, i < h.n, h.RX(i) == h.RX(q), v == h.Y(i) - HE(h.X(i)))))
    fr.prove("frame")


@contract("hull energy interpolates between adjacent hull reactions", [T + "get_hull_energy", T + "get_reactions_by_coordinate"], budget=150)
def _(E):
    h = hull(E)
    m = E.int("m").t
    V = z3.Function(fresh_name("vertex"), I, I)
    i, j = z3.Ints("i! j!")
    E.assume(m >= 2)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < h.n), XOF(h.RX(i)) == h.X(i)), patterns=[h.RX(i)]))  # a reaction has one coordinate
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(0 <= V(i), V(i) < h.n)), patterns=[V(i)]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m, 0 <= j, j < m, i != j), h.X(V(i)) != h.X(V(j))), patterns=[z3.MultiPattern(V(i), V(j))]))
    first, last = E.int("first").t, E.int("last").t
    E.assume(z3.And(0 <= first, first < m, 0 <= last, last < m, h.X(V(first)) == 0, h.X(V(last)) == 1))
    h.obj.attrs["hull_vertices"] = E.seq("vertices", m, lambda q: SNum(V(q), True), "ndarray")
    x = E.real("x")
    E.assume(z3.And(0 <= x.t, x.t <= 1))
    # the code takes a point within 1.1e-5 of a vertex for the vertex
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.Or(h.X(V(i)) == x.t, absz(h.X(V(i)) - x.t) > z3.RealVal("11/1000000"))), patterns=[V(i)]))
    # the hull vertices next to x (a finite set has a largest element below and a smallest one above)
    p, q = E.int("left").t, E.int("right").t
    E.assume(z3.And(0 <= p, p < m, 0 <= q, q < m, h.X(V(p)) <= x.t, x.t <= h.X(V(q))))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(z3.Or(h.X(V(i)) <= h.X(V(p)), h.X(V(i)) > x.t), z3.Or(h.X(V(i)) >= h.X(V(q)), h.X(V(i)) < x.t))), patterns=[V(i)]))
    E.perm_hints = [p]
    fr = Frame(E, h.obj, HULL_ATTRS)
    v = E.num(E.call_method(h.obj, "get_hull_energy", [x], {}))
    E.cover("reachable")
    a, b, ya, yb = h.X(V(p)), h.X(V(q)), h.Y(V(p)), h.Y(V(q))
    E.prove("a hull reaction's own energy", z3.Implies(a == b, v == ya))
    E.prove("interpolated between the neighbours", z3.Implies(a != b, v * (b - a) == ya * (b - x.t) + yb * (x.t - a)))
    fr.prove("frame")


@contract("counts are the Catalan numbers", [T + "count"])
def _(E):
    """count is tabulated for 0..22 (every entry checked against the recurrence); a hull without inner points has one way"""
    h = hull(E)
    cat = [1]
    while len(cat) < 23:
        cat.append(sum(a * b for a, b in zip(cat, reversed(cat))))
    for k in range(23):
        E.prove(f"count({k})", E.num(E.call_method(h.obj, "count", [k], {})) == cat[k])
    m = E.int("m")
    E.assume(m.t < 0)
    E.cover("reachable")
    E.prove("nothing to decompose", E.num(E.call_method(h.obj, "count", [m], {})) == 1)


@contract("altitude multiplicity counts the ways on both sides and above", [T + "_altitude_multiplicity"])
def _(E):
    h = hull(E)
    CNT = z3.Function("ways", I, I)
    E.contracts[IRH.count] = lambda E2, a, k: SNum(CNT(E.num((a[1:] or list(k.values()))[0])))
    l, r, n = (E.int(x) for x in ("n_left", "n_right", "n"))
    E.assume(z3.And(l.t >= 0, r.t >= 0, n.t >= 0))
    v = E.num(E.call_method(h.obj, "_altitude_multiplicity", [l, r, n], {}))
    E.cover("reachable")
    rem = n.t - l.t - r.t - 1
    E.prove("product of the counts", v == z3.If(rem < 0, 0, CNT(l.t) * CNT(r.t) * CNT(rem)))


@contract("stable and unstable reactions partition the reactions by hull membership", [T + "stable_reactions", T + "unstable_reactions"])
def _(E):
    h = hull(E)
    m = E.int("m").t
    V = z3.Function(fresh_name("vertex"), I, I)
    i = z3.Int("i!")
    E.assume(m >= 0)
    h.obj.attrs["hull_vertices"] = E.seq("vertices", m, lambda q: SNum(V(q), True), "ndarray")
    on = lambda t: z3.Exists([i], z3.And(0 <= i, i < m, V(i) == t))
    x = E.obj(RX, "rxn")
    k = z3.Int("k!")
    for name, sign in (("stable_reactions", True), ("unstable_reactions", False)):
        out = E.resolve(E.getattr(h.obj, name))
        E.cover("reachable")
        want = z3.Exists([k], z3.And(0 <= k, k < h.n, h.RX(k) == x.t, on(k) if sign else z3.Not(on(k))))
        E.prove(f"{name}: exactly the reactions {'on' if sign else 'off'} the hull", E.zb(E.contains(VList(list(E.iterate(out).segs), "list"), x)) == want)


@contract("other scores add both sides", [T + "get_secondary_competition_max_energy", T + "get_secondary_competition_area"])
def _(E):
    h = hull(E)
    f = coordinate(E, h)
    r = E.obj(RX, "rxn")
    x = f(r.t)
    MX, AR = z3.Function("max_decomposition", R, R, R), z3.Function("decomposition_area", R, R, R)
    real = lambda t: z3.ToReal(t) if t.is_int() else t
    two = lambda a, k: [real(E.num(z)) for z in (list(a[1:]) + list(k.values()))[:2]]
    E.contracts[IRH.get_max_decomposition_energy] = lambda E2, a, k: SNum(MX(*two(a, k)), True)
    E.contracts[IRH.get_decomposition_area] = lambda E2, a, k: SNum(AR(*two(a, k)), True)
    E.prove("maximal energies", E.num(E.call_method(h.obj, "get_secondary_competition_max_energy", [r], {})) == -(MX(0, x) + MX(x, 1)))
    E.cover("reachable")
    E.prove("areas", E.num(E.call_method(h.obj, "get_secondary_competition_area", [r], {})) == AR(0, x) + AR(x, 1))
