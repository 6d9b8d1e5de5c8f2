"""R21: Yen's search.  A path is a sequence of nodes; w(u, v) is the weight of the cheapest edge between two nodes; the price of a path is
the sum of w over its steps.  LCP(p, q) is the length of the longest common prefix."""
from specs.common import *  # noqa: F403
from queue import Empty, PriorityQueue

import rustworkx as rx
from pyvc.interp import func_ast
from pyvc.loops import havoc_list, invariant_rule, list_view, while_rule
from rxn_network.network import network
from specs.r22 import St, mk, upd

T = "rxn_network.network.network:"
PATH, EDGE, PAY = Kind("NodePath", None), Kind("EdgeId", None), Kind("EdgeObject", None)
LEN, AT = z3.Function("path_len", PATH.sort, I), z3.Function("path_at", PATH.sort, I, I)
LCP, TAIL = z3.Function("common_prefix", PATH.sort, PATH.sort, I), PATH.fn("tail_of", PATH.sort, I)
SRC, DST, OBJ = z3.Function("edge_source", EDGE.sort, I), z3.Function("edge_target", EDGE.sort, I), PAY.fn("edge_object", EDGE.sort)
COSTOF = z3.Function("weight_of", PAY.sort, R)
CHEAP = EDGE.fn("cheapest_edge", I, I)
PC = z3.Function("price_of_first_steps", PATH.sort, I, R)
IDX, BACK = z3.Function("edge_index", I, EDGE.sort, I), EDGE.fn("edge_with_index", I, I)
W = lambda u, v: COSTOF(OBJ(CHEAP(u, v)))
PRICE = lambda p: PC(p, LEN(p) - 1)


class Graph:
    def copy(self): ...
    def edge_index_map(self): ...
    def remove_edge_from_index(self, i): ...
    def add_edges_from(self, x): ...


class Found:
    def __getitem__(self, i): ...
    def __bool__(self): ...


def slice_of(E, p, lo, hi):
    n = LEN(p)
    if lo is None and hi is None:
        j = z3.Int(fresh_name("j"))
        return VList([Seg([(j, n)], z3.BoolVal(True), SNum(AT(p, j)))], "list", E.tick())
    cl = lambda v: z3.If(v < 0, z3.If(v + n < 0, 0, v + n), z3.If(v > n, n, v))
    lo = z3.IntVal(0) if lo is None else cl(E.num(lo))
    hi = n if hi is None else cl(E.num(hi))
    j = z3.Int(fresh_name("j"))
    m = z3.If(hi > lo, hi - lo, 0)
    return VList([Seg([(j, z3.simplify(m))], z3.BoolVal(True), SNum(AT(p, z3.simplify(lo + j))))], "list", E.tick())


def path_get(E, o, i):
    i = E.resolve(i)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            raise Undecided("slice with a step")
        return slice_of(E, o.t, i.start, i.stop)
    i = E.num(i)
    E.prove("node within the path", z3.And(i < LEN(o.t), i >= -LEN(o.t)))
    return SNum(AT(o.t, z3.simplify(z3.If(i < 0, i + LEN(o.t), i))))


PATH.getitem = path_get
PATH.iter = lambda E, o: slice_of(E, o.t, None, None)
PATH.methods["__len__"] = lambda E, o, a, k: SNum(LEN(o.t))
PATH.methods["__getitem__"] = lambda E, o, a, k: path_get(E, o, a[0])


class World:
    def __init__(self, E):
        self.E, self.paths = E, []
        p, q = z3.Const("p!", PATH.sort), z3.Const("q!", PATH.sort)
        i, j, u, v = z3.Ints("i! j! u! v!")
        e, f = z3.Const("e!", EDGE.sort), z3.Const("f!", EDGE.sort)
        self.p, self.q, self.i, self.j = p, q, i, j
        L = LCP(p, q)
        E.axioms += [
            z3.ForAll([p], LEN(p) >= 1, patterns=[LEN(p)]),
            # the longest common prefix: agreement before it, a difference or an end at it; equal sequences are equal
            z3.ForAll([p, q], z3.And(0 <= L, L <= LEN(p), L <= LEN(q), L == LCP(q, p), z3.Implies(z3.And(L < LEN(p), L < LEN(q)), AT(p, L) != AT(q, L)), z3.Implies(z3.And(L == LEN(p), L == LEN(q)), p == q)), patterns=[L]),
            z3.ForAll([p, q, j], z3.Implies(z3.And(0 <= j, j < L), AT(p, j) == AT(q, j)), patterns=[z3.MultiPattern(L, AT(p, j)), z3.MultiPattern(L, AT(q, j))]),
            z3.ForAll([p, i], z3.Implies(z3.And(0 <= i, i < LEN(p)), LEN(TAIL(p, i)) == LEN(p) - i), patterns=[TAIL(p, i)]),
            z3.ForAll([p, i, j], z3.Implies(z3.And(0 <= i, i < LEN(p), 0 <= j, j < LEN(p) - i), AT(TAIL(p, i), j) == AT(p, i + j)), patterns=[AT(TAIL(p, i), j)]),
            # price: sum over the steps
            z3.ForAll([p], PC(p, 0) == 0, patterns=[LEN(p)]),
            # the cheapest edge between two nodes that have one
            z3.ForAll([e], z3.And(SRC(CHEAP(SRC(e), DST(e))) == SRC(e), DST(CHEAP(SRC(e), DST(e))) == DST(e), W(SRC(e), DST(e)) <= COSTOF(OBJ(e))), patterns=[z3.MultiPattern(SRC(e), DST(e))]),
            z3.ForAll([i, e], BACK(i, IDX(i, e)) == e, patterns=[IDX(i, e)]),
        ]
        # steps are taken one at a time, where a proof names them
        self.step = lambda p, m: PC(p, m + 1) == PC(p, m) + W(AT(p, m), AT(p, m + 1))
        self.HASE = lambda u, v: z3.And(SRC(CHEAP(u, v)) == u, DST(CHEAP(u, v)) == v)

    def as_path(self, v):
        """a list of nodes as one value (its prices, common prefixes, … are those of the sequence)"""
        E = self.E
        v = E.resolve(v)
        if isinstance(v, SObj) and v.kind is PATH:
            return v.t
        if not isinstance(v, VList):
            raise Undecided("not a path")
        for o, segs, t in self.paths:
            if o is v and segs == list(o.segs):
                return t
        sg = v.simple_seg()
        if sg is not None and isinstance(sg.elem, SNum) and sg.elem.t.decl().eq(AT) and sg.elem.t.arg(1).eq(sg.dims[0][0]) and sg.dims[0][1].eq(LEN(sg.elem.t.arg(0))):
            return sg.elem.t.arg(0)  # a copy of a path
        c = E.fresh("path", PATH.sort)
        n, at = list_view(E, v, lambda x: E.num(x))
        j = z3.Int(fresh_name("j"))
        E.prove("a path has a node", n >= 1)
        E.define(z3.And(LEN(c) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), AT(c, j) == at(j)), patterns=[AT(c, j)])))
        self.paths.append((v, list(v.segs), c))
        return c

    def induct(self, name, f, lo, hi):
        """lemma by induction over lo..hi (inclusive)"""
        E = self.E
        E.prove(name + ": first", z3.Implies(lo <= hi, f(lo)))
        m = E.fresh("m", I)
        E.prove(name + ": next", z3.Implies(z3.And(lo <= m, m < hi, f(m)), f(m + 1)))
        k = z3.Int(fresh_name("k"))
        E.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k <= hi), f(k))))


@contract("Yen's search lists the k cheapest simple paths in order, each once, and leaves the network alone", [T + "yens_ksp"], budget=200)
def _(E):
    w = World(E)
    p, q, x, y, j = w.p, w.q, z3.Int("x!"), z3.Int("y!"), w.j
    s, t, k = (E.int(v).t for v in ("source", "target", "k"))
    E.assume(z3.And(s != t, k >= 1))
    SIMPLE = z3.Function("simple_path", PATH.sort, z3.BoolSort())
    l, m = z3.Ints("l! m!")
    E.axioms += [z3.ForAll([p], z3.Implies(SIMPLE(p), z3.And(AT(p, 0) == s, AT(p, LEN(p) - 1) == t, LEN(p) >= 2)), patterns=[SIMPLE(p)]),
                 z3.ForAll([p, l, m], z3.Implies(z3.And(SIMPLE(p), 0 <= l, l < m, m < LEN(p)), AT(p, l) != AT(p, m)), patterns=[z3.MultiPattern(SIMPLE(p), AT(p, l), AT(p, m))])]
    edge_of = lambda c, i: z3.Implies(z3.And(SIMPLE(c), 0 <= i, i < LEN(c) - 1), w.HASE(AT(c, i), AT(c, i + 1)))
    G = {"prev": None, "i": None, "found": None}  # ghost state
    cf = E.obj(Kind("CostFunction", None), "cf")

    def show_simple(c, why):
        i, o = E.fresh("i", I), E.fresh("o", I)
        E.assume(G["there"](c, i))
        E.prove(f"{why} goes from source to target", z3.And(AT(c, 0) == s, AT(c, LEN(c) - 1) == t, LEN(c) >= 2))
        E.prove(f"{why} follows edges", z3.Implies(z3.And(0 <= i, i < LEN(c) - 1), w.HASE(AT(c, i), AT(c, i + 1))))
        E.prove(f"{why} visits no node twice", z3.Implies(z3.And(0 <= i, i < o, o < LEN(c)), AT(c, i) != AT(c, o)))
        E.assume(SIMPLE(c))

    # ---- the graph: its edges, those removed meanwhile, a numbering that changes when edges are added
    orig = mk(E, Graph, ver=E.fresh("version", I), removed=None)

    def mine(o):
        if o is orig:
            E.prove("the search does not change the network", z3.BoolVal(False))
        return o

    def current(E2, o):
        r, ver = o.state["removed"], o.state["ver"]
        if r is None or not [z for z in r.segs if isinstance(z, Seg) or z.items]:
            return lambda e: z3.BoolVal(True)
        out = []
        for sg in r.segs:
            if isinstance(sg, Conc):
                out += [lambda e, n=E2.num(z): BACK(ver, n) == e for z in sg.items]
            elif len(sg.dims) == 1 and sg.dims[0][0].sort() == EDGE.sort and sg.dims[0][1] is None and E2.num(sg.elem).eq(IDX(ver, sg.dims[0][0])):
                out.append(lambda e, sg=sg: z3.substitute(sg.guard, (sg.dims[0][0], e)))
            else:
                raise Undecided("edges removed")
        return lambda e: z3.Not(z3.Or(*[f(e) for f in out]))

    def copy(E2, a, kw):
        if a[0].state["removed"] is not None and a[0] is not orig:
            raise Undecided("copy of a changed graph")
        return mk(E2, Graph, ver=E2.fresh("version", I), removed=VList([], "list", E2.tick()))

    def index_map(E2, a, kw):
        e = z3.Const(fresh_name("e"), EDGE.sort)
        g = a[0]
        d = VDict(VList([Seg([(e, None)], z3.simplify(current(E2, g)(e)), E2.tup(SNum(IDX(g.state["ver"], e)), E2.tup(SNum(SRC(e)), SNum(DST(e)), SObj(PAY, OBJ(e)))))], "list", E2.tick(), True, True).segs, E2.tick())
        d.meta = {"distinct": True}
        return d

    def remove(E2, a, kw):
        g, n = mine(a[0]), E2.num(E2.resolve(a[1]))
        E2.prove("an index of an edge as the graph is now numbered", z3.And(IDX(g.state["ver"], BACK(g.state["ver"], n)) == n, current(E2, g)(BACK(g.state["ver"], n))))
        E2.append(g.state["removed"], SNum(n))
        return None

    def add(E2, a, kw):
        g, lst = mine(a[0]), E2.resolve(a[1])
        cur = current(E2, g)
        segs = [z for z in E2.iterate(lst).segs if isinstance(z, Seg) or z.items]
        e = E2.fresh("edge", EDGE.sort)
        if not segs:
            E2.prove("all removed edges return", cur(e))
        elif len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].dims) == 1 and segs[0].dims[0][0].sort() == EDGE.sort and segs[0].dims[0][1] is None:
            sg, v = segs[0], segs[0].dims[0][0]
            a1, b1, c1 = [E2.resolve(z) for z in sg.elem.items()]
            E2.prove("all removed edges return, and only they", z3.substitute(sg.guard, (v, e)) == z3.Not(cur(e)))
            E2.prove("as they were", z3.Implies(z3.Not(cur(e)), z3.substitute(z3.And(E2.num(a1) == SRC(v), E2.num(b1) == DST(v), c1.t == OBJ(v)), (v, e))))
        else:
            raise Undecided("edges added")
        upd(E2, g, ver=E2.fresh("version", I), removed=VList([], "list", E2.tick()))
        return None

    E.contracts.update({Graph.copy: copy, Graph.edge_index_map: index_map, Graph.remove_edge_from_index: remove, Graph.add_edges_from: add})

    def cheapest(E2, a, kw):
        g, u, v = a[0], E2.num(E2.resolve(a[1])), E2.num(E2.resolve(a[2]))
        if g.state["removed"] is not None:
            e = E2.fresh("edge", EDGE.sort)
            E2.prove("edges are priced in the whole graph", current(E2, g)(e))
        if not G.get("pricing"):
            raise Undecided("prices of paths")
        E2.prove("the nodes are joined", w.HASE(u, v))
        return SObj(PAY, OBJ(CHEAP(u, v)))

    def weight(E2, a, kw):
        return SNum(COSTOF(E2.resolve(a[0]).t), True)

    E.contracts.update({network._get_cheapest_edge: cheapest, network.get_edge_weight: weight})

    # ---- the shortest path in the graph as it is
    def dijkstra(E2, a, kw):
        kw = {**dict(zip(("graph", "source", "target", "weight_fn"), a)), **kw}
        g, x0, t0 = kw["graph"], E2.num(E2.resolve(kw["source"])), E2.num(E2.resolve(kw["target"]))
        cur, prev, i = current(E2, g), G["prev"], G["i"]
        e, e2 = E2.fresh("edge", EDGE.sort), E2.fresh("edge", EDGE.sort)
        E2.prove("edges weigh what they cost", E2.num(E2.call(kw["weight_fn"], [SObj(PAY, OBJ(e))], {})) == COSTOF(OBJ(e)))
        E2.prove("parallel edges go together", z3.Implies(z3.And(SRC(e) == SRC(e2), DST(e) == DST(e2)), cur(e) == cur(e2)))
        E2.prove("the search is for the target", t0 == t)
        there = lambda u, v: z3.And(w.HASE(u, v), cur(CHEAP(u, v)))
        c, n = E2.fresh("other", PATH.sort), E2.fresh("n", I)
        if prev is None:
            E2.prove("the search starts at the source", x0 == s)
            cls, tail, start = (lambda c: SIMPLE(c)), (lambda c: c), z3.IntVal(0)
        else:
            cls, tail, start = (lambda c: z3.And(SIMPLE(c), z3.Not(G["ina"](c)), z3.Not(G["C"](c)), LCP(c, prev) == i + 1)), (lambda c: TAIL(c, i)), i
        # every path of the class goes on from here in the graph as it is
        E2.assume(edge_of(c, start + n))
        E2.prove("paths to be covered start here", z3.Implies(cls(c), z3.And(AT(tail(c), 0) == x0, AT(tail(c), LEN(tail(c)) - 1) == t)))
        E2.prove("paths to be covered are still there", z3.Implies(z3.And(cls(c), 0 <= n, n < LEN(tail(c)) - 1, AT(tail(c), n) == AT(c, start + n), AT(tail(c), n + 1) == AT(c, start + n + 1)), there(AT(tail(c), n), AT(tail(c), n + 1))))
        found = E2.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
        if not found:
            G["found"] = None
            E2.assume(z3.ForAll([p], z3.Not(cls(p)), patterns=[SIMPLE(p)]))
            return mk(E2, Found, target=t0, path=None)
        Q = E2.fresh("shortest", PATH.sort)
        E2.assume(z3.And(AT(Q, 0) == x0, AT(Q, LEN(Q) - 1) == t0, z3.Implies(x0 != t0, LEN(Q) >= 2)))
        E2.assume(z3.ForAll([l, m], z3.Implies(z3.And(0 <= l, l < m, m < LEN(Q)), AT(Q, l) != AT(Q, m)), patterns=[z3.MultiPattern(AT(Q, l), AT(Q, m))]))
        E2.assume(z3.ForAll([p], z3.Implies(cls(p), PRICE(Q) <= PRICE(tail(p))), patterns=[SIMPLE(p)]))
        G["found"] = Q
        G["there"] = lambda q, n: z3.Implies(z3.And(0 <= n, n < LEN(q) - 1), there(AT(q, n), AT(q, n + 1)))
        if prev is None:
            show_simple(Q, "the first path")
        return mk(E2, Found, target=t0, path=Q)

    def found_get(E2, a, kw):
        E2.prove("the path to the target", E2.num(E2.resolve(a[1])) == a[0].state["target"])
        if a[0].state["path"] is None:
            raise VRaise(IndexError("No path"))
        return SObj(PATH, a[0].state["path"])

    E.contracts.update({Found.__getitem__: found_get, Found.__bool__: lambda E2, a, kw: a[0].state["path"] is not None, rx.dijkstra_shortest_paths: dijkstra})

    # ---- the queue of candidates
    def put(E2, a, kw):
        b, item = a[0], E2.resolve(a[1])
        cost, lst = [E2.resolve(z) for z in E2.iterate(item).items()]
        c = w.as_path(lst)
        if G["prev"] is None or G["found"] is None:
            raise Undecided("candidate out of turn")
        establish(E2, c)
        if "price_of_first_steps" not in str(E2.num(cost)) and not z3.is_rational_value(E2.num(cost)) and not z3.is_const(E2.num(cost)):
            raise Undecided("form of the price")
        E2.prove("a candidate is queued with its price", E2.num(cost) == PRICE(c))
        prev, i = G["prev"], G["i"]
        has, C, WIT, ina = b.state["has"], G["C"], G["WIT"], G["ina"]
        upd(E2, b, has=lambda z: z3.Or(z == c, has(z)))
        G["C"] = lambda z: z3.Or(C(z), z3.And(SIMPLE(z), z3.Not(ina(z)), LCP(z, prev) == i + 1))
        G["WIT"] = lambda z: z3.If(C(z), WIT(z), c)
        return None

    def establish(E2, c):
        """a path made of the last path up to the spur node and the shortest way on: the cheapest of its class, simple and new"""
        prev, i, Q = G["prev"], G["i"], G["found"]
        if G.get("established") is c:
            return
        G["established"] = c
        E2.assume(edge_of(prev, i - 1))
        v = E2.fresh("v", I)
        E2.assume(edge_of(prev, v))
        agree = z3.And(LEN(c) == i + LEN(Q), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= i), AT(c, j) == AT(prev, j)), patterns=[AT(c, j)]),
                       z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < LEN(Q)), AT(c, i + j) == AT(Q, j)), patterns=[AT(Q, j)]))
        E2.prove("the candidate is the path up to here and the shortest way on", agree)
        E2.assume(agree)

        def same(name, f, lo, hi, steps):
            mm = E2.fresh("m", I)
            E2.prove(name + ": first", z3.Implies(lo <= hi, f(lo)))
            E2.prove(name + ": next", z3.Implies(z3.And(lo <= mm, mm < hi, f(mm), *steps(mm)), f(mm + 1)))

        d = E2.fresh("other", PATH.sort)
        cls = lambda c: z3.And(SIMPLE(c), z3.Not(G["ina"](c)), z3.Not(G["C"](c)), LCP(c, prev) == i + 1)
        same("price of the common part", lambda n: PC(c, n) == PC(prev, n), z3.IntVal(0), i, lambda n: [w.step(c, n), w.step(prev, n)])
        E2.assume(PC(c, i) == PC(prev, i))
        same("price of the rest", lambda n: PC(c, i + n) == PC(prev, i) + PC(Q, n), z3.IntVal(0), LEN(Q) - 1, lambda n: [w.step(Q, n), PC(c, i + (n + 1)) == PC(c, i + n) + W(AT(c, i + n), AT(c, i + (n + 1))), AT(c, i + (n + 1)) == AT(Q, n + 1), AT(c, i + n) == AT(Q, n)])
        E2.assume(PC(c, LEN(c) - 1) == PC(prev, i) + PRICE(Q))
        same("price of a path of the class up to here", lambda n: z3.Implies(cls(d), PC(d, n) == PC(prev, n)), z3.IntVal(0), i, lambda n: [w.step(d, n), w.step(prev, n)])
        same("price of its rest", lambda n: z3.Implies(cls(d), PC(TAIL(d, i), n) == PC(d, i + n) - PC(d, i)), z3.IntVal(0), LEN(d) - 1 - i, lambda n: [w.step(TAIL(d, i), n), PC(d, i + (n + 1)) == PC(d, i + n) + W(AT(d, i + n), AT(d, i + (n + 1))), z3.Implies(cls(d), z3.And(AT(TAIL(d, i), n) == AT(d, i + n), AT(TAIL(d, i), n + 1) == AT(d, i + (n + 1))))])
        E2.assume(z3.ForAll([p], z3.Implies(cls(p), z3.And(PRICE(TAIL(p, i)) == PRICE(p) - PC(p, i), PC(p, i) == PC(prev, i))), patterns=[SIMPLE(p)]))
        E2.prove("so it is the cheapest of the class", z3.Implies(cls(d), PRICE(c) <= PRICE(d)))
        E2.assume(z3.ForAll([p], z3.Implies(cls(p), PRICE(c) <= PRICE(p)), patterns=[SIMPLE(p)]))
        # the candidate is a simple path
        o, u = E2.fresh("o", I), E2.fresh("u", I)
        E2.assume(z3.And(edge_of(prev, u), G["there"](Q, u - i), G["there"](Q, o - i - 1), G["there"](Q, z3.IntVal(0))))
        E2.prove("a candidate goes from source to target", z3.And(AT(c, 0) == s, AT(c, LEN(c) - 1) == t, LEN(c) >= 2))
        E2.prove("a candidate follows edges before", z3.Implies(z3.And(0 <= u, u < i), w.HASE(AT(c, u), AT(c, u + 1))))
        E2.prove("a candidate follows edges after", z3.Implies(z3.And(i <= u, u < LEN(c) - 1, AT(c, i + (u - i)) == AT(Q, u - i), AT(c, i + (u - i + 1)) == AT(Q, u - i + 1)), w.HASE(AT(c, u), AT(c, u + 1))))
        # nodes after the spur node are not on the way to it: edges to those were gone
        E2.assume(z3.And(z3.Implies(z3.And(i <= o, o < LEN(c)), AT(c, o) == AT(Q, o - i)), z3.Implies(z3.And(0 <= u, u <= i), AT(c, u) == AT(prev, u))))
        E2.prove("a candidate does not return", z3.Implies(z3.And(0 <= u, u < i, i < o, o < LEN(c)), AT(prev, u) != AT(Q, o - i)))
        E2.prove("a candidate leaves its beginning", z3.Implies(z3.And(0 <= u, u < i, i <= o, o < LEN(c)), AT(c, u) != AT(c, o)))
        E2.prove("nor within its parts", z3.And(z3.Implies(z3.And(0 <= u, u < o, o < i), AT(c, u) != AT(c, o)), z3.Implies(z3.And(i <= u, u < o, o < LEN(c), AT(c, i + (u - i)) == AT(Q, u - i), AT(c, i + (o - i)) == AT(Q, o - i)), AT(c, u) != AT(c, o))))
        E2.assume(SIMPLE(c))
        r = E2.fresh("known", PATH.sort)
        E2.prove("a candidate is a new path", z3.Implies(z3.And(G["ina"](r), AT(Q, 0) == AT(Q, 0), AT(c, i + 1) == AT(Q, 1), SIMPLE(r)), c != r))
        E2.assume(z3.Not(G["ina"](c)))
        lc = E2.fresh("other", PATH.sort)
        E2.prove("it shares the class's beginning", z3.Implies(cls(lc), LCP(lc, c) >= i + 1))
        E2.assume(z3.ForAll([p], z3.Implies(cls(p), LCP(p, c) >= i + 1), patterns=[SIMPLE(p)]))

    def get(E2, a, kw):
        b = a[0]
        if kw.get("block", a[1] if len(a) > 1 else True) is not False and not b.state.get("some"):
            raise Undecided("blocking get")
        has = b.state["has"]
        if not b.state.get("some") and E2.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))]):
            E2.assume(z3.ForAll([p], z3.Not(has(p)), patterns=[SIMPLE(p)]))
            raise VRaise(Empty())
        c, H = E2.fresh("popped", PATH.sort), z3.Function(fresh_name("queued"), PATH.sort, z3.BoolSort())
        E2.assume(z3.And(has(c), z3.ForAll([p], z3.Implies(has(p), PRICE(c) <= PRICE(p)), patterns=[has(p)] if z3.is_app(has(p)) and has(p).decl().kind() == z3.Z3_OP_UNINTERPRETED else [SIMPLE(p)])))
        E2.define(z3.ForAll([p], z3.And(z3.Implies(p != c, H(p) == has(p)), z3.Implies(H(p), has(p))), patterns=[H(p)]))
        E2.assume(z3.ForAll([p], z3.Implies(p != c, H(p) == has(p)), patterns=[SIMPLE(p)]))
        upd(E2, b, has=lambda z: H(z), some=False)
        return E2.tup(SNum(PRICE(c), True), SObj(PATH, c))

    def empty(E2, a, kw):
        has = a[0].state["has"]
        if E2.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))]):
            E2.assume(z3.ForAll([p], z3.Not(has(p)), patterns=[SIMPLE(p)]))
            return True
        upd(E2, a[0], some=True)
        return False

    E.contracts.update({PriorityQueue.empty: empty, PriorityQueue.put: put, PriorityQueue.get: get, PriorityQueue: lambda E2, a, kw: mk(E2, PriorityQueue, has=lambda z: z3.BoolVal(False))})

    # ---- invariants
    def parts(E2, lst):
        """the paths listed: (how many, k -> path) of the unknown part, and those known one by one"""
        n, A, extra = z3.IntVal(0), None, []
        for sg in lst.segs:
            if isinstance(sg, Conc):
                extra += [w.as_path(z) for z in sg.items]
            elif A is None and not extra and sg.simple():
                (v, n), = sg.dims
                el = sg.elem
                A = lambda z, v=v, el=el: z3.substitute(el.t, (v, z))
            else:
                raise Undecided("form of the list of paths")
        return n, A, extra

    def returned(f):
        names = {r.value.id for r in ast.walk(f) if isinstance(r, ast.Return) and isinstance(r.value, ast.Name)}
        if len(names) != 1:
            raise Undecided("the variable returned")
        return names.pop()

    def find(fr, name):
        f = E.find_frame(fr, name)
        if f is None:
            raise Undecided(f"no variable {name}")
        return f, name

    def only(fr, cls):
        f, vals = fr, []
        while f is not None:
            vals += [z for z in f.vars.values() if isinstance(z, St) and z.cls is cls and z is not orig and not any(z is o for o in vals)]
            f = f.parent
        if len(vals) != 1:
            raise Undecided(f"the {cls.__name__} of the search")
        return vals[0]

    def known(fr):
        f, name = find(fr, returned_name())
        v = E.resolve(f.vars[name])
        if not isinstance(v, VList):
            raise Undecided("list of paths")
        return v

    def queue(fr):
        return only(fr, PriorityQueue)

    def fresh_ghosts():
        C, WIT = z3.Function(fresh_name("covered"), PATH.sort, z3.BoolSort()), PATH.fn(fresh_name("witness"), PATH.sort)
        G["C"], G["WIT"] = (lambda z: C(z)), (lambda z: WIT(z))

    def fresh_queue(b):
        H = z3.Function(fresh_name("queued"), PATH.sort, z3.BoolSort())
        upd(E, b, has=lambda z: H(z), some=False)

    def each(n, A, extra, f):
        return z3.And(*([z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), f(A(x))), patterns=[A(x)])] if A else []), *[f(c) for c in extra])

    def member(n, A, extra):
        if A is None:
            return lambda z: z3.Or(*[z == c for c in extra])
        base = G["base"]
        return lambda z: z3.Or(base(z), *[z == c for c in extra])

    def covers(has, ina, n, A, extra, C, WIT, prev, i, unless=None):
        todo = lambda z: z3.And(SIMPLE(z), z3.Not(ina(z)), *([z3.Not(unless)] if unless is not None else []))
        al = lambda f: z3.ForAll([p], z3.Implies(todo(p), f(p)), patterns=[SIMPLE(p)])
        far = lambda f: z3.And(*([z3.ForAll([p, x], z3.Implies(z3.And(todo(p), 0 <= x, x < n), f(p, A(x))), patterns=[z3.MultiPattern(SIMPLE(p), A(x))])] if A else []), *[al(lambda z, c=c: f(z, c)) for c in extra])
        out = [("uncovered paths deviate from the last path later", al(lambda z: z3.Implies(z3.Not(C(z)), LCP(z, prev) >= i + 1)) if prev is not None else al(C)),
               ("covered paths have a candidate that costs no more", al(lambda z: z3.Implies(C(z), z3.And(has(WIT(z)), SIMPLE(WIT(z)), z3.Not(ina(WIT(z))), PRICE(WIT(z)) <= PRICE(z))))),
               ("with as long a common beginning as any known path", far(lambda z, c: z3.Implies(C(z), LCP(z, c) <= LCP(z, WIT(z)))))]
        if prev is not None:
            out.append(("uncovered paths have the longest common beginning with the last path", far(lambda z, c: z3.Implies(z3.Not(C(z)), LCP(z, c) <= LCP(z, prev)))))
        return out

    def queued(has, last):
        return ("candidates are simple paths not cheaper than the last path", z3.ForAll([p], z3.Implies(has(p), z3.And(SIMPLE(p), PRICE(p) >= PRICE(last))), patterns=[SIMPLE(p)] if not (z3.is_app(has(p)) and has(p).decl().kind() == z3.Z3_OP_UNINTERPRETED) else [has(p)]))

    def outer_havoc(E2, fr):
        a, b = known(fr), queue(fr)
        N, A = E2.fresh("known", I), PATH.fn(fresh_name("path_no"), I)
        E2.assume(N >= 1)
        havoc_list(E2, a, N, lambda z: SObj(PATH, A(z)))
        BASE, POS = z3.Function(fresh_name("known_path"), PATH.sort, z3.BoolSort()), z3.Function(fresh_name("number_of"), PATH.sort, I)
        E2.axioms += [z3.ForAll([p], z3.Implies(BASE(p), z3.And(0 <= POS(p), POS(p) < N, A(POS(p)) == p)), patterns=[BASE(p)]),
                      z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < N), BASE(A(x))), patterns=[A(x)])]
        G["base"] = lambda z: BASE(z)
        fresh_queue(b)
        fresh_ghosts()
        G["complete"] = E2.fresh("complete", z3.BoolSort())
        G["step"] = True
        objs = [a, b]
        for v in fr.vars.values():  # a list of prices
            if isinstance(v, VList) and v is not a and v.kind == "list" and v.segs and all(isinstance(z, Conc) and all(isinstance(i, SNum) for i in z.items) for z in v.segs):
                V = z3.Function(fresh_name("value"), I, R)
                havoc_list(E2, v, E2.fresh("many", I), lambda z, V=V: SNum(V(z), True))
                objs.append(v)
        g = only(fr, Graph)
        upd(E2, g, ver=E2.fresh("version", I), removed=VList([], "list", E2.tick()))
        return [*objs, g]

    def outer_inv(E2, fr, done):
        a, has = known(fr), queue(fr).state["has"]
        n, A, extra = parts(E2, a)
        N = n + len(extra)
        ina = member(n, A, extra)
        if A is None and len(extra) != 1:
            return [("the first path is listed", z3.BoolVal(False))]
        last = extra[-1] if extra else A(n - 1)
        if A is None:  # before the loop
            complete, C, WIT = z3.BoolVal(False), (lambda z: z3.BoolVal(False)), (lambda z: z)
        elif extra:  # a path was added
            if len(extra) != 1:
                return [("one path per round", z3.BoolVal(False))]
            oldC, oldW = G["C"], G["WIT"]
            complete, C, WIT = z3.BoolVal(False), (lambda z: LCP(z, oldW(z)) > LCP(z, last)), oldW
        else:
            complete, C, WIT = G["complete"], G["C"], G["WIT"]
            if G.get("ended"):
                complete = z3.BoolVal(True)
        G["ina"] = ina
        order = [each(n, A, [], lambda z: PRICE(z) <= PRICE(A(n - 1)))] if A else []
        order += [z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), z3.And(A(x) != A(y), PRICE(A(x)) <= PRICE(A(y)))), patterns=[z3.MultiPattern(A(x), A(y))])] if A else []
        fresh = [each(n, A, [], lambda z, c=c: z != c) for c in extra]
        order += [each(n, A, [], lambda z, c=c: PRICE(z) <= PRICE(c)) for c in extra]
        return [("no more paths than rounds", z3.And(N >= 1, N <= done.count + 1)), ("simple paths", each(n, A, extra, SIMPLE)), ("in order of price, each once", z3.And(*order)), ("the path added is new", z3.And(*fresh)),
                queued(has, last), ("the other paths cost at least as much", z3.ForAll([p], z3.Implies(z3.And(SIMPLE(p), z3.Not(ina(p))), PRICE(p) >= PRICE(last)), patterns=[SIMPLE(p)])),
                ("all paths found when there is no candidate left", z3.Implies(complete, z3.ForAll([p], z3.Implies(SIMPLE(p), ina(p)), patterns=[SIMPLE(p)]))),
                ("one path per round", z3.Or(complete, N == done.count + 1)),
                *covers(has, ina, n, A, extra, C, WIT, last, z3.IntVal(0), complete)]

    def inner_havoc(E2, fr):
        n, A, extra = parts(E2, known(fr))
        b = queue(fr)
        fresh_queue(b)
        fresh_ghosts()
        g = only(fr, Graph)
        upd(E2, g, ver=E2.fresh("version", I), removed=VList([], "list", E2.tick()))
        return [b, g]

    def inner_inv(E2, fr, done):
        n, A, extra = parts(E2, known(fr))
        if extra or A is None:
            raise Undecided("list of paths changed while looking for candidates")
        has, g = queue(fr).state["has"], only(fr, Graph)
        G["prev"], G["i"] = A(n - 1), done.count
        e = z3.Const(fresh_name("e"), EDGE.sort)
        return [queued(has, A(n - 1)), ("the graph is whole", z3.ForAll([e], current(E2, g)(e)) if not z3.is_true(current(E2, g)(e)) else z3.BoolVal(True)),
                *covers(has, G["ina"], n, A, [], G["C"], G["WIT"], A(n - 1), done.count)]

    def while_havoc(E2, fr):
        fresh_queue(queue(fr))
        G["prev"] = G["i"] = None
        fresh_ghosts()

    def while_inv(E2, fr):
        n, A, extra = parts(E2, known(fr))
        if extra or A is None:
            return [("a path is added at the end of a round only", z3.BoolVal(False))]
        has = queue(fr).state["has"]
        G["ended"] = True  # unless a path is added
        return [queued(has, A(n - 1)), *covers(has, G["ina"], n, A, [], G["C"], G["WIT"], None, None)]

    node = lambda: func_ast(network.yens_ksp)
    # the variable returned at the end
    returned_name = lambda: returned(ast.Module([z for z in node().body if not isinstance(z, ast.FunctionDef)], []))
    price_func = lambda n: [f for f in node().body if isinstance(f, ast.FunctionDef) and n in f.body][0]
    outer = lambda: [z for z in node().body if isinstance(z, ast.For)]
    within = lambda kind: [z for o in outer() for z in o.body if isinstance(z, kind)]
    pricing = lambda: [z for f in node().body if isinstance(f, ast.FunctionDef) for z in f.body if isinstance(z, ast.For)]

    def pick_pricing(E2, n, fr):
        if n not in pricing():
            return False
        G["pricing"] = True
        G["vars"] = price_func(n).args.args[0].arg, returned(price_func(n))
        f, name = find(fr, G["vars"][0])
        c = w.as_path(f.vars[name])
        if G["prev"] is not None and G["found"] is not None:
            establish(E2, c)
        E2.set_var_in(f, name, SObj(PATH, c))
        return True

    def price_havoc(E2, fr):
        f, name = find(fr, G["vars"][1])
        v = SNum(E2.fresh("cost", R), True)
        E2.set_var_in(f, name, v)
        return [v]

    def price_inv(E2, fr, done):
        val = lambda name: E.resolve(find(fr, name)[0].vars[name])
        c = val(G["vars"][0]).t
        n = done.count
        E2.assume(z3.Implies(n >= 1, w.step(c, n - 1)))
        E2.assume(z3.And(w.step(c, n), z3.Implies(z3.And(SIMPLE(c), 0 <= n, n < LEN(c) - 1), w.HASE(AT(c, n), AT(c, n + 1)))))
        return [("price of the steps so far", E2.num(val(G["vars"][1])) == PC(c, n))]

    E.loop_hooks = [invariant_rule(node, lambda E2, n, fr: n in outer(), outer_havoc, outer_inv, "rounds"),
                    invariant_rule(node, lambda E2, n, fr: n in within(ast.For), inner_havoc, inner_inv, "spurs"),
                    while_rule(lambda E2, n, fr: n in within(ast.While), while_havoc, while_inv, None, "queue"),
                    invariant_rule(node, pick_pricing, price_havoc, price_inv, "price")]
    out = E.resolve(E.call(network.yens_ksp, [orig, cf, SNum(k), SNum(s), SNum(t)], {}))
    E.cover("reachable")
    n, A, extra = parts(E, out)
    if A is None and not extra:
        E.prove("no path listed only when there is none", z3.ForAll([p], z3.Not(SIMPLE(p))))
        return
    N = n + len(extra)
    E.prove("at most k paths", N <= k)
    E.prove("simple paths", each(n, A, extra, SIMPLE))
    u, v = E.fresh("u", I), E.fresh("v", I)
    at = lambda z: A(z) if A else extra[0]
    E.prove("no path twice, in order of price", z3.Implies(z3.And(0 <= u, u < v, v < n), z3.And(at(u) != at(v), PRICE(at(u)) <= PRICE(at(v)))) if A else len(extra) <= 1)
    c = E.fresh("other", PATH.sort)
    ina = member(n, A, extra)
    E.prove("the others cost at least as much", z3.Implies(z3.And(SIMPLE(c), z3.Not(ina(c)), 0 <= u, u < N), PRICE(c) >= PRICE(at(u))))
    E.prove("all of them if fewer than k", z3.Implies(z3.And(SIMPLE(c), z3.Not(ina(c))), N == k))


@contract("the cheapest edge between two nodes", [T + "_get_cheapest_edge"])
def _(E):
    n = E.int("edges").t
    E.assume(n >= 1)
    X = PAY.fn(fresh_name("edge"), I)
    u, v = E.int("u"), E.int("v")

    def edges(E2, o, a, k):
        a = [E2.num(E2.resolve(z)) for z in [*a, *k.values()]]
        E2.prove("edges between the two nodes", z3.And(a[0] == u.t, a[1] == v.t))
        return E2.seq("edges", n, lambda q: SObj(PAY, X(q)))

    GK = Kind("Graph", None)
    GK.methods["get_all_edge_data"] = edges
    E.contracts[network.get_edge_weight] = lambda E2, a, k: SNum(COSTOF(E2.resolve(a[0]).t), True)
    e = E.resolve(E.call(network._get_cheapest_edge, [E.obj(GK, "g"), u, v, E.obj(Kind("CostFunction", None), "cf")], {}))
    E.cover("reachable")
    i, x = idx(E, n, "i"), z3.Int(fresh_name("x"))
    E.prove("no edge between them is cheaper", COSTOF(e.t) <= COSTOF(X(i)))
    E.prove("it is one of them", z3.Exists([x], z3.And(0 <= x, x < n, X(x) == e.t)))


@contract("the reactions of a path are those of its reaction edges, in order, with their costs", [T + "ReactionNetwork._path_from_graph"])
def _(E):
    from rxn_network.network.entry import NetworkEntryType
    w = World(E)
    p = E.fresh("path", PATH.sort)
    TYPE = z3.Function("type_of_node", I, I)
    types = list(NetworkEntryType)
    code = {t: i for i, t in enumerate(types)}
    j = z3.Int("j!")
    P = code[NetworkEntryType.Products]
    # precondition: a path starts at the precursors
    E.axioms.append(z3.ForAll([j], z3.And(TYPE(j) >= 0, TYPE(j) < len(types)), patterns=[TYPE(j)]))
    E.assume(TYPE(AT(p, 0)) == code[NetworkEntryType.Precursors])
    ND, GK, MADE = Kind("NodeData", None), Kind("Graph", None), Kind("Pathway", None)
    NODE = ND.fn("data_of_node", I)
    NUM = z3.Function("node_of_data", ND.sort, I)
    E.axioms.append(z3.ForAll([j], NUM(NODE(j)) == j, patterns=[NODE(j)]))
    ND.attrs["description"] = lambda E2, o: Choice([(TYPE(NUM(o.t)) == code[t], t) for t in types])
    GK.methods["get_node_data"] = lambda E2, o, a, k: SObj(ND, NODE(E2.num(E2.resolve(a[0]))))
    GK.methods["__getitem__"] = GK.methods["get_node_data"]
    E.contracts[network._get_cheapest_edge] = lambda E2, a, k: SObj(PAY, OBJ(CHEAP(E2.num(E2.resolve(a[1])), E2.num(E2.resolve(a[2])))))
    E.contracts[network.get_edge_weight] = lambda E2, a, k: SNum(COSTOF(E2.resolve(a[0]).t), True)
    made = []

    def make(E2, a, k):
        made.append({**dict(zip(("reactions", "costs"), a)), **k})
        return E2.obj(MADE, "pathway")

    E.contracts[(network.BasicPathway, "__call__")] = make
    out = E.resolve(E.call(network.ReactionNetwork._path_from_graph, [E.obj(GK, "g"), SObj(PATH, p), E.obj(Kind("CostFunction", None), "cf")], {}))
    E.cover("reachable")
    E.prove("one pathway is made", len(made) == 1 and out.kind is MADE)
    for name, want in (("reactions", lambda j: OBJ(CHEAP(AT(p, j - 1), AT(p, j)))), ("costs", lambda j: COSTOF(OBJ(CHEAP(AT(p, j - 1), AT(p, j)))))):
        lst = E.iterate(E.resolve(made[-1][name]))
        segs = [z for z in lst.segs if isinstance(z, Seg) or z.items]
        if len(segs) != 1 or not isinstance(segs[0], Seg) or len(segs[0].dims) != 1 or lst.unordered:
            raise Undecided("form of the pathway")
        (v, hi), sg = segs[0].dims[0], segs[0]
        i = E.fresh("step", I)
        # the list may run over the steps or over the pairs of neighbours (one fewer)
        shift = 1 if E.entails(hi == LEN(p) - 1) else 0
        sub = lambda z: z3.substitute(z, (v, i - shift))
        el = sg.elem.t if isinstance(sg.elem, SObj) else E.num(sg.elem)
        E.prove(f"{name} of the steps to product nodes", z3.Implies(z3.And(0 <= i, i < LEN(p)), z3.And(shift <= i, i - shift < hi, sub(sg.guard)) == (TYPE(AT(p, i)) == P)))
        E.prove(f"{name} are those of the cheapest edge there", z3.Implies(z3.And(shift <= i, i < LEN(p), sub(sg.guard)), sub(el) == want(i)))
        E.prove(f"{name} of the path's steps only", z3.Implies(z3.And(shift <= i, i - shift < hi, sub(sg.guard)), i < LEN(p)))
