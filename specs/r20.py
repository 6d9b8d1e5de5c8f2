"""R20: the network graph."""
from specs.common import *  # noqa: F403
from pyvc.interp import func_ast
from pyvc.loops import havoc_list, invariant_rule, list_view
from rxn_network.network import network
from rxn_network.network.entry import NetworkEntry, NetworkEntryType

T = "rxn_network.network.network:"
TYPES = list(NetworkEntryType)
CODE = {t: i for i, t in enumerate(TYPES)}
SETS = Kind("EntrySet", set)
INSET = z3.Function("in_set", SETS.sort, ENTRY.sort, z3.BoolSort())
SETS.iter = lambda E, s: members(E, s)
NODE = Kind("NetworkEntry", NetworkEntry)
NDESC, NSET = z3.Function("node_type", NODE.sort, I), SETS.fn("node_entries", NODE.sort)
MK = NODE.fn("make_node", I, SETS.sort)
NODE.attrs["description"] = lambda E, n: Choice([(NDESC(n.t) == CODE[t], t) for t in TYPES])
NODE.attrs["entries"] = lambda E, n: members(E, SObj(SETS, NSET(n.t)))
NR = Kind("NetReaction", network.ComputedReaction)
RSET, PSET = SETS.fn("reactant_set", NR.sort), SETS.fn("product_set", NR.sort)
NR.binop["eq_native"] = lambda E, x, y: False
NR.attrs["reactant_entries"] = lambda E, r: SObj(SETS, RSET(r.t))
NR.attrs["product_entries"] = lambda E, r: SObj(SETS, PSET(r.t))


def members(E, s):
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    return VList([Seg([(x, None)], INSET(s.t, x), SObj(ENTRY, x))], "set", E.tick(), True, True)


def node_axioms(E):
    """a node is its type and its set of entries (NetworkEntry.__eq__: contract below); it has one of the types"""
    n, d, s = z3.Const("n!", NODE.sort), z3.Int("d!"), z3.Const("s!", SETS.sort)
    E.axioms += [z3.ForAll([n], z3.And(MK(NDESC(n), NSET(n)) == n, NDESC(n) >= 0, NDESC(n) < len(TYPES)), patterns=[NDESC(n)]),
                 z3.ForAll([d, s], z3.Implies(z3.And(d >= 0, d < len(TYPES)), z3.And(NDESC(MK(d, s)) == d, NSET(MK(d, s)) == s)), patterns=[MK(d, s)])]

    def make(E2, a, k):
        names = dict(zip(("entries", "description"), a), **k)
        es, d = E2.resolve(names["entries"]), E2.resolve(names["description"])
        if not isinstance(es, SObj):
            s2 = E2.fresh("entries", SETS.sort)
            x = z3.Const(fresh_name("x"), ENTRY.sort)
            lst = E2.iterate(es)
            E2.define(z3.ForAll([x], INSET(s2, x) == E2.zb(E2.merge_bool(E2.generic([x], z3.BoolVal(True), lambda: E2.contains(lst, SObj(ENTRY, x))))), patterns=[INSET(s2, x)]))
            es = SObj(SETS, s2)
        return SObj(NODE, MK(z3.IntVal(CODE[d]), es.t))

    E.contracts[(NetworkEntry, "__call__")] = make


R_, P_ = CODE[NetworkEntryType.Reactants], CODE[NetworkEntryType.Products]


@contract("one node per set of reactants and of products, one edge per reaction between its nodes", [T + "get_rxn_nodes_and_edges"], budget=120)
def _(E):
    node_axioms(E)
    n = E.int("reactions").t
    E.assume(n >= 0)
    X = NR.fn(fresh_name("rxn"), I)
    rxns = E.seq("rxns", n, lambda q: SObj(NR, X(q)))
    rnode, pnode = lambda r: MK(z3.IntVal(R_), RSET(r)), lambda r: MK(z3.IntVal(P_), PSET(r))

    def clauses(E, nodes, edges, done):
        cnt = done.count
        N, at = list_view(E, nodes, lambda x: x.t)
        M, src = list_view(E, edges, lambda x: E.num(E.resolve(x.items()[0])))
        dst, obj = list_view(E, edges, lambda x: E.num(E.resolve(x.items()[1])))[1], list_view(E, edges, lambda x: E.resolve(x.items()[2]).t)[1]
        if at is None or src is None:
            t = z3.BoolVal(True) if at is None and src is None else z3.BoolVal(False)
            return [("nothing yet", z3.And(M == 0, N == 0, cnt == 0, t))]
        i, k, l = z3.Int(fresh_name("i")), z3.Int(fresh_name("k")), z3.Int(fresh_name("l"))
        inr = lambda v, hi: z3.And(v >= 0, v < hi)
        all_i = lambda f: z3.ForAll([i], z3.Implies(inr(i, cnt), f))
        return [("one edge per reaction", M == cnt), ("edges carry their reactions", all_i(z3.And(obj(i) == X(i), inr(src(i), N), inr(dst(i), N)))),
                ("edges leave their reactants' node", all_i(at(src(i)) == rnode(X(i)))), ("edges reach their products' node", all_i(at(dst(i)) == pnode(X(i)))),
                ("no node twice", z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < N), at(k) != at(l)))),
                ("nodes only of reactions", z3.ForAll([k], z3.Implies(inr(k, N), z3.Exists([i], z3.And(inr(i, cnt), z3.Or(at(k) == rnode(X(i)), at(k) == pnode(X(i))))))))]

    def objs(E, fr):
        nd, ed = [E.find_frame(fr, x) for x in ("nodes", "edges")]
        if not nd or not ed:
            raise Undecided("no lists of nodes and edges")
        return nd.vars["nodes"], ed.vars["edges"]

    def inv(E, fr, done):
        if done.count is None:
            raise Undecided("reactions out of order")
        return clauses(E, *objs(E, fr), done)

    def havoc(E, fr):
        nd, ed = objs(E, fr)
        N, M = E.fresh("N", I), E.fresh("M", I)
        E.assume(z3.And(N >= 0, M >= 0))
        A, S, D, O = NODE.fn(fresh_name("nodeat"), I), z3.Function(fresh_name("src"), I, I), z3.Function(fresh_name("dst"), I, I), NR.fn(fresh_name("edgeof"), I)
        havoc_list(E, nd, N, lambda k: SObj(NODE, A(k)))
        havoc_list(E, ed, M, lambda k: E.tup(SNum(S(k)), SNum(D(k)), SObj(NR, O(k))))
        return [nd, ed]

    node = lambda: func_ast(network.get_rxn_nodes_and_edges)
    E.loop_hooks = [invariant_rule(node, lambda E, n, fr: n in node().body, havoc, inv, "reactions")]
    out = E.call(network.get_rxn_nodes_and_edges, [rxns], {})
    E.cover("reachable")
    nd, ed = [E.resolve(x) for x in E.resolve(out).items()]
    from types import SimpleNamespace as NS

    for nm, f in clauses(E, nd, ed, NS(count=n)):
        E.prove(nm, f)


@contract("loopback edges join exactly the product nodes to the reactant nodes with the same phases", [T + "get_loopback_edges"], budget=60)
def _(E):
    node_axioms(E)
    n = E.int("nodes").t
    E.assume(n >= 0)
    X = NODE.fn(fresh_name("node"), I)
    nodes = E.seq("nodes", n, lambda q: SObj(NODE, X(q)))
    out = E.call(network.get_loopback_edges, [nodes], {})
    E.cover("reachable")
    x = z3.Const("x!", ENTRY.sort)
    ok = lambda a, b: z3.And(0 <= a, a < n, 0 <= b, b < n, NDESC(X(a)) == P_, NDESC(X(b)) == R_, z3.ForAll([x], INSET(NSET(X(a)), x) == INSET(NSET(X(b)), x)))
    a, b = E.fresh("a", I), E.fresh("b", I)
    E.prove("exactly those", E.zb(E.contains(out, E.tup(SNum(a), SNum(b), "loopback_edge"))) == ok(a, b))
    E.prove("nothing else", z3.BoolVal(all(isinstance(s, Seg) and E.resolve(E.resolve(s.elem).items()[2]) == "loopback_edge" or isinstance(s, Conc) and not s.items for s in out.segs)))


LABELS = [None, "loopback_edge", "precursor_edge", "target_edge"]
GRAPH = Kind("Graph", network.Graph)
PREC_, TARG_ = CODE[NetworkEntryType.Precursors], CODE[NetworkEntryType.Target]


class G:
    """model of the rustworkx graph: numbered nodes with data, numbered edges (source, target, object)"""

    def __init__(self, E):
        self.E = E
        self.live, self.data = z3.Function(fresh_name("live"), I, z3.BoolSort()), NODE.fn(fresh_name("data"), I)
        self.edge, self.src, self.dst, self.label = (z3.Function(fresh_name(n), I, s) for n, s in (("edge", z3.BoolSort()), ("src", I), ("dst", I), ("label", I)))
        self.obj = NR.fn(fresh_name("edge_rxn"), I)
        self.nodes = lambda v: self.live(v)
        self.new = []  # (index, data) of added nodes
        self.old_edges = lambda e: self.edge(e)
        self.added = []  # lists of edges
        self.term = SObj(GRAPH, E.fresh("graph", GRAPH.sort))

    def set(self, **kw):
        if self.E.loopvars:
            raise Undecided("the graph is changed in a loop")
        old = {k: getattr(self, k) for k in kw}
        self.E.record(lambda: self.__dict__.update(old))
        self.__dict__.update(kw)

    def node(self, v):
        return z3.Or(self.nodes(v), *[v == k for k, _ in self.new])

    def node_data(self, v):
        r = self.data(v)
        for k, d in self.new:
            r = z3.If(v == k, d, r)
        return r

    def has(self, a, b, lab):
        """an edge a -> b labelled lab (0: any reaction edge)"""
        e = z3.Int(fresh_name("e"))
        out = [z3.Exists([e], z3.And(self.old_edges(e), self.src(e) == a, self.dst(e) == b, self.label(e) == lab))]
        for keep, l in self.added:
            out.append(z3.And(keep(a, b), self.E.zb(self.E.contains(l, self.E.tup(SNum(a), SNum(b), LABELS[lab])))) if lab else z3.BoolVal(False))
        return z3.Or(*out)


def graph_methods(g):
    def indices(E, o, a, k):
        v = z3.Int(fresh_name("v"))
        segs = [Seg([(v, None)], g.nodes(v), SNum(v))] + ([Conc([SNum(k) for k, _ in g.new])] if g.new else [])
        return VList(segs, "list", E.tick(), True, True)

    def find(E, o, a, k):
        return SObj(NODE, g.node_data(E.num(a[0])))

    def add_node(E, o, a, k):
        v = E.fresh("new_node", I)
        E.assume(z3.Not(g.node(v)))
        E.assume(v >= 0)
        g.set(new=g.new + [(v, E.resolve(a[0]).t)])
        return SNum(v)

    def remove_node(E, o, a, k):
        w = E.num(a[0])
        if g.new:
            raise Undecided("removal after additions")
        n0, e0 = g.nodes, g.old_edges
        ad = [((lambda x, y, f=f: z3.And(f(x, y), x != w, y != w)), l) for f, l in g.added]
        g.set(nodes=lambda v: z3.And(n0(v), v != w), old_edges=lambda e: z3.And(e0(e), g.src(e) != w, g.dst(e) != w), added=ad)

    def edge_map(E, o, a, k):
        if g.added:
            raise Undecided("edge indices of added edges")
        e = z3.Int(fresh_name("e"))
        lab = g.label(e)
        obj = Choice([(lab == 0, SObj(NR, g.obj(e)))] + [(lab == i, LABELS[i]) for i in (1, 2, 3)])
        d = VDict([Seg([(e, None)], g.old_edges(e), E.tup(SNum(e), E.tup(SNum(g.src(e)), SNum(g.dst(e)), obj)))], E.tick())
        d.meta["distinct"] = True
        return d

    def remove_edge(E, o, a, k):
        w, e0 = E.num(a[0]), g.old_edges
        g.set(old_edges=lambda e: z3.And(e0(e), e != w))

    def add_edges(E, o, a, k):
        l = E.iterate(a[0])
        if not all(isinstance(x, Conc) and not x.items or isinstance(x, Seg) and isinstance(E.resolve(E.resolve(x.elem).items()[2]), str) for x in l.segs):
            raise Undecided("edges without a label")
        g.set(added=g.added + [((lambda x, y: z3.BoolVal(True)), freeze(l))])

    GRAPH.methods.update(node_indices=indices, get_node_data=find, add_node=add_node, remove_node=remove_node, edge_index_map=edge_map,
                         remove_edge_from_index=remove_edge, add_edges_from=add_edges)
    v = z3.Int("v!")
    GRAPH.truth = lambda E, o: SBool(z3.Exists([v], g.node(v)))


ISIN = z3.Function("entry_of_network", ENTRY.sort, z3.BoolSort())
MINOF = ENTRY.fn("minimum_entry", FORMULA.sort)
NETSET = Kind("NetworkEntries", None)
NETSET.contains = lambda E, s, x: SBool(ISIN(E.resolve(x).t))
NETSET.methods["get_min_entry_by_formula"] = lambda E, s, a, k: SObj(ENTRY, MINOF((list(a) + list(k.values()))[0].t))


def consistent(E, g, prec, targ):
    """class invariant: the graph holds what its reactions, the precursors (predicate or None) and the target (term or None) call for:
    [(name, formula)] besides nodes and reaction edges, which never change"""
    a, b, v = z3.Int(fresh_name("a")), z3.Int(fresh_name("b")), z3.Int(fresh_name("v"))
    x = z3.Const("x!", ENTRY.sort)
    ent = lambda v, x: INSET(NSET(g.node_data(v)), x)
    ty = lambda v: NDESC(g.node_data(v))
    allx = lambda f: z3.ForAll([x], f)
    sub = lambda v: allx(z3.Implies(ent(v, x), prec(x)))
    same_phases = allx(ent(a, x) == ent(b, x))
    loop = same_phases if prec is None else z3.Or(same_phases, z3.And(z3.Not(sub(b)), allx(z3.Implies(ent(b, x), z3.Or(prec(x), ent(a, x))))))
    both = z3.And(g.node(a), g.node(b))
    out = [("loopback edges join product nodes to the reactant nodes made of them and the precursors", [a, b], g.has(a, b, 1) == z3.And(both, ty(a) == P_, ty(b) == R_, loop)),
           ("precursor edges lead from the precursors to the reactant nodes within them", [a, b], g.has(a, b, 2) == (z3.BoolVal(False) if prec is None else z3.And(both, ty(a) == PREC_, ty(b) == R_, sub(b)))),
           ("target edges lead from the product nodes containing the target to it", [a, b], g.has(a, b, 3) == (z3.BoolVal(False) if targ is None else z3.And(both, ty(b) == TARG_, ty(a) == P_, ent(a, targ)))),
           ("edges join nodes", [a, b], z3.Implies(z3.Or(*[g.has(a, b, l) for l in range(4)]), both)),
           ("one precursor node at most", [a, b], z3.Implies(z3.And(both, ty(a) == PREC_, ty(b) == PREC_), a == b)),
           ("one target node at most", [a, b], z3.Implies(z3.And(both, ty(a) == TARG_, ty(b) == TARG_), a == b)),
           ("reaction edges join reactant to product nodes", [a, b], z3.Implies(g.has(a, b, 0), z3.And(both, ty(a) == R_, ty(b) == P_))),
           ("the precursor node holds the precursors", [v], z3.Implies(z3.And(g.node(v), ty(v) == PREC_), z3.BoolVal(False) if prec is None else allx(ent(v, x) == prec(x)))),
           ("the target node holds the target", [v], z3.Implies(z3.And(g.node(v), ty(v) == TARG_), z3.BoolVal(False) if targ is None else allx(ent(v, x) == (x == targ))))]
    if prec is not None:
        out.append(("a precursor node", [], z3.Exists([v], z3.And(g.node(v), ty(v) == PREC_))))
    if targ is not None:
        out.append(("a target node", [], z3.Exists([v], z3.And(g.node(v), ty(v) == TARG_))))
    return out


def net(E):
    node_axioms(E)
    g = G(E)
    graph_methods(g)
    e, v = z3.Int("e!"), z3.Int("v!")
    E.axioms += [z3.ForAll([e], z3.And(g.label(e) >= 0, g.label(e) <= 3), patterns=[g.label(e)])]
    E.assume(z3.Exists([v], z3.And(g.node(v), z3.Or(NDESC(g.data(v)) == R_, NDESC(g.data(v)) == P_))))
    P0 = z3.Function(fresh_name("precursors0"), ENTRY.sort, z3.BoolSort())
    t0 = E.obj(ENTRY, "target0")
    hasp, hast = E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))]), E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
    x = z3.Const(fresh_name("x"), ENTRY.sort)
    prec0, targ0 = (lambda y: P0(y)) if hasp else None, t0.t if hast else None
    for _, vs, f in consistent(E, g, prec0, targ0):
        E.assume(z3.ForAll(vs, f) if vs else f)
    self = VObj(network.ReactionNetwork, {"_g": g.term, "_precursors": VList([Seg([(x, None)], P0(x), SObj(ENTRY, x))], "set", E.tick(), True, True) if hasp else None,
                                          "_target": t0 if hast else None, "entries": E.obj(NETSET, "entries"), "rxns": Poison("rxns"), "cost_function": Poison("cf")}, E.tick())
    return g, self, prec0, targ0


def snapshot(g):
    import copy
    return copy.copy(g)


def prove_consistent(E, g, prec, targ):
    for nm, vs, f in consistent(E, g, prec, targ):
        new = [z3.Int(fresh_name("q")) for _ in vs]
        E.prove(nm, z3.substitute(f, *zip(vs, new)) if vs else f)


def unchanged_rest(E, g, old, gone):
    """nodes and reaction edges are kept; only nodes of the type `gone` are replaced"""
    v, e = z3.Int(fresh_name("v")), z3.Int(fresh_name("e"))
    new = lambda v: z3.Or(*[v == k for k, _ in g.new], z3.BoolVal(False))
    E.prove("all other nodes are kept", z3.Implies(z3.And(old.node(v), NDESC(old.node_data(v)) != gone), z3.And(g.node(v), g.node_data(v) == old.node_data(v))))
    E.prove("no other nodes are added", z3.Implies(z3.And(g.node(v), NDESC(g.node_data(v)) != gone), old.node(v)))
    E.prove("all reactions are kept", z3.Implies(g.label(e) == 0, g.old_edges(e) == old.old_edges(e)))


def given(E, formulas):
    """the argument: any number of entries, or of formulas of entries; returns (argument, predicate)"""
    n = E.int("given").t
    E.assume(n >= 1)
    X = (FORMULA if formulas else ENTRY).fn(fresh_name("given"), I)
    i = z3.Int("i!")
    at = (lambda q: MINOF(X(q))) if formulas else (lambda q: X(q))
    return E.seq("given", n, lambda q: SObj(FORMULA if formulas else ENTRY, X(q))), lambda x: z3.Exists([i], z3.And(0 <= i, i < n, at(i) == x)), lambda f: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f(at(i))))


def calls_in(node, name):
    return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == name for c in ast.walk(node))


def search_rule(g, fn, kind):
    """the loop looking for the old node: no node handled so far is of that type"""
    node = lambda: func_ast(fn)
    pick = lambda E, n, fr: calls_in(n, "remove_node") and not calls_in(n, "add_node")
    inv = lambda E, fr, done: [("not found so far", done.all(lambda v: NDESC(g.node_data(E.num(v))) != kind))]
    return invariant_rule(node, pick, lambda E, fr: [], inv, "search")


def drop_rule(g, fn):
    """the loop dropping loopback edges: the edges that are left are those not handled or with another label"""
    node = lambda: func_ast(fn)
    base = {}

    def pick(E, n, fr):
        if calls_in(n, "remove_edge_from_index"):
            base["e"] = g.old_edges
            return True
        return False

    def havoc(E, fr):
        f = z3.Function(fresh_name("edges_left"), I, z3.BoolSort())
        g.set(old_edges=lambda e: f(e))
        return []

    def inv(E, fr, done):
        e = z3.Int(fresh_name("e"))
        handled = lambda t: done.pred([t])
        return [("edges left", z3.ForAll([e], g.old_edges(e) == z3.And(base["e"](e), z3.Not(z3.And(handled(e), g.label(e) == 1)))))]

    return invariant_rule(node, pick, havoc, inv, "old loopback edges")


def precursors(formulas):
    @contract(f"setting precursors ({'formulas' if formulas else 'entries'}) makes the graph the one of the new precursors", [T + "ReactionNetwork.set_precursors"], budget=200)
    def _(E):
        g, self, prec0, targ0 = net(E)
        old = snapshot(g)
        fn = network.ReactionNetwork.set_precursors
        E.loop_hooks = [search_rule(g, fn, PREC_), drop_rule(g, fn)]
        arg, prec, every = given(E, formulas)
        k, _v = outcome(E, lambda: E.call_method(self, "set_precursors", [arg], {}), ValueError)
        E.cover("reachable")
        if k == "raise":
            E.prove("refused only if not in the network", z3.Not(every(ISIN)))
            return
        x = z3.Const("x!", ENTRY.sort)
        cur = self.attrs["_precursors"]
        E.prove("the precursors are set", z3.BoolVal(False) if cur is None else z3.ForAll([x], E.zb(E.merge_bool(E.generic([x], z3.BoolVal(True), lambda: E.contains(cur, SObj(ENTRY, x))))) == prec(x)))
        prove_consistent(E, g, prec, targ0)
        unchanged_rest(E, g, old, PREC_)


precursors(False)
precursors(True)


def target(formula):
    @contract(f"setting a target ({'formula' if formula else 'entry'}) makes the graph the one of the new target", [T + "ReactionNetwork.set_target"], budget=200)
    def _(E):
        g, self, prec0, targ0 = net(E)
        old = snapshot(g)
        fn = network.ReactionNetwork.set_target
        E.loop_hooks = [search_rule(g, fn, TARG_)]
        arg = E.obj(FORMULA if formula else ENTRY, "target")
        t = MINOF(arg.t) if formula else arg.t
        k, _v = outcome(E, lambda: E.call_method(self, "set_target", [arg], {}), ValueError)
        E.cover("reachable")
        if k == "raise":
            E.prove("refused only if not in the network", z3.Not(ISIN(t)))
            return
        cur = self.attrs["_target"]
        E.prove("the target is set", z3.BoolVal(False) if cur is None else cur.t == t)
        prove_consistent(E, g, prec0, t)
        unchanged_rest(E, g, old, TARG_)


target(False)
target(True)


@contract("nodes are equal exactly when they have the same type and the same phases", ["rxn_network.network.entry:NetworkEntry.__eq__"])
def _(E):
    CS = Kind("SystemString", str)
    of = CS.fn("system_string", SETS.sort)
    s, t = z3.Const("s!", SETS.sort), z3.Const("t!", SETS.sort)
    x = z3.Const("x!", ENTRY.sort)
    # the system string is a function of the phases (constructor); sets are equal when they have the same members
    E.axioms.append(z3.ForAll([s, t], z3.Implies(z3.ForAll([x], INSET(s, x) == INSET(t, x)), s == t)))
    objs = []
    for nm in "ab":
        d = E.choose([(t, z3.BoolVal(True)) for t in (NetworkEntryType.Reactants, NetworkEntryType.Products)])
        st = E.obj(SETS, nm)
        objs.append((d, st, VObj(NetworkEntry, {"_entries": members(E, st), "_elements": Poison("elements"), "_chemsys": SObj(CS, of(st.t)), "_dim": Poison("dim"), "_description": d}, E.tick())))
    (d1, s1, a), (d2, s2, b) = objs
    v = E.zb(E.eq(a, b))
    E.cover("reachable")
    E.prove("equal exactly when type and phases agree", v == (z3.ForAll([x], INSET(s1.t, x) == INSET(s2.t, x)) if d1 is d2 else z3.BoolVal(False)))


@contract("build starts from the nodes and edges of the reactions, without precursors or target", [T + "ReactionNetwork.build"])
def _(E):
    node_axioms(E)
    n, m = E.int("nodes").t, E.int("edges").t
    E.assume(z3.And(n >= 0, m >= 0))
    X, S, D, O = NODE.fn(fresh_name("node"), I), z3.Function(fresh_name("src"), I, I), z3.Function(fresh_name("dst"), I, I), NR.fn(fresh_name("rxn"), I)
    i = z3.Int("i!")
    rxns = E.obj(Kind("ReactionSet", None), "rxns")
    nodes = E.seq("nodes", n, lambda q: SObj(NODE, X(q)))
    edges = E.seq("edges", m, lambda q: E.tup(SNum(S(q)), SNum(D(q)), SObj(NR, O(q))))

    def first(E2, a, k):
        E2.prove("the network's reactions", (list(a) + list(k.values()))[0].t == rxns.t)
        return E2.tup(nodes, edges)

    LOOP = z3.Function(fresh_name("same_phases"), I, I, z3.BoolSort())

    def second(E2, a, k):
        E2.prove("links between the nodes", E2.zb(E2.eq((list(a) + list(k.values()))[0], nodes)))
        p, q = z3.Int(fresh_name("p")), z3.Int(fresh_name("q"))
        return VList([Seg([(p, n), (q, n)], LOOP(p, q), E2.tup(SNum(p), SNum(q), "loopback_edge"))], "list", E2.tick())

    E.contracts[network.get_rxn_nodes_and_edges] = first
    E.contracts[network.get_loopback_edges] = second
    got = {"nodes": [], "edges": []}
    g = SObj(GRAPH, E.fresh("graph", GRAPH.sort))
    E.contracts[(network.Graph, "__call__")] = lambda E2, a, k: g

    def add(what):
        def f(E2, o, a, k):
            got[what].append(freeze(E2.iterate(a[0])))
        return f

    GRAPH.methods.update(add_nodes_from=add("nodes"), add_edges_from=add("edges"), num_nodes=lambda E2, o, a, k: SNum(n), num_edges=lambda E2, o, a, k: E2.int("num_edges"))
    self = VObj(network.ReactionNetwork, {"rxns": rxns, "_g": None, "_precursors": Poison("old"), "_target": Poison("old"), "entries": Poison("entries"), "cost_function": Poison("cf")}, E.tick())
    E.call_method(self, "build", [], {})
    E.cover("reachable")
    E.prove("no precursors, no target", z3.BoolVal(self.attrs["_precursors"] is None and self.attrs["_target"] is None))
    E.prove("the new graph is the network's", z3.BoolVal(isinstance(self.attrs["_g"], SObj)) if not isinstance(self.attrs["_g"], SObj) else self.attrs["_g"].t == g.t)
    E.prove("the nodes, in order", z3.BoolVal(len(got["nodes"]) == 1) if len(got["nodes"]) != 1 else E.zb(E.eq(got["nodes"][0], nodes)))
    a, b, q = E.fresh("a", I), E.fresh("b", I), idx(E, m)
    has = lambda t: z3.Or(*[E.zb(E.contains(l, t)) for l in got["edges"]], z3.BoolVal(False))
    E.prove("every reaction's edge", has(E.tup(SNum(S(q)), SNum(D(q)), SObj(NR, O(q)))))
    E.prove("exactly the loopback edges", has(E.tup(SNum(a), SNum(b), "loopback_edge")) == z3.And(0 <= a, a < n, 0 <= b, b < n, LOOP(a, b)))
    r = E.obj(NR, "r")
    E.prove("no other reaction edges", z3.Implies(has(E.tup(SNum(a), SNum(b), r)), z3.Exists([i], z3.And(0 <= i, i < m, a == S(i), b == D(i), r.t == O(i)))))
    E.prove("no other labels", z3.Not(z3.Or(*[has(E.tup(SNum(a), SNum(b), l)) for l in LABELS[2:]])))


@contract("a reaction edge costs what the cost function says, links cost nothing", [T + "get_edge_weight"])
def _(E):
    CF = Kind("CostFunction", None)
    COST = z3.Function("cost_of", NR.sort, R)
    CF.methods["evaluate"] = lambda E2, c, a, k: SNum(COST((list(a) + list(k.values()))[0].t), True)
    r = E.obj(NR, "rxn")
    o = E.choose([(x, z3.BoolVal(True)) for x in [r, *LABELS[1:]]])
    v = E.num(E.call(network.get_edge_weight, [o, E.obj(CF, "cf")], {}))
    E.cover("reachable")
    E.prove("cost of the edge", v == (COST(r.t) if o is r else 0))
