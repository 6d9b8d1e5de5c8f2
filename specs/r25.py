"""R25: dictionary forms.  What monty does to a value is one encoding which its decoder undoes (values encoded by as_dict; plain data is
left alone)."""
from specs.common import *  # noqa: F403

from monty.json import MontyDecoder, MSONable
from pyvc.loops import list_view, set_view
from pyvc.models import REGISTRY
from rxn_network.network import base
from specs.r22 import St, mk, upd

OBJK, ENCK, NODEK = Kind("Serializable", None), Kind("DictForm", None), Kind("GraphNode", None)
ENC = ENCK.fn("dict_form", OBJK.sort)
DEC = OBJK.fn("object_of", ENCK.sort)
NENC = ENCK.fn("dict_form_of_node", NODEK.sort)
NDEC = NODEK.fn("node_of_form", ENCK.sort)
ISNODE = z3.Function("form_of_node", ENCK.sort, z3.BoolSort())


class Decoder:
    def process_decoded(self, x): ...


def serial(E):
    o, n = z3.Const("o!", OBJK.sort), z3.Const("n!", NODEK.sort)
    E.axioms += [z3.ForAll([o], z3.And(DEC(ENC(o)) == o, z3.Not(ISNODE(ENC(o)))), patterns=[ENC(o)]), z3.ForAll([n], z3.And(NDEC(NENC(n)) == n, ISNODE(NENC(n))), patterns=[NENC(n)])]
    OBJK.methods["as_dict"] = lambda E2, x, a, k: SObj(ENCK, ENC(x.t))
    NODEK.methods["as_dict"] = lambda E2, x, a, k: SObj(ENCK, NENC(x.t))

    def decode(E2, a, k):
        v = E2.resolve(a[-1])

        def one(x):
            x = E2.resolve(x)
            if isinstance(x, SObj) and x.kind is ENCK:
                if x.t.decl().name() == "dict_form_of_node":
                    return SObj(NODEK, x.t.arg(0))
                return SObj(OBJK, x.t.arg(0) if x.t.num_args() == 1 and x.t.decl().name() == "dict_form" else DEC(x.t))
            if isinstance(x, VList):
                out = VList([Conc([one(i) for i in s.items]) if isinstance(s, Conc) else Seg(s.dims, s.guard, one(s.elem)) for s in x.segs], "list", E2.tick(), x.unordered, x.distinct)
                return out
            if isinstance(x, Choice):
                return Choice([(g, one(y)) for g, y in x.alts])
            if isinstance(x, VDict):
                raise Undecided("dictionary decoded")
            return x
        return one(v)

    E.contracts.update({MontyDecoder: lambda E2, a, k: mk(E2, Decoder), Decoder.process_decoded: decode})


T = "rxn_network.network.base:"


class RxGraph:  # the methods of rustworkx
    def nodes(self): ...
    def node_indices(self): ...
    def edge_list(self): ...
    def edges(self): ...
    def add_nodes_from(self, x): ...
    def add_edges_from(self, x): ...


@contract("a graph and its dictionary form have the same nodes and edges", [T + "Graph.as_dict", T + "Graph.from_dict"])
def _(E):
    serial(E)
    E.syntactic_hits = True
    n, m = E.int("nodes").t, E.int("edges").t
    E.assume(z3.And(n >= 0, m >= 0))
    i, j = z3.Ints("i! j!")
    ND, IX, U, V, O = NODEK.fn(fresh_name("node"), I), z3.Function(fresh_name("index"), I, I), z3.Function(fresh_name("from"), I, I), z3.Function(fresh_name("to"), I, I), OBJK.fn(fresh_name("edge_object"), I)
    POS = z3.Function(fresh_name("position"), NODEK.sort, I)
    # the numbers of nodes increase (with gaps after removals); nodes differ; edges join nodes (numbered IX(U), IX(V))
    E.axioms += [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), IX(i) < IX(j)), patterns=[z3.MultiPattern(IX(i), IX(j))]),
                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), POS(ND(i)) == i), patterns=[ND(i)]),
                 z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= U(j), U(j) < n, 0 <= V(j), V(j) < n)), patterns=[U(j)]),
                 z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= V(j), V(j) < n)), patterns=[V(j)])]
    g = mk(E, RxGraph)
    made = []
    old = lambda o: o is g
    E.contracts.update({
        RxGraph.nodes: lambda E2, a, k: E2.seq("nodes", n, lambda q: SObj(NODEK, ND(q))) if old(a[0]) else _no("nodes"),
        RxGraph.node_indices: lambda E2, a, k: E2.seq("indices", n, lambda q: SNum(IX(q))) if old(a[0]) else _no("indices"),
        RxGraph.edge_list: lambda E2, a, k: E2.seq("edge_list", m, lambda q: E2.tup(SNum(IX(U(q))), SNum(IX(V(q))))) if old(a[0]) else _no("edge_list"),
        RxGraph.edges: lambda E2, a, k: E2.seq("edges", m, lambda q: SObj(OBJK, O(q))) if old(a[0]) else _no("edges")})

    def new(E2, a, k):
        o = mk(E2, RxGraph, nodes=None, edges=None)
        made.append(o)
        return o

    def add_nodes(E2, a, k):
        o = a[0]
        if old(o) or o.state["nodes"] is not None:
            raise Undecided("nodes added")
        lst = E2.iterate(E2.resolve(a[1]))
        cnt, at = list_view(E2, lst, lambda x: x.t)
        upd(E2, o, nodes=(cnt, at))
        return E2.seq("new_indices", cnt, lambda q: SNum(q))

    def add_edges(E2, a, k):
        o = a[0]
        if old(o) or o.state["edges"] is not None:
            raise Undecided("edges added")
        upd(E2, o, edges=E2.iterate(E2.resolve(a[1])))
        return None

    E.contracts.update({(base.Graph, "__call__"): new, RxGraph.add_nodes_from: add_nodes, RxGraph.add_edges_from: add_edges})
    d = E.resolve(E.call(base.Graph.as_dict, [g], {}))
    out = E.resolve(E.call(base.Graph.from_dict, [d], {}))
    E.cover("reachable")
    E.prove("a new graph", len(made) == 1 and out is made[0])
    cnt, at = out.state["nodes"] or (z3.IntVal(0), None)
    a = idx(E, n, "a")
    E.prove("as many nodes", cnt == n)
    E.prove("the same nodes", z3.Implies(n > 0, at(a) == ND(a)) if at else n == 0)
    es = out.state["edges"]
    if es is None:
        E.prove("no edges", m == 0)
        return
    comp = lambda k, f: list_view(E, es, lambda x: f(E.resolve(E.resolve(x).items()[k])))
    e = idx(E, m, "e")
    E.prove("as many edges", comp(0, E.num)[0] == m)
    for k, f, want, nm in ((0, E.num, lambda q: U(q), "leave the same nodes"), (1, E.num, lambda q: V(q), "reach the same nodes"), (2, lambda x: x.t, lambda q: O(q), "carry the same objects")):
        v = comp(k, f)[1]
        E.prove(f"edges {nm}", z3.Implies(m > 0, v(e) == want(e)) if v else m == 0)


def _no(why):
    raise Undecided(why)


def fixed_dict(E, pairs):
    d = VDict([Conc([E.tup(k, v) for k, v in pairs.items()])], E.tick())
    return d


def entry_case(cls, name):
    from pymatgen.entries.computed_entries import ComputedEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    mod = cls.as_dict.__module__ + ":" + cls.as_dict.__qualname__.split(".")[0]
    gibbs = cls is GibbsComputedEntry

    @contract(f"an entry made from the dictionary form has the values of the entry it was made from ({name})", [f"{mod}.as_dict", f"{mod}.from_dict"])
    def _(E):
        serial(E)
        V = Kind("Value", None)
        names = ["entry_id", "parameters", "composition", "energy_adjustments", "data"]
        val = {n: E.obj(COMP if n == "composition" else V, n) for n in names}
        clean = E.obj(V, "data_with_plain_keys")
        num = {n: E.real(n) for n in (["temperature", "volume_per_atom", "formation_energy_per_atom"] if gibbs else ["temperature"])}
        ADJ = E.obj(OBJK, "adjustments")
        e = mk(E, cls, {"data": val["data"], **{n: v for n, v in num.items() if gibbs or n == "temperature"}, **({} if gibbs else {"_temperature": num["temperature"]}), "entry_id": val["entry_id"]})
        if gibbs:
            e.attrs = {**e.attrs, "temperature": num["temperature"]} if hasattr(e, "attrs") and isinstance(e.attrs, dict) else e.attrs
        seen = []

        def parent(E2, a, k):
            d = E2.resolve(E2.getattr(a[0], "data"))
            seen.append(d)
            if a[0] is not e:
                raise Undecided("the form of another entry")
            return fixed_dict(E2, {"@module": cls.__module__, "@class": cls.__name__, "energy": E2.obj(V, "energy"), "composition": val["composition"], "entry_id": val["entry_id"], "correction": E2.obj(V, "correction"),
                                   "energy_adjustments": SObj(ENCK, ENC(ADJ.t)), "parameters": val["parameters"], "data": d})

        E.contracts[ComputedEntry.as_dict] = parent
        if gibbs:
            E.contracts[GibbsComputedEntry._sanitize_data] = lambda E2, a, k: clean if E2.resolve(a[-1]) is val["data"] else _no("data cleaned")
        made = []

        def make(E2, a, k):
            order = [p for p in __import__("inspect").signature(cls.__init__).parameters if p != "self"]
            made.append({**dict(zip(order, a)), **k})
            return E2.obj(V, "made")

        E.contracts[(cls, "__call__")] = make
        d = E.resolve(E.call(cls.as_dict, [e], {}))
        E.prove("the entry keeps its data", E.resolve(E.getattr(e, "data")) is val["data"])
        items = [tuple(E.resolve(x) for x in p.items()) for s in d.pairs for p in s.items]
        E.call(cls.from_dict, [d], {})
        E.cover("reachable")
        after = [tuple(E.resolve(x) for x in p.items()) for s in d.pairs for p in s.items]
        E.prove("the dictionary is left alone", len(items) == len(after) and all(x is y for p, q in zip(items, after) for x, y in zip(p, q)))
        E.prove("one entry is made", len(made) == 1)
        got = {k: E.resolve(v) for k, v in made[-1].items()}
        for n, v in num.items():
            E.prove(f"same {n}", E.num(got[n]) == v.t if n in got else z3.BoolVal(False))
        same = lambda n, *t: E.prove(f"same {n}", z3.Or(*[got[n].t == x for x in t if x.sort() == got[n].t.sort()]) if n in got and hasattr(got[n], "t") else z3.BoolVal(False))
        same("composition", val["composition"].t)
        same("energy_adjustments", ADJ.t)
        same("data", (clean if gibbs else val["data"]).t)
        if gibbs:
            same("entry_id", val["entry_id"].t)
            same("parameters", val["parameters"].t)


def _entries():
    from rxn_network.entries.freed import FREEDReferenceEntry
    from rxn_network.entries.gibbs import GibbsComputedEntry
    from rxn_network.entries.nist import NISTReferenceEntry
    for c, n in ((GibbsComputedEntry, "estimated"), (NISTReferenceEntry, "NIST"), (FREEDReferenceEntry, "FREED")):
        entry_case(c, n)


_entries()


@contract("a node made from the dictionary form of a node has its entries and its kind", ["rxn_network.network.entry:NetworkEntry.as_dict", "rxn_network.network.entry:NetworkEntry.from_dict"])
def _(E):
    from rxn_network.network.entry import NetworkEntry, NetworkEntryType
    serial(E)
    n = E.int("n").t
    E.assume(n >= 0)
    X, POS = OBJK.fn(fresh_name("entry"), I), z3.Function(fresh_name("position"), OBJK.sort, I)
    i = z3.Int("i!")
    E.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), POS(X(i)) == i), patterns=[X(i)]))
    made = []

    def make(E2, a, k):
        made.append({**dict(zip(["entries", "description"], a)), **k})
        return E2.obj(OBJK, "made")

    E.contracts[(NetworkEntry, "__call__")] = make
    E.contracts[(NetworkEntryType, "__call__")] = lambda E2, a, k: NetworkEntryType(E2.resolve(a[0]))
    entries = E.seq("entries", n, lambda q: SObj(OBJK, X(q)))
    for kind in NetworkEntryType:
        del made[:]
        e = mk(E, NetworkEntry, {"_entries": entries, "_description": kind})
        d = E.resolve(E.call(NetworkEntry.as_dict, [e], {}))
        E.call(NetworkEntry.from_dict, [d], {})
        E.prove(f"one node is made ({kind.name})", len(made) == 1)
        E.prove(f"of the same kind ({kind.name})", E.resolve(made[0]["description"]) is kind)
        cnt, at = list_view(E, E.iterate(E.resolve(made[0]["entries"])), lambda x: x.t)
        a = idx(E, n, "a")
        E.prove(f"as many entries ({kind.name})", cnt == n)
        E.prove(f"the same entries ({kind.name})", z3.Implies(n > 0, at(a) == X(a)) if at else n == 0)
    E.cover("reachable")


@contract("a network made from the dictionary form of a network has its precursors, target and graph", [T + "Network.as_dict", T + "Network.from_dict"])
def _(E):
    from rxn_network.network.network import ReactionNetwork
    serial(E)
    n = E.int("n").t
    E.assume(n >= 0)
    X, POS = OBJK.fn(fresh_name("precursor"), I), z3.Function(fresh_name("position"), OBJK.sort, I)
    i = z3.Int("i!")
    E.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), POS(X(i)) == i), patterns=[X(i)]))
    rest = E.obj(ENCK, "constructor_arguments")
    seen = []
    made = []
    ARGS = ("entries", "enumerators", "cost_function")

    def parent(E2, a, k):
        if a[0] is not net:
            raise Undecided("the form of another network")
        return fixed_dict(E2, {"@module": "rxn_network.network.network", "@class": "ReactionNetwork", **{x: SObj(ENCK, ENC(net_args[x].t)) for x in ARGS}})

    def parent_from(E2, a, k):
        d = E2.resolve(a[-1])
        seen.append({E2.resolve(E2.resolve(p).items()[0]): E2.resolve(E2.resolve(p).items()[1]) for s_ in d.pairs for p in s_.items})
        o = mk(E2, ReactionNetwork, _precursors=None, _target=None, _g=None)
        made.append(o)
        return o

    E.contracts[MSONable.as_dict] = parent
    E.contracts[MSONable.from_dict] = parent_from
    E.contracts[MSONable.from_dict.__func__] = parent_from
    net_args = {x: E.obj(OBJK, x) for x in ARGS}
    for has_p in (True, False):
        for has_t in (True, False):
            for has_g in (True, False):
                tag = f"({'' if has_p else 'no '}precursors, {'' if has_t else 'no '}target, {'' if has_g else 'no '}graph)"
                del made[:], seen[:]
                pre = E.seq("precursors", n, lambda q: SObj(OBJK, X(q)), "set") if has_p else None
                tgt, gr = E.obj(OBJK, "target") if has_t else None, E.obj(OBJK, "graph") if has_g else None
                net = mk(E, ReactionNetwork, {"_precursors": pre, "_target": tgt, "_g": gr})
                d = E.resolve(E.call(base.Network.as_dict, [net], {}))
                before = [tuple(E.resolve(x) for x in p.items()) for s_ in d.pairs for p in s_.items]
                out = E.resolve(E.call(ReactionNetwork.from_dict, [d], {}))
                after = [tuple(E.resolve(x) for x in p.items()) for s_ in d.pairs for p in s_.items]
                E.prove(f"the dictionary is left alone {tag}", len(before) == len(after) and all(x is y for p, q in zip(before, after) for x, y in zip(p, q)))
                E.prove(f"one network is made, and returned {tag}", len(made) == 1 and out is made[0])
                E.prove(f"the constructor gets its arguments and no others {tag}", {k for k in seen[0] if not k.startswith("@")} == set(ARGS))
                for x in ARGS:
                    E.prove(f"same {x} {tag}", seen[0][x].t == ENC(net_args[x].t))
                for nm, f, v in (("target", "_target", tgt), ("graph", "_g", gr)):
                    w = E.resolve(E.getattr(out, f))
                    E.prove(f"same {nm} {tag}", (w is None) if v is None else (w.t == v.t if isinstance(w, SObj) else z3.BoolVal(False)))
                w = E.resolve(E.getattr(out, "_precursors"))
                if not has_p:
                    E.prove(f"no precursors {tag}", w is None)
                    continue
                E.prove(f"precursors are a set {tag}", isinstance(w, VList) and w.kind in ("set", "frozenset"))
                has = set_view(E, w)
                a, t = idx(E, n, "a"), z3.Const(fresh_name("some"), OBJK.sort)
                E.prove(f"the precursors are kept {tag}", z3.Implies(n > 0, has(X(a))))
                E.prove(f"no others {tag}", z3.Implies(has(t), z3.And(0 <= POS(t), POS(t) < n, X(POS(t)) == t)))
    E.cover("reachable")


@contract("an open reaction made from the dictionary form has the same chemical potentials", ["rxn_network.reactions.open:OpenComputedReaction.as_dict", "rxn_network.reactions.open:OpenComputedReaction.from_dict"])
def _(E):
    from pymatgen.core.periodic_table import Element
    from rxn_network.reactions.open import OpenComputedReaction
    serial(E)
    SYMK = Kind("Symbol", str)
    SYM, ELOF = SYMK.fn("symbol_of", ELEM.sort), ELEM.fn("element_of_symbol", SYMK.sort)
    x, y = z3.Const(fresh_name("el"), ELEM.sort), z3.Const(fresh_name("some"), ELEM.sort)
    E.axioms.append(z3.ForAll([x], ELOF(SYM(x)) == x, patterns=[SYM(x)]))
    ELEM.attrs["symbol"] = lambda E2, e: SObj(SYMK, SYM(e.t))

    def element(E2, a, k):
        v = E2.resolve(a[0])
        if not isinstance(v, SObj):
            raise Undecided("Element of something else")
        if v.kind is ELEM:
            return v
        return SObj(ELEM, v.t.arg(0) if v.t.decl().name() == "symbol_of" else ELOF(v.t))

    E.contracts[(Element, "__call__")] = E.contracts[Element] = element
    OPEN, MU = z3.Function(fresh_name("open"), ELEM.sort, z3.BoolSort()), z3.Function(fresh_name("mu"), ELEM.sort, R)
    pots = VDict([Seg([(x, None)], OPEN(x), E.tup(SObj(ELEM, x), SNum(MU(x))))], E.tick())
    ARGS = ("entries", "coefficients", "data", "lowest_num_errors")
    args = {n: E.obj(OBJK, n) for n in ARGS}
    rxn = mk(E, OpenComputedReaction, {"chempots": pots, **args})
    seen = []
    out = E.obj(OBJK, "made")

    def parent(E2, a, k):
        if a[0] is not rxn:
            raise Undecided("the form of another reaction")
        return fixed_dict(E2, {"@module": "rxn_network.reactions.open", "@class": "OpenComputedReaction", **{n: SObj(ENCK, ENC(args[n].t)) for n in ARGS}, "chempots": E2.obj(ENCK, "the form with the elements as keys")})

    def parent_from(E2, a, k):
        d = E2.resolve(a[-1])
        got = {}
        for s_ in d.pairs:
            for p in s_.items:
                k_, v_ = E2.resolve(p).items()
                got[E2.resolve(k_)] = E2.resolve(v_)
        seen.append(got)
        return out

    E.contracts.update({MSONable.as_dict: parent, MSONable.from_dict: parent_from, MSONable.from_dict.__func__: parent_from})
    d = E.resolve(E.call(OpenComputedReaction.as_dict, [rxn], {}))
    before = [tuple(E.resolve(z) for z in p.items()) for s_ in d.pairs for p in s_.items]
    r = E.resolve(E.call(OpenComputedReaction.from_dict, [d], {}))
    after = [tuple(E.resolve(z) for z in p.items()) for s_ in d.pairs for p in s_.items]
    E.cover("reachable")
    E.prove("the dictionary is left alone", len(before) == len(after) and all(p is q for b, c in zip(before, after) for p, q in zip(b, c)))
    E.prove("the reaction keeps its potentials", E.resolve(E.getattr(rxn, "chempots")) is pots)
    E.prove("one reaction is made, and returned", len(seen) == 1 and r is out)
    got = seen[0]
    E.prove("the constructor gets its arguments and no others", {k for k in got if not k.startswith("@")} == {*ARGS, "chempots"})
    for n in ARGS:
        E.prove(f"same {n}", got[n].t == ENC(args[n].t))
    cp = got["chempots"]
    if not isinstance(cp, VDict):
        E.prove("potentials are a dictionary", False)
        return
    # every open element keeps its potential, and there are no other elements
    has, val = pairs_view(E, cp)
    E.prove("the open elements", has(y) == OPEN(y))
    E.prove("with their potentials", z3.Implies(OPEN(y), val(y) == MU(y)))


def pairs_view(E, d):
    """{element: number} built by one comprehension over the elements"""
    segs = [s for s in d.pairs if not (isinstance(s, Conc) and not s.items)]
    if len(segs) != 1 or isinstance(segs[0], Conc) or len(segs[0].dims) != 1:
        raise Undecided("form of the dictionary")
    (v, hi), = segs[0].dims
    k, w = [E.resolve(z) for z in segs[0].elem.items()]
    if hi is not None or k.t.get_id() != v.get_id():
        raise Undecided("form of the dictionary")
    return lambda t: z3.substitute(segs[0].guard, (v, t)), lambda t: z3.substitute(E.num(w), (v, t))


def msonable(E, obj, items):
    def parent(E2, a, k):
        if a[0] is not obj:
            raise Undecided("the form of another object")
        return fixed_dict(E2, dict(items))
    E.contracts[MSONable.as_dict] = parent


def item(E, d, name):
    for s_ in d.pairs:
        for p in s_.items:
            k, v = E.resolve(p).items()
            if E.resolve(k) == name:
                return E.resolve(v)
    return None


@contract("the dictionary form of an entry set has its entries and its setting", ["rxn_network.entries.entry_set:GibbsEntrySet.as_dict"])
def _(E):
    from rxn_network.entries.entry_set import GibbsEntrySet
    serial(E)
    n = E.int("n").t
    E.assume(n >= 0)
    X, POS = OBJK.fn(fresh_name("entry"), I), z3.Function(fresh_name("position"), OBJK.sort, I)
    i = z3.Int("i!")
    E.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), POS(X(i)) == i), patterns=[X(i)]))
    for minimized in (True, False):
        for hulls in (True, False):
            tag = f"({'minimized, ' if minimized else ''}{'with' if hulls else 'without'} hull energies)"
            entries = E.seq("entries", n, lambda q: SObj(OBJK, X(q)), "set")
            es = mk(E, GibbsEntrySet, {"entries": entries, "calculate_e_above_hulls": hulls, "minimize_obj_size": minimized})
            msonable(E, es, {"@module": "rxn_network.entries.entry_set", "@class": "GibbsEntrySet", "entries": E.obj(ENCK, "entries as encoded"), "calculate_e_above_hulls": hulls, "minimize_obj_size": minimized})
            d = E.resolve(E.call(GibbsEntrySet.as_dict, [es], {}))
            E.prove(f"same settings {tag}", item(E, d, "calculate_e_above_hulls") is hulls and item(E, d, "minimize_obj_size") is minimized)
            lst = E.iterate(item(E, d, "entries"))
            has, t, a = set_view(E, lst), z3.Const(fresh_name("form"), ENCK.sort), idx(E, n, "a")
            E.prove(f"every entry has its form {tag}", z3.Implies(n > 0, has(ENC(X(a)))))
            o = DEC(t)
            E.prove(f"no others {tag}", z3.Implies(has(t), z3.And(0 <= POS(o), POS(o) < n, t == ENC(X(POS(o))))))
            E.prove(f"the set keeps its entries {tag}", E.resolve(E.getattr(es, "entries")) is entries)
    E.cover("reachable")


@contract("the dictionary form of an interface hull has the reactions it was made of", ["rxn_network.reactions.hull:InterfaceReactionHull.as_dict"])
def _(E):
    from rxn_network.reactions.hull import InterfaceReactionHull
    serial(E)
    n = E.int("n").t
    E.assume(n >= 2)
    RX = OBJK.fn(fresh_name("reaction"), I)
    e1, e2 = E.obj(OBJK, "endpoint1"), E.obj(OBJK, "endpoint2")
    rxns = E.seq("reactions", n, lambda q: SObj(OBJK, RX(q)))
    c1, c2 = E.obj(OBJK, "c1"), E.obj(OBJK, "c2")
    hull = mk(E, InterfaceReactionHull, {"reactions": rxns, "endpoint_reactions": E.mk([e1, e2]), "c1": c1, "c2": c2})
    msonable(E, hull, {"@module": "rxn_network.reactions.hull", "@class": "InterfaceReactionHull", "reactions": E.obj(ENCK, "reactions as encoded"), "c1": SObj(ENCK, ENC(c1.t)), "c2": SObj(ENCK, ENC(c2.t))})
    d = E.resolve(E.call(InterfaceReactionHull.as_dict, [hull], {}))
    E.cover("reachable")
    for nm, c in (("c1", c1), ("c2", c2)):
        E.prove(f"same {nm}", item(E, d, nm).t == ENC(c.t))
    has = set_view(E, E.iterate(item(E, d, "reactions")))
    a = idx(E, n, "a")
    end = lambda x: z3.Or(x == e1.t, x == e2.t)
    t = z3.Const(fresh_name("form"), ENCK.sort)
    E.prove("every reaction but the endpoints", z3.Implies(z3.Not(end(RX(a))), has(ENC(RX(a)))))
    E.prove("no endpoints", z3.Implies(has(t), z3.Not(end(DEC(t)))))
    E.prove("the hull keeps its reactions", E.resolve(E.getattr(hull, "reactions")) is rxns)
