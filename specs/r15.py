"""R15: splitting work and collecting it."""
from specs.common import *  # noqa: F403
import itertools

import ray
from pyvc.interp import func_ast
from pyvc.loops import havoc_list, list_view, while_rule
from pyvc.models import REGISTRY
from pyvc.vals import subst
from rxn_network.enumerators import utils as eutils
from rxn_network.enumerators.base import Enumerator
from rxn_network.utils import funcs
from rxn_network.utils import ray as uray

ITEM = Kind("Item", None)
REF, RES = Kind("Ref", ray.ObjectRef), Kind("Result", None)
RESULT = RES.fn("result_of", REF.sort)


def of(it):
    """positions of a list: [0, length)"""
    return lambda k: z3.And(0 <= k, k < it)


@contract("results of all tasks are yielded exactly once, in whatever order they complete", ["rxn_network.utils.ray:to_iterator"], budget=60)
def _(E):
    n = E.int("tasks").t
    E.assume(n >= 0)
    O = REF.fn(fresh_name("task"), I)
    refs = E.seq("refs", n, lambda q: SObj(REF, O(q)))
    want_ids = E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
    j, k = z3.Int("j!"), z3.Int("k!")

    def wait(E2, a, kw):
        # ray.wait: one of the tasks given (whichever is ready first) and the others, in order
        lst = E2.resolve(a[0] if a else kw["ray_waitables"])
        num = a[1] if len(a) > 1 else kw.get("num_returns", 1)
        if num != 1 or kw.get("timeout") is not None or len(a) > 2:
            raise Undecided("ray.wait with options")
        m, at = list_view(E2, lst, lambda x: x.t)
        E2.prove("wait for at least one task", m > 0)
        p = E2.fresh("ready", I)
        E2.assume(z3.And(0 <= p, p < m))
        E2.ready = p
        q = z3.Int(fresh_name("q"))
        rest = VList([Seg([(q, m - 1)], z3.BoolVal(True), SObj(REF, at(z3.If(q < p, q, q + 1))))], "list", E2.tick())
        return E2.tup(E2.mk([SObj(REF, at(p))]), rest)

    def get(E2, a, kw):
        r = E2.resolve(a[0])
        if isinstance(r, VList):
            return E2.map(r, lambda x: SObj(RES, RESULT(x.t))) if hasattr(E2, "map") else _undecided("get of a list")
        return SObj(RES, RESULT(r.t))

    E.contracts.update({ray.wait: wait, ray.get: get})

    def views(E, fr):
        fs = [E.find_frame(fr, "obj_ids"), fr]
        while fs[1].yields is None:
            fs[1] = fs[1].parent
        return E.resolve(fs[0].vars["obj_ids"]), fs[1].yields

    def inv(E, fr):
        pend, ys = views(E, fr)
        m, at = list_view(E, pend, lambda x: x.t)
        if want_ids:
            c, out = list_view(E, ys, lambda x: E.resolve(E.resolve(x).items()[1]).t)
            _, ids = list_view(E, ys, lambda x: E.resolve(E.resolve(x).items()[0]).t)
        else:
            c, out = list_view(E, ys, lambda x: x.t)
            ids = None
        s = E.ghost
        if E.ready is not None:  # after an iteration: the task yielded moves to the front of those pending
            old, c0, p = E.ghost, E.ghost_c, E.ready
            s = lambda x: z3.If(x < c0, old(x), z3.If(x == c0, old(c0 + p), z3.If(x - c0 - 1 < p, old(x - 1), old(x))))
        E.final = s
        yielded = z3.BoolVal(True) if out is None else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c), z3.And(out(j) == RESULT(O(s(j))), ids(j) == O(s(j)) if ids else True)))
        pending = z3.BoolVal(True) if at is None else z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), at(j) == O(s(c + j))))
        return [("as many yielded and pending as tasks", z3.And(m >= 0, c >= 0, c + m == n)),
                ("the yielded are results of their tasks", yielded), ("the others are pending", pending),
                ("every task once", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= s(j), s(j) < n)))),
                ("no task twice", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), s(j) != s(k))))]

    def havoc(E, fr):
        pend, ys = views(E, fr)
        m, c = E.fresh("m", I), E.fresh("c", I)
        E.assume(z3.And(m >= 0, c >= 0))
        P, Y, D, S = REF.fn(fresh_name("pending"), I), RES.fn(fresh_name("yielded"), I), REF.fn(fresh_name("id"), I), z3.Function(fresh_name("task_at"), I, I)
        f = E.find_frame(fr, "obj_ids")
        E.set_var_in(f, "obj_ids", E.seq(fresh_name("pend"), m, lambda q: SObj(REF, P(q))))
        havoc_list(E, ys, c, (lambda q: E.tup(SObj(REF, D(q)), SObj(RES, Y(q)))) if want_ids else (lambda q: SObj(RES, Y(q))))
        d = E.find_frame(fr, "done")
        if d is not None:
            E.set_var_in(d, "done", Poison("done of an earlier round"))
        E.ghost, E.ghost_c, E.ready = (lambda x: S(x)), c, None

    variant = lambda E, fr: list_view(E, views(E, fr)[0], lambda x: x.t)[0]
    E.ghost, E.ready = (lambda x: x), None
    node = lambda: func_ast(uray.to_iterator)
    E.loop_hooks = [while_rule(lambda E, x, fr: x in node().body, havoc, inv, variant, "tasks")]
    out = E.resolve(E.call(uray.to_iterator, [refs], {"get_obj_ids": want_ids}))
    E.cover("reachable")
    c, at = list_view(E, out, (lambda x: E.resolve(E.resolve(x).items()[1]).t) if want_ids else lambda x: x.t)
    a, b = idx(E, n, "a"), idx(E, n, "b")
    s = E.final
    E.prove("as many results as tasks", c == n)
    E.prove("results of the tasks", z3.Implies(n > 0, z3.And(at(a) == RESULT(O(s(a))), 0 <= s(a), s(a) < n)) if at else n == 0)
    E.prove("each task once (an injection of the positions, so a permutation)", z3.Implies(a != b, s(a) != s(b)))
    if want_ids and at:
        E.prove("results next to their task", list_view(E, out, lambda x: E.resolve(E.resolve(x).items()[0]).t)[1](a) == O(s(a)))


def _undecided(why):
    raise Undecided(why)


@contract("chunks hold all items in order, n each, with the fill value after the last", ["rxn_network.utils.funcs:grouper"])
def _(E):
    m, n = E.int("items").t, E.int("size").t
    E.assume(z3.And(m >= 0, n >= 1))
    X = ITEM.fn(fresh_name("item"), I)
    items = E.seq("items", m, lambda q: SObj(ITEM, X(q)))
    fill = E.obj(ITEM, "fill")
    STREAM = Kind("Stream", None)
    streams = {}

    def make_iter(E2, a, k):
        # an iterator over the items: one state however often it is mentioned
        s = E2.obj(STREAM, "stream")
        streams[str(s.t)] = E2.iterate(a[0])
        return s

    def zip_longest(E2, a, k):
        """itertools.zip_longest of one iterator mentioned several times: the items in order, row by row"""
        fillv = k.get("fillvalue")
        if len(a) != 1 or type(a[0]).__name__ != "StarArg":
            raise Undecided("form of zip_longest")
        lst = a[0].it
        if len([s for s in lst.segs if not (isinstance(s, Conc) and not s.items)]) != 1:
            raise Undecided("arguments of zip_longest")
        sg = [s for s in lst.segs if not (isinstance(s, Conc) and not s.items)][0]
        if not isinstance(sg, Seg) or not sg.simple() or not isinstance(sg.elem, SObj) or str(sg.elem.t) not in streams:
            raise Undecided("not one iterator")
        (v, c), = sg.dims
        cnt, at = list_view(E2, streams[str(sg.elem.t)], lambda x: x.t)
        E2.prove("at least one iterator", c >= 1)
        rows = E2.fresh("rows", I)
        E2.define(z3.And(rows * c >= cnt, (rows - 1) * c < cnt, rows >= 0))
        g, j = z3.Int(fresh_name("g")), z3.Int(fresh_name("j"))
        pos = g * c + j
        filled = E2.resolve(fillv)
        if not isinstance(filled, SObj):
            E2.prove("the fill value asked for", z3.BoolVal(False))
            filled = fill
        row = VList([Seg([(j, c)], z3.BoolVal(True), SObj(ITEM, z3.If(pos < cnt, at(pos), filled.t)))], "tuple", E2.tick())
        return VList([Seg([(g, rows)], z3.BoolVal(True), row)], "iter", E2.tick())

    E.contracts.update({iter: make_iter, itertools.zip_longest: zip_longest})
    out = E.resolve(E.call(funcs.grouper, [items, SNum(n)], {"fillvalue": fill}))
    E.cover("reachable")
    if not isinstance(out, VList):
        raise Undecided("form of the result")
    segs = [s for s in out.segs if not (isinstance(s, Conc) and not s.items)]
    if len(segs) != 1 or not isinstance(segs[0], Seg) or not segs[0].simple():
        raise Undecided("form of the chunks")
    rows = segs[0].dims[0][1]
    g = idx(E, rows, "g")
    row = subst(segs[0].elem, [(segs[0].dims[0][0], g)])
    w, at = list_view(E, row, lambda x: x.t)
    E.prove("every chunk has the size asked for", w == n)
    j = idx(E, n, "j")
    E.prove("items in order, then the fill value", at(j) == z3.If(g * n + j < m, X(g * n + j), fill.t))
    E.prove("all items and less than one chunk of filling", z3.And(rows * n >= m, rows * n - m < n))


@contract("subsets of every size from one to the limit, each size once", ["rxn_network.utils.funcs:limited_powerset"])
def _(E):
    m, n = E.int("items").t, E.int("limit").t
    E.assume(z3.And(m >= 0, n >= 0))
    X = ITEM.fn(fresh_name("item"), I)
    items = E.seq("items", m, lambda q: SObj(ITEM, X(q)))
    SUB = Kind("Subset", tuple)
    COMB, NCOMB = SUB.fn("subset", I, I), z3.Function("subsets", I, I)  # the i-th subset of a size (itertools.combinations)
    k = z3.Int("k!")
    E.axioms.append(z3.ForAll([k], NCOMB(k) >= 0, patterns=[NCOMB(k)]))

    def combinations(E2, a, kw):
        if E2.resolve(a[0]) is not items:
            E2.prove("subsets of the items", same_list(E2, a[0], items))
        r = E2.num(a[1] if len(a) > 1 else kw["r"])
        i = z3.Int(fresh_name("i"))
        return VList([Seg([(i, NCOMB(r))], z3.BoolVal(True), SObj(SUB, COMB(r, i)))], "iter", E2.tick())

    E.contracts[itertools.combinations] = combinations
    out = E.resolve(E.call(funcs.limited_powerset, [items, SNum(n)], {}))
    E.cover("reachable")
    if not isinstance(out, VList):
        raise Undecided("form of the result")
    segs = [s for s in out.segs if not (isinstance(s, Conc) and not s.items)]
    if len(segs) != 1 or not isinstance(segs[0], Seg) or len(segs[0].dims) != 2:
        raise Undecided("form of the subsets")
    s = segs[0]
    (v, hv), (i, hi) = s.dims
    # position (size, number) -> the pair of loop variables: the result runs over exactly those pairs in order of size
    size, at = idx(E, n, "size"), E.fresh("number", I)
    inst = lambda t: z3.substitute(t, (v, size), (i, at))
    E.prove("sizes up to the limit", z3.substitute(hv, (i, at)) == n)
    E.prove("every subset of the size", z3.And(inst(s.guard), inst(hi) == NCOMB(size + 1)))
    E.prove("the subset itself", inst(s.elem.t) == COMB(size + 1, at))


def same_list(E, a, b):
    na, fa = list_view(E, E.iterate(a), lambda x: x.t)
    nb, fb = list_view(E, b, lambda x: x.t)
    q = z3.Int(fresh_name("q"))
    return z3.And(na == nb, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nb), fa(q) == fb(q))))


@contract("running several enumerators gives the union of what each gives, filtered", ["rxn_network.enumerators.utils:run_enumerators"])
def _(E):
    n = E.int("enumerators").t
    E.assume(n >= 0)
    EN, ENTS, RS, RXN_ = Kind("Enumerator", Enumerator), Kind("Entries", None), Kind("RxnSet", None), Kind("Rxn", None)
    RUN, ADD, FILT = RS.fn("enumerate", EN.sort, ENTS.sort), RS.fn("add_rxn_set", RS.sort, RS.sort), RS.fn("filter_duplicates", RS.sort)
    HAS = z3.Function("in_rxn_set", RS.sort, RXN_.sort, z3.BoolSort())
    a, b, x = z3.Const("a!", RS.sort), z3.Const("b!", RS.sort), z3.Const("x!", RXN_.sort)
    E.axioms.append(z3.ForAll([a, b, x], HAS(ADD(a, b), x) == z3.Or(HAS(a, x), HAS(b, x)), patterns=[HAS(ADD(a, b), x)]))  # R06
    EN.methods["enumerate"] = lambda E2, o, ar, k: SObj(RS, RUN(o.t, E2.resolve(ar[0] if ar else k["entries"]).t))
    RS.methods["add_rxn_set"] = lambda E2, o, ar, k: SObj(RS, ADD(o.t, E2.resolve(ar[0] if ar else k["rxn_set"]).t))
    RS.methods["filter_duplicates"] = lambda E2, o, ar, k: SObj(RS, FILT(o.t)) if not ar and not k else _undecided("options of filter_duplicates")
    RS.methods["__len__"] = lambda E2, o, ar, k: E2.int("len")
    RS.length = lambda E2, o: E2.int("len")
    X = EN.fn(fresh_name("enumerator"), I)
    ens = E.seq("enumerators", n, lambda q: SObj(EN, X(q)))
    ents = E.obj(ENTS, "entries")
    k, w = z3.Int("k!"), z3.Const("w!", RXN_.sort)
    witness = E.obj(RXN_, "rxn")

    def clauses(cur, cnt):
        if cur is None:
            return [("nothing yet", cnt == 0)]
        return [("reactions of those run", z3.And(cnt > 0, HAS(cur.t, witness.t) == z3.Exists([k], z3.And(0 <= k, k < cnt, HAS(RUN(X(k), ents.t), witness.t)))))]

    def inv(E, fr, done):
        f = E.find_frame(fr, "rxn_set")
        if f is None or done.count is None:
            raise Undecided("form of the union")
        return clauses(E.resolve(f.vars["rxn_set"]), done.count)

    def havoc(E, fr):
        f = E.find_frame(fr, "rxn_set")
        if f is None:
            raise Undecided("form of the union")
        none = E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
        new = None if none else E.obj(RS, "so_far")
        E.set_var_in(f, "rxn_set", new)
        return [new]

    node = lambda: func_ast(eutils.run_enumerators)
    from pyvc.loops import invariant_rule

    E.loop_hooks = [invariant_rule(node, lambda E, x, fr: x in node().body, havoc, inv, "enumerators")]
    out = E.resolve(E.call(eutils.run_enumerators, [ens, ents], {}))
    E.cover("reachable")
    if out is None:
        E.prove("nothing only without enumerators", n == 0)
        return
    t = out.t
    E.prove("duplicates are filtered", z3.BoolVal(t.decl().name() == "filter_duplicates"))
    if t.decl().name() == "filter_duplicates":
        inner = t.arg(0)
        E.prove("before that, the union of what each gives", HAS(inner, witness.t) == z3.Exists([k], z3.And(0 <= k, k < n, HAS(RUN(X(k), ents.t), witness.t))))


# ------------------------------------------------------------------ the chunks of an enumeration
from ray.remote_function import RemoteFunction  # noqa: E402, F401
from pyvc.loops import Done, havoc_dict, invariant_rule  # noqa: E402, F401
from pyvc.models import model  # noqa: E402
from rxn_network.enumerators import basic  # noqa: E402
import specs.r26 as r26  # noqa: E402


class Chunk:
    """a chunk under construction: tuples (list of items, entries, diagram, grand diagram)"""

    def append(self, x): ...
    def __len__(self): ...
    def __iter__(self): ...
    def __getitem__(self, i): ...


class Last:  # the last tuple of a chunk
    def __getitem__(self, i): ...


class LastItems:  # its list of items
    def append(self, x): ...


class Chunks:
    def append(self, x): ...
    def __len__(self): ...
    def __iter__(self): ...


class St(VObj):
    __slots__ = ("state",)


def mkst(E, cls, **state):
    o = St(cls, {}, E.tick())
    o.state = state
    return o


def upd(E, o, **kw):
    old = dict(o.state)
    E.record(lambda: setattr(o, "state", old))
    o.state = {**o.state, **kw}
    E.effects.append(("setattr", o, ("state", None)))


def enumeration(pds):
    @contract(f"every candidate is in exactly one chunk, with its own system's {'diagrams' if pds else 'data'}, and every chunk's reactions are returned", ["rxn_network.enumerators.basic:BasicEnumerator.enumerate"], budget=120)
    def _(E):
        CS, COMBOS, IT, CTX, D = Kind("Chemsys", str), Kind("Combos", list), Kind("Candidate", tuple), Kind("Context", None), Kind("EnumData", None)
        RXN_, CH, RR, RES_ = Kind("EnumRxn", None), Kind("RunChunk", list), Kind("Task", None), Kind("TaskResult", list)
        HAS = z3.Function(fresh_name("has_system"), CS.sort, z3.BoolSort())
        COMB, CAND, NCAND = COMBOS.fn("combos", CS.sort), IT.fn("candidate", COMBOS.sort, I), z3.Function("candidates", COMBOS.sort, I)
        OWNER, POS = CS.fn("system_of", IT.sort), z3.Function("position_of", IT.sort, I)
        FE, PD, GP = (CTX.fn(n, CS.sort) for n in ("entries_in", "diagram_of", "grand_diagram_of"))
        c, m, x = z3.Const("c!", CS.sort), z3.Int("m!"), z3.Const("x!", IT.sort)
        # naming device: a candidate is told apart by its system and its position there
        E.axioms += [z3.ForAll([c, m], z3.And(OWNER(CAND(COMB(c), m)) == c, POS(CAND(COMB(c), m)) == m), patterns=[CAND(COMB(c), m)]),
                     z3.ForAll([c], NCAND(COMB(c)) >= 0, patterns=[NCAND(COMB(c))])]
        watch = E.obj(IT, "candidate")
        own, pos = OWNER(watch.t), POS(watch.t)
        E.assume(watch.t == CAND(COMB(own), pos))
        real = z3.And(HAS(own), 0 <= pos, pos < NCAND(COMB(own)))
        built, gbuilt = (E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))]), True) if pds else (False, False)

        def ctx_ok(vals):
            out = []
            for v, f, on in zip(vals, (FE, PD, GP), (pds, built, gbuilt)):
                v = E.resolve(v)
                if not on:
                    out.append(z3.BoolVal(v is None))
                elif isinstance(v, SObj) and v.kind is CTX:
                    out.append(v.t == f(own))
                else:
                    out.append(z3.BoolVal(False))
            return z3.And(*out)

        one = lambda f: z3.If(f, z3.IntVal(1), z3.IntVal(0))

        def tuple_count(t):
            t = E.resolve(t)
            if not isinstance(t, VList) or len(t.items()) != 4:
                raise Undecided("form of a chunk")
            lst, *ctx = t.items()
            lst = E.resolve(lst)
            if not isinstance(lst, VList) or not lst.concrete():
                raise Undecided("form of a chunk")
            return z3.Sum([z3.IntVal(0), *[one(z3.And(E.resolve(r).t == watch.t, ctx_ok(ctx))) for r in lst.items()]])

        def count(o):
            o = E.resolve(o)
            if isinstance(o, St):
                return o.state["cnt"]
            if isinstance(o, VList) and o.concrete():
                return z3.Sum([z3.IntVal(0), *[count_chunk(t) for t in o.items()]])
            raise Undecided("form of the chunks")

        def count_chunk(t):
            t = E.resolve(t)
            if isinstance(t, St) or isinstance(t, VList) and t.kind == "list":
                return count(t)
            return tuple_count(t)

        def size(o):
            o = E.resolve(o)
            return o.state["n"] if isinstance(o, St) else E.num(E.length(o))

        def chunk_append(E2, a, k):
            o, t = a
            upd(E2, o, cnt=o.state["cnt"] + tuple_count(t), n=o.state["n"] + 1, last=[E2.resolve(v) for v in E2.resolve(t).items()[1:]])

        def chunk_get(E2, a, k):
            o, i = a
            if i != -1:
                raise Undecided("position in a chunk")
            E2.prove("a chunk has a last part", o.state["n"] > 0)
            return mkst(E2, Last, of=o)

        def chunk_iter(E2, a, k):
            LST = Kind("PartItems", list)
            q, L = z3.Int(fresh_name("q")), LST.fn(fresh_name("part"), I)
            LEN = z3.Function(fresh_name("part_length"), LST.sort, I)
            y = z3.Const("y!", LST.sort)
            E2.axioms.append(z3.ForAll([y], LEN(y) >= 0, patterns=[LEN(y)]))
            LST.methods["__len__"] = lambda E3, o, ar, kw: SNum(LEN(o.t))
            return VList([Seg([(q, a[0].state["n"])], z3.BoolVal(True), E2.tup(SObj(LST, L(q)), None, None, None))], "list", E2.tick())

        def last_get(E2, a, k):
            o, i = a
            of = o.state["of"]
            if i in (0, -4):
                return mkst(E2, LastItems, of=of)
            return of.state["last"][i - 1 if i > 0 else i]

        def items_append(E2, a, k):
            of = a[0].state["of"]
            upd(E2, of, cnt=of.state["cnt"] + one(z3.And(E2.resolve(a[1]).t == watch.t, ctx_ok(of.state["last"]))))

        def chunks_append(E2, a, k):
            upd(E2, a[0], cnt=a[0].state["cnt"] + count(a[1]), n=a[0].state["n"] + 1)

        run = E.rec = {}

        def chunks_iter(E2, a, k):
            o = a[0]
            E2.prove("every candidate is in exactly one chunk, once and with its own data, and nothing else is", o.state["cnt"] == one(real))
            if "n" not in run:
                run["n"], run["at"] = o.state["n"], CH.fn(fresh_name("chunk_at"), I)
            q = z3.Int(fresh_name("q"))
            return VList([Seg([(q, run["n"])], z3.BoolVal(True), SObj(CH, run["at"](q)))], "list", E2.tick())

        length = lambda E2, a, k: SNum(a[0].state["n"])
        E.contracts.update({Chunk.append: chunk_append, Chunk.__getitem__: chunk_get, Chunk.__iter__: chunk_iter, Chunk.__len__: length, Last.__getitem__: last_get, LastItems.append: items_append, Chunks.append: chunks_append, Chunks.__iter__: chunks_iter, Chunks.__len__: length})

        # the steps around the chunks, by their contracts
        B = basic.BasicEnumerator
        init = [E.obj(D, nm) for nm in ("entries", "precursors", "targets", "open_entries")]
        E.contracts[B._get_initialized_entries] = lambda E2, a, k: E2.tup(*init)
        combos = VDict([Seg([(c, None)], HAS(c), E.tup(SObj(CS, c), SObj(COMBOS, COMB(c))))], E.tick())
        combos.meta = {"distinct": True}
        E.contracts[B._get_combos_dict] = lambda E2, a, k: combos
        opens = E.choose([(None, z3.BoolVal(True)), ("some", z3.BoolVal(True))])
        OPEN = None if opens is None else E.obj(Kind("OpenCombos", None), "open_combos")
        E.contracts[B._get_open_combos] = lambda E2, a, k: OPEN

        def length_of(E2, a, k):
            v = z3.Function("iter_length", COMBOS.sort, I)
            y = z3.Const("y!", COMBOS.sort)
            E2.axioms.append(z3.ForAll([y], v(y) >= 0, patterns=[v(y)]))
            return SNum(v(E2.resolve(a[0]).t))

        E.contracts[B._rxn_iter_length] = length_of

        def candidates(E2, a, k):
            o = E2.resolve(a[0])
            q = z3.Int(fresh_name("q"))
            return VList([Seg([(q, NCAND(o.t))], z3.BoolVal(True), SObj(IT, CAND(o.t, q)))], "iter", E2.tick())

        E.contracts[B._get_rxn_iterable] = candidates

        def tasks(E2, a, k):
            l = E2.iterate(a[0])
            return VList([Seg(s.dims, s.guard, SObj(RES_, RESULTS(s.elem.t))) for s in l.segs if isinstance(s, Seg)], "list", E2.tick(), True)

        REACT = RR.fn("react_task", CH.sort)
        RESULTS, NRES, AT = RES_.fn("results_of", RR.sort), z3.Function("number_of_results", RES_.sort, I), RXN_.fn("result_at", RES_.sort, I)
        y = z3.Const("y!", RES_.sort)
        E.axioms.append(z3.ForAll([y], NRES(y) >= 0, patterns=[NRES(y)]))

        def res_iter(E2, o):
            q = z3.Int(fresh_name("q"))
            return VList([Seg([(q, NRES(o.t))], z3.BoolVal(True), SObj(RXN_, AT(o.t, q)))], "list", E2.tick())

        RES_.iter = res_iter
        E.contracts[basic.to_iterator] = tasks
        E.contracts[basic.initialize_ray] = lambda E2, a, k: None
        settings = dict(chunk_size=E.int("chunk_size"), max_num_jobs=E.int("max_num_jobs"), remove_unbalanced=E.bool("ru"), remove_changed=E.bool("rc"), max_num_constraints=E.int("mc"), filter_duplicates=E.bool("fd"),
                        _p_set_func="issuperset", _t_set_func="intersection", quiet=True, _build_pd=built, _build_grand_pd=gbuilt, open_phases=None)
        E.assume(z3.And(settings["chunk_size"].t >= 1, settings["max_num_jobs"].t >= 1))
        me = VObj(B, dict(settings), E.tick())
        react_function = E.getattr(me, "_react_function")

        def react_remote(E2, a, k):
            names = ["chunk", "react_function", "open_entries", "p", "t", "p_set_func", "t_set_func", "remove_unbalanced", "remove_changed", "max_num_constraints"]
            import inspect
            names = list(inspect.signature(r26._fn(basic._react)).parameters)
            got = {**dict(zip(names, a)), **k}
            want = dict(zip(names[2:], [init[3], init[1], init[2], "issuperset", "intersection", settings["remove_unbalanced"], settings["remove_changed"], settings["max_num_constraints"]]))
            E2.prove("every chunk runs with the settings", z3.And(*[E2.zb(E2.truth(E2.eq(got[n], w))) for n, w in want.items()]))
            return SObj(RR, REACT(E2.resolve(got[names[0]]).t))

        E.contracts[r26._fn(basic._react)] = react_remote
        finished = []

        def from_rxns(E2, a, k):
            a = [v for v in a if not isinstance(v, type)]
            k = {**dict(zip(("rxns", "entries"), a)), **k}
            out = E2.resolve(k["rxns"])
            segs = [s for s in E2.iterate(out).segs if not (isinstance(s, Conc) and not s.items)]
            finished.append(1)
            if "n" not in run:
                raise Undecided("chunks are run in another way")
            if len(segs) != 1 or not isinstance(segs[0], Seg) or len(segs[0].dims) != 2:
                raise Undecided("form of the results")
            (v, hv), (i, hi) = segs[0].dims
            q, j = idx(E2, run["n"], "chunk"), E2.fresh("result", I)
            inst = lambda t: z3.substitute(t, (v, q), (i, j))
            E2.prove("the results of every chunk", z3.And(inst(hv) == run["n"], inst(segs[0].guard), inst(hi) == NRES(RESULTS(REACT(run["at"](q))))))
            E2.prove("every result, once", inst(segs[0].elem.t) == AT(RESULTS(REACT(run["at"](q))), j))
            E2.prove("with the entries", E2.zb(E2.truth(E2.eq(k.get("entries"), init[0]))))
            E2.prove("duplicates filtered as asked", E2.zb(E2.truth(k.get("filter_duplicates", False))) == settings["filter_duplicates"].t)
            return E2.obj(D, "result")

        E.contracts[basic.ReactionSet.from_rxns.__func__] = from_rxns

        # loops: the count of the watched candidate
        node = lambda: func_ast(B.enumerate)

        def uses(n, *names):
            import ast
            ids = {w.id for w in ast.walk(n) if isinstance(w, ast.Name)}
            return all(nm in ids for nm in names)

        def objs(fr):
            fs = {nm: E.find_frame(fr, nm) for nm in ("to_run", "current_chunk")}
            if not all(fs.values()):
                raise Undecided("no chunks under construction")
            return [E.resolve(f.vars[nm]) for nm, f in fs.items()]

        def havoc(E, fr, inner):
            r, cur = E.find_frame(fr, "to_run"), E.find_frame(fr, "current_chunk")
            if not r or not cur:
                raise Undecided("no chunks under construction")
            new = []
            for f, nm, cls in ((r, "to_run", Chunks), (cur, "current_chunk", Chunk)):
                o = mkst(E, cls, cnt=E.fresh("count", I), n=E.fresh("length", I))
                if cls is Chunk:
                    o.state["last"] = list(E.inner_ctx) if inner else [Poison("part of an earlier round")] * 3
                E.set_var_in(f, nm, o)
                new.append(o)
            E.set_var_in(E.find_frame(fr, "current_chunk_length") or cur, "current_chunk_length", E.int("current_length") if inner else Poison("length of an earlier chunk"))
            return new + [E.find_frame(fr, "current_chunk_length").vars["current_chunk_length"]]

        def wellformed(fr, inner):
            r, cur = objs(fr)
            out = [("nothing is counted in empty chunks", z3.And(size(r) >= 0, size(cur) >= 0, count(r) >= 0, count(cur) >= 0, z3.Implies(size(cur) == 0, count(cur) == 0)))]
            if inner:
                out.append(("a part of the chunk is open", size(cur) > 0))
                last = cur.state["last"] if isinstance(cur, St) else [E.resolve(v) for v in E.resolve(cur.items()[-1]).items()[1:]] if cur.items() else [None] * 3
                out.append(("for the data of this system", ctx_same(last, E.inner_ctx)))
            return out

        def ctx_same(a, b):
            out = []
            for u, v in zip(a, b):
                u, v = E.resolve(u), E.resolve(v)
                out.append(u.t == v.t if isinstance(u, SObj) and isinstance(v, SObj) and u.kind is v.kind else z3.BoolVal(u is v))
            return z3.And(*out)

        def inv_outer(E, fr, done):
            r, cur = objs(fr)
            (v, _), = done.dims
            h = lambda s: z3.And(z3.substitute(done.guard, (v, s)), done.pred([s]))
            E.handled = h
            return [*wellformed(fr, False), ("candidates of the systems handled are in one chunk each", count(r) + count(cur) == one(z3.And(real, h(own))))]

        def inv_inner(E, fr, done):
            r, cur = objs(fr)
            if done.count is None:
                raise Undecided("candidates out of order")
            f = E.find_frame(fr, "chemsys")
            here = E.resolve(f.vars["chemsys"]).t if f else None
            if here is None:
                raise Undecided("no current system")
            return [*wellformed(fr, True), ("candidates handled are in one chunk each", count(r) + count(cur) == one(z3.And(real, z3.Or(E.before(own), z3.And(own == here, pos < done.count)))))]

        def pick_outer(E, n, fr):
            import ast
            return n in node().body and isinstance(n, ast.For) and uses(n, "current_chunk", "to_run") and any(isinstance(w, ast.For) for b in n.body for w in ast.walk(b))

        def pick_inner(E, n, fr):
            import ast
            if not (isinstance(n, ast.For) and n not in node().body and uses(n, "current_chunk", "to_run")):
                return False
            E.before = E.handled
            vs = [E.find_frame(fr, nm) for nm in ("filtered_entries", "pd", "grand_pd")]
            if not all(vs):
                raise Undecided("no data of the current system")
            E.inner_ctx = [E.resolve(f.vars[nm]) for f, nm in zip(vs, ("filtered_entries", "pd", "grand_pd"))]
            return True

        E.loop_hooks = [invariant_rule(node, pick_outer, lambda E, fr: havoc(E, fr, False), inv_outer, "systems"),
                        invariant_rule(node, pick_inner, lambda E, fr: havoc(E, fr, True), inv_inner, "candidates")]
        E.call_method(me, "enumerate", [E.obj(D, "given")], {})
        E.cover("reachable")
        E.prove("a reaction set is built from the results", z3.BoolVal(bool(finished)))


enumeration(False)
