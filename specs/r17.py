"""R17: Pareto fronts.  numpy's arrays are modelled as rows of the table selected by an index function; boolean indexing selects
the marked rows in order (trusted numpy semantics)."""
from specs.common import *  # noqa: F403
import numpy as np

from pyvc.interp import func_ast
from pyvc.loops import while_rule
from pyvc.models import REGISTRY, model
from rxn_network.costs import pareto

T = "rxn_network.costs.pareto:"


class Table:  # rows x columns of numbers
    def __len__(self): ...
    def __getitem__(self, i): ...
    def __lt__(self, o): ...
    def __le__(self, o): ...
    def __gt__(self, o): ...
    def __ge__(self, o): ...


class Row: ...


class Less:  # table < row
    ...


class Mask:
    def __getitem__(self, i): ...
    def __setitem__(self, i, v): ...
    def __len__(self): ...


class Index:
    def __getitem__(self, i): ...
    def __len__(self): ...


class Prefix: ...


class Arr(VObj):
    __slots__ = ("state",)


def obj(E, cls, **attrs):
    o = Arr(cls, {k: v for k, v in attrs.items() if k == "shape"}, E.tick())
    o.state = {k: v for k, v in attrs.items() if k != "shape"}
    return o


def setstate(E, o, **kw):
    old = dict(o.state)
    E.record(lambda: setattr(o, "state", old))
    o.state = {k: v for k, v in {**o.state, **kw}.items() if k != "ranks"}
    E.effects.append(("setattr", o, ("state", None)))


class World:
    def __init__(self, E):
        self.E = E
        self.n, self.d = E.int("rows").t, E.int("columns").t
        E.assume(z3.And(self.n >= 0, self.d >= 1))
        self.C = z3.Function(fresh_name("cost"), I, I, R)
        c = z3.Int("c!")
        # row a is no worse than row b in every column
        self.LEQ = z3.Function(fresh_name("no_worse"), I, I, z3.BoolSort())
        a, b = z3.Ints("a! b!")
        E.axioms.append(z3.ForAll([a, b], self.LEQ(a, b) == z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < self.d), self.C(a, c) <= self.C(b, c))), patterns=[self.LEQ(a, b)]))

    def table(self, m, row):
        return obj(self.E, Table, m=m, row=row, shape=self.E.tup(SNum(m), SNum(self.d)))


def numpy_models(E, w):
    def only(x, cls, what):
        x = E.resolve(x)
        if not (isinstance(x, VObj) and x.cls is cls):
            raise Undecided(f"{what} of {x!r}")
        return x

    def inside(i, m):
        E.prove("index within the array", z3.And(i >= 0, i < m))
        return i

    def table_get(E2, a, k):
        t, i = a[0], E.resolve(a[1])
        if isinstance(i, VObj) and i.cls is Mask:
            m, sel = compress(E, t.state["m"], i)
            row = t.state["row"]
            return w.table(m, lambda q: row(sel(q)))
        i = inside(E.num(i), t.state["m"])
        return obj(E, Row, of=t.state["row"](i))

    def index_get(E2, a, k):
        t, i = a[0], only(a[1], Mask, "selection")
        m, sel = compress(E, t.state["m"], i)
        at = t.state["at"]
        return obj(E, Index, m=m, at=lambda q: at(sel(q)))

    def compare(op):
        def f(E2, a, k):
            t, r = a[0], only(a[1], Row, "comparison")
            return obj(E, Less, m=t.state["m"], row=t.state["row"], than=r.state["of"], op=op)
        return f

    def mask_get(E2, a, k):
        m, s = a[0], a[1]
        if type(s).__name__ != "VSlice" and not isinstance(s, slice):
            return SBool(m.state["bit"](inside(E.num(s), m.state["m"])))
        if s.start is not None or s.step is not None:
            raise Undecided("slice")
        return obj(E, Prefix, mask=m, end=E.num(s.stop))

    def mask_set(E2, a, k):
        m, i, v = a[0], E.resolve(a[1]), E.zb(E.truth(a[2]))
        bit = m.state["bit"]
        if isinstance(i, VObj) and i.cls is Index:
            at, n = i.state["at"], i.state["m"]
            q = z3.Int(fresh_name("q"))
            E.prove("indices within the array", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(at(q) >= 0, at(q) < m.state["m"]))))
            setstate(E, m, bit=lambda x: z3.If(z3.Exists([q], z3.And(0 <= q, q < n, at(q) == x)), v, bit(x)))
        else:
            i = inside(E.num(i), m.state["m"])
            setstate(E, m, bit=lambda x: z3.If(x == i, v, bit(x)))

    length = lambda E2, a, k: SNum(a[0].state["m"])
    E.contracts.update({Table.__getitem__: table_get, Table.__lt__: compare("<"), Table.__le__: compare("<="), Table.__gt__: compare(">"), Table.__ge__: compare(">="), Mask.__getitem__: mask_get, Mask.__setitem__: mask_set, Index.__getitem__: index_get,
                        Table.__len__: length, Mask.__len__: length, Index.__len__: length})
    names = {}

    def over(fn, f):
        old = REGISTRY.get(id(fn))

        def wrapped(E2, a, k):
            r = f(*a, **k)
            return old(E2, a, k) if r is NotImplemented and old else r
        names[id(fn)] = old
        REGISTRY[id(fn)] = wrapped

    def reduction(every):
        def f(x, axis=None):
            x = E.resolve(x)
            if not (isinstance(x, VObj) and x.cls is Less):
                return NotImplemented
            if axis not in (1, -1):
                raise Undecided("axis")
            B = z3.Function(fresh_name("marked"), I, z3.BoolSort())
            i, c = z3.Int(fresh_name("i")), z3.Int(fresh_name("c"))
            row, than, op = x.state["row"], x.state["than"], x.state["op"]
            u, v = w.C(row(i), c), w.C(than, c)
            rng = z3.And(0 <= c, c < w.d)
            rel = {"<": u < v, "<=": u <= v, ">": u > v, ">=": u >= v}[op]
            known = {(False, "<"): z3.Not(w.LEQ(than, row(i))), (False, ">"): z3.Not(w.LEQ(row(i), than)), (True, "<="): w.LEQ(row(i), than), (True, ">="): w.LEQ(than, row(i))}
            f = known.get((every, op))
            if f is None:
                f = z3.ForAll([c], z3.Implies(rng, rel)) if every else z3.Exists([c], z3.And(rng, rel))
            E.define(z3.ForAll([i], B(i) == f, patterns=[B(i)]))
            return obj(E, Mask, m=x.state["m"], bit=lambda q: B(q))
        return f

    def np_sum(x, **k):
        x = E.resolve(x)
        if not (isinstance(x, VObj) and x.cls in (Prefix, Mask)):
            return NotImplemented
        m = x.state["mask"] if x.cls is Prefix else x
        rank, _, _ = ranks(E, m.state["m"], m)
        end = x.state["end"] if x.cls is Prefix else m.state["m"]
        E.prove("prefix within the array", z3.And(end >= 0, end <= m.state["m"]))
        return SNum(rank(end))

    def np_arange(n, **k):
        n = E.num(n)
        return obj(E, Index, m=n, at=lambda q: q)

    def np_zeros(n, dtype=float):
        if dtype is not bool:
            return NotImplemented
        return obj(E, Mask, m=E.num(n), bit=lambda q: z3.BoolVal(False))

    for fn, f in ((np.any, reduction(False)), (np.all, reduction(True)), (np.sum, np_sum), (np.count_nonzero, np_sum), (np.arange, np_arange), (np.zeros, np_zeros)):
        over(fn, f)


def ranks(E, m, mask):
    """the number of marked positions before a position, and the positions of the marked ones in order"""
    old = mask.state
    if "ranks" not in old:
        E.record(lambda: setattr(mask, "state", old))
        mask.state = {**old, "ranks": new_ranks(E, m, old["bit"])}
    return mask.state["ranks"]


def new_ranks(E, m, bit):
    rank, sel = z3.Function(fresh_name("rank"), I, I), z3.Function(fresh_name("selected"), I, I)
    i, j, k, l = (z3.Int(fresh_name(x)) for x in "ijkl")
    E.define(z3.And(rank(0) == 0, rank(m) >= 0, rank(m) <= m))
    E.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < rank(m)), z3.And(0 <= sel(k), sel(k) < m, bit(sel(k)), rank(sel(k)) == k)), patterns=[sel(k)]))
    E.define(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m, bit(i)), z3.And(sel(rank(i)) == i, 0 <= rank(i), rank(i) < rank(m))), patterns=[rank(i)]))
    E.define(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < rank(m)), sel(k) < sel(l)), patterns=[z3.MultiPattern(sel(k), sel(l))]))
    E.define(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= m), z3.And(rank(i) <= rank(j), rank(j) - rank(i) <= j - i, rank(i) >= 0, z3.Implies(z3.And(i < j, bit(i)), rank(i) < rank(j)))), patterns=[z3.MultiPattern(rank(i), rank(j))]))
    return rank, sel, bit


def compress(E, m, mask):
    E.prove("mask as long as the array", mask.state["m"] == m)
    rank, sel, bit = ranks(E, m, mask)
    E.last_ranks = (rank, bit)
    return rank(m), lambda q: sel(q)


@contract("the front is the set of points no other point dominates, each once", [T + "is_pareto_efficient"], budget=200)
def _(E):
    w = World(E)
    numpy_models(E, w)
    n = w.n
    trans = E.fresh("x", I), E.fresh("y", I), E.fresh("z", I)
    E.prove("no worse than is transitive", z3.Implies(z3.And(w.LEQ(trans[0], trans[1]), w.LEQ(trans[1], trans[2])), w.LEQ(trans[0], trans[2])))
    x, y, z = z3.Ints("x! y! z!")
    E.define(z3.ForAll([x, y, z], z3.Implies(z3.And(w.LEQ(x, y), w.LEQ(y, z)), w.LEQ(x, z)), patterns=[z3.MultiPattern(w.LEQ(x, y), w.LEQ(y, z))]))
    pts = w.table(n, lambda q: q)

    def state(fr):
        fs = {nm: E.find_frame(fr, nm) for nm in ("is_efficient", "costs", "next_point_index")}
        if not all(fs.values()):
            raise Undecided("no current rows, indices and position")
        return {nm: E.resolve(f.vars[nm]) for nm, f in fs.items()}

    def inv(E, fr):
        s = state(fr)
        if not isinstance(s["costs"], VObj) or s["costs"].cls is not Table or not isinstance(s["is_efficient"], VObj) or s["is_efficient"].cls is not Index:
            raise Undecided("form of the rows and indices")
        (m, row), (mi, at), p = (s["costs"].state["m"], s["costs"].state["row"]), (s["is_efficient"].state["m"], s["is_efficient"].state["at"]), E.num(s["next_point_index"])
        i, j, k = z3.Int("i!"), z3.Int("j!"), z3.Int("k!")
        # the row that is left and matches point k (ghost): itself as long as it is left, the row of this round after
        match = E.ghost
        if E.last_ranks:
            rank, bit = E.last_ranks
            match = lambda x, g=E.ghost, p0=E.ghost_p: z3.If(bit(g(x)), rank(g(x)), rank(p0))
        return [("as many indices as rows", z3.And(m == mi, 0 <= p, p <= m, m <= n, z3.Implies(n > 0, m > 0))),
                ("indices belong to their rows", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(at(i) == row(i), 0 <= row(i), row(i) < n)))),
                ("indices in order", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), row(i) < row(j)))),
                ("points handled are not as good as any other left", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < p, 0 <= j, j < m, i != j), z3.Not(w.LEQ(row(i), row(j)))))),
                ("every point is matched by one left", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= match(k), match(k) < m, w.LEQ(row(match(k)), k)))))]

    def havoc(E, fr):
        m, p = E.fresh("m", I), E.fresh("p", I)
        rw, gh = z3.Function(fresh_name("row"), I, I), z3.Function(fresh_name("match"), I, I)
        E.ghost, E.ghost_p, E.last_ranks = (lambda x: gh(x)), p, None
        w.final, w.ghost = (lambda x: rw(gh(x))), (lambda x: gh(x))
        new = {"costs": w.table(m, lambda q: rw(q)), "is_efficient": obj(E, Index, m=m, at=lambda q: rw(q)), "next_point_index": SNum(p), "nondominated_point_mask": Poison("mask of an earlier round")}
        for nm, v in new.items():
            f = E.find_frame(fr, nm)
            if f is not None:
                E.set_var_in(f, nm, v)

    variant = lambda E, fr: (lambda s: s["costs"].state["m"] - E.num(s["next_point_index"]))(state(fr))
    E.ghost, E.last_ranks = (lambda x: x), None
    w.final = w.ghost = lambda x: x
    node = lambda: func_ast(pareto.is_pareto_efficient)
    E.loop_hooks = [while_rule(lambda E, x, fr: x in node().body, havoc, inv, variant, "rows")]
    mask = E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
    out = E.resolve(E.call(pareto.is_pareto_efficient, [pts], {"return_mask": mask}))
    E.cover("reachable")
    if not isinstance(out, VObj) or out.cls is not (Mask if mask else Index):
        raise Undecided("form of the result")
    q = z3.Int("q!")
    if mask:
        E.prove("one mark per row", out.state["m"] == n)
        rep = lambda x: out.state["bit"](x)
    else:
        at, m = out.state["at"], out.state["m"]
        E.prove("indices of rows", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < m), z3.And(at(q) >= 0, at(q) < n))))
        rep = lambda x: z3.Exists([q], z3.And(0 <= q, q < m, at(q) == x))
    a, b, c = idx(E, n, "a"), idx(E, n, "b"), z3.Int("c!")
    LT = lambda x, y: z3.And(w.LEQ(x, y), z3.Not(w.LEQ(y, x)))
    E.prove("no point is reported twice", z3.Implies(z3.And(rep(a), rep(b), a != b), z3.Not(z3.And(w.LEQ(a, b), w.LEQ(b, a)))))
    g = w.final(a)
    E.prove("every point left out is dominated by or has the metrics of a reported one", z3.Implies(z3.Not(rep(a)), z3.And(0 <= g, g < n, rep(g), w.LEQ(g, a))))
    E.hint_idx = [*E.hint_idx, w.ghost(b)]
    if mask:
        E.assume(rep(a))
        E.prove("no reported point is dominated", z3.Not(LT(b, a)))
    else:
        r = idx(E, m, "r")
        E.prove("no reported point is dominated", z3.Not(LT(b, at(r))))


@contract("the front of a table is its rows marked by the points of the given metrics", [T + "get_pareto_front"])
def _(E):
    DF, PTS, MARK = Kind("Frame", None), Kind("Points", None), Kind("Marks", None)
    COLS, SELROWS, MARKS, VALS = DF.fn("columns_of", DF.sort, I), DF.fn("rows_of", DF.sort, MARK.sort), MARK.fn("front_marks", PTS.sort), PTS.fn("values", DF.sort)
    metrics = E.choose([(("energy", "primary_competition", "secondary_competition"), z3.BoolVal(True)), (("a",), z3.BoolVal(True))])

    def get(E2, d, i):
        i = E2.resolve(i)
        if isinstance(i, SObj) and i.kind is MARK:
            return SObj(DF, SELROWS(d.t, i.t))
        cols = [E2.resolve(x) for x in i.items()] if isinstance(i, VList) else list(i)
        if cols != list(metrics):
            E2.prove("the columns of the metrics", z3.BoolVal(False))
        return SObj(DF, COLS(d.t, z3.IntVal(0)))

    DF.getitem = get
    DF.methods["__getitem__"] = lambda E2, d, a, k: get(E2, d, a[0])
    DF.methods["copy"] = lambda E2, d, a, k: d
    DF.methods["to_numpy"] = lambda E2, d, a, k: SObj(PTS, VALS(d.t))

    def front(E2, a, k):
        a, k = list(a), dict(k)
        p = a[0] if a else k["costs"]
        m = a[1] if len(a) > 1 else k.get("return_mask", True)
        E2.prove("a mask is asked for", E2.zb(E2.truth(m)))
        return SObj(MARK, MARKS(p.t))

    E.contracts[pareto.is_pareto_efficient] = front
    d = E.obj(DF, "df")
    kw = {} if len(metrics) == 3 else {"metrics": metrics}
    out = E.resolve(E.call(pareto.get_pareto_front, [d], kw))
    E.cover("reachable")
    E.prove("the marked rows of the table", out.t == SELROWS(d.t, MARKS(VALS(COLS(d.t, z3.IntVal(0))))))
