"""R07: duplicate filtering.  Rows of a table of coefficients are known by their position; a row is a positive multiple of another
exactly when both are equal after division by the size of their first coefficient."""
from specs.common import *  # noqa: F403
import ast

import numpy as np
from pyvc.interp import func_ast
from pyvc.loops import invariant_rule
from pyvc.models import REGISTRY
from rxn_network.reactions import reaction_set as rs
from specs.r22 import Marks, Positions, St, mk, positions_of, unwrapped, upd  # noqa: F401

VEC = Kind("ScaledRow", tuple)
T = "rxn_network.reactions.reaction_set:"


class Rows:
    def __getitem__(self, i): ...
    def __iter__(self): ...
    def __len__(self): ...
    def __truediv__(self, o): ...
    def sum(self, axis=None): ...


class Row:
    def __getitem__(self, i): ...


class Ratios: ...


class Table:  # rows x columns of truth values
    def all(self, axis=None): ...


class World:
    def __init__(self, E):
        self.E = E
        self.n, self.d = E.int("rows").t, E.int("columns").t
        E.assume(z3.And(self.n >= 0, self.d >= 1))
        self.CELL, self.NRM, self.S = z3.Function(fresh_name("coef"), I, I, R), z3.Function(fresh_name("scaled"), I, I, R), z3.Function(fresh_name("size"), I, R)
        i, j, k, c = z3.Ints("i! j! k! c!")
        inr, inc = z3.And(0 <= i, i < self.n), z3.And(0 <= c, c < self.d)
        # precondition: coefficients of a stored reaction are not zero
        E.axioms += [z3.ForAll([i, c], z3.And(self.CELL(i, c) != 0, self.CELL(i, c) == self.NRM(i, c) * self.S(i), self.S(i) > 0), patterns=[self.CELL(i, c)]),
                     z3.ForAll([i], self.S(i) == z3.If(self.CELL(i, 0) > 0, self.CELL(i, 0), -self.CELL(i, 0)), patterns=[self.S(i)])]
        # the class of a row: its scaled coefficients as one value (equal values agree in every column and conversely)
        self.CLS = VEC.fn(fresh_name("scaled_row"), I)
        self.perm = None

    def rows(self, m, at):
        return mk(self.E, Rows, {"shape": self.E.tup(SNum(m), SNum(self.d))}, m=m, at=at)

    def models(self):
        E, w = self.E, self

        def pos_get(E2, a, k):
            o, i = a[0], E2.resolve(a[1])
            m, at = o.state["m"], o.state["at"]
            if isinstance(i, St) and i.cls is Positions:
                f = i.state["at"]
                q = z3.Int(fresh_name("q"))
                E2.prove("positions within the array", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i.state["m"]), z3.And(0 <= f(q), f(q) < m))))
                part = None
                if "rank" in i.state and "whole" in o.state:
                    part = (i.state["bit"], i.state["rank"], 0)
                    by = i.state["bit"].__dict__.get("by")
                    if by is not None:
                        # instances at the row itself
                        x, rk = w.perm[1](by), i.state["rank"]
                        E2.define(z3.And(0 <= x, x < w.n, w.perm[0](x) == by))
                        E2.define(z3.Implies(i.state["bit"](x), z3.And(f(rk(x)) == x, 0 <= rk(x), rk(x) < i.state["m"])))
                        w.group0 = at(f(z3.IntVal(0)))
                return mk(E2, Positions, {"shape": E2.tup(SNum(i.state["m"]))}, m=i.state["m"], at=lambda x: at(f(x)), part=part)
            if isinstance(i, slice) or type(i).__name__ == "VSlice":
                if i.start != 1 or i.stop is not None or i.step is not None:
                    raise Undecided("slice")
                E2.prove("not empty", m > 0)
                p = o.state.get("part")
                return mk(E2, Positions, {}, m=m - 1, at=lambda x: at(x + 1), part=p and (p[0], p[1], p[2] + 1))
            t = E2.num(i)
            E2.prove("index within the array", z3.And(t >= 0, t < m))
            return SNum(at(t))

        def rows_get(E2, a, k):
            o, i = a[0], E2.resolve(a[1])
            at, m = o.state["at"], o.state["m"]
            if isinstance(i, St) and i.cls is Positions:
                f = i.state["at"]
                q = z3.Int(fresh_name("q"))
                E2.prove("positions within the table", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i.state["m"]), z3.And(0 <= f(q), f(q) < m))))
                return w.rows(i.state["m"], lambda x: at(f(x)))
            raise Undecided("part of a table")

        def it(elem):
            def f(E2, a, k):
                q = z3.Int(fresh_name("q"))
                return VList([Seg([(q, a[0].state["m"])], z3.BoolVal(True), elem(E2, a[0].state["at"](q)))], "list", E2.tick())
            return f

        def pos_iter(E2, a, k):
            p = a[0].state.get("part")
            if p is None:
                return it(lambda E2, t: SNum(t))(E2, a, k)
            # the rows at the selected places, from the p-th on
            x, Q = z3.Int(fresh_name("x")), w.perm[1]
            bit, rank, low = p
            return VList([Seg([(x, None)], z3.And(0 <= x, x < w.n, bit(Q(x)), rank(Q(x)) >= low), SNum(x))], "list", E2.tick(), True, True)

        def divide(E2, a, k):
            r = E2.resolve(a[1])
            if not (isinstance(r, SObj) and r.kind is ROWK):
                raise Undecided("ratio")
            return mk(E2, Ratios, {}, m=a[0].state["m"], at=a[0].state["at"], by=r.t)

        def along(E2, a, k):
            k = {**dict(zip(("func1d", "axis", "arr"), a)), **k}
            t = E2.resolve(k["arr"])
            if not (isinstance(t, St) and t.cls is Ratios) or k["axis"] != 1:
                raise Undecided("np.apply_along_axis")
            q, c = E2.fresh("row", I), E2.fresh("column", I)
            at, by = t.state["at"], t.state["by"]
            E2.define(z3.And(0 <= q, q < t.state["m"], 0 <= c, c < w.d)) if False else None
            x = z3.Int(fresh_name("x"))

            def body():
                vec = VList([Seg([(x, w.d)], z3.BoolVal(True), SNum(w.CELL(at(q), x) / w.CELL(by, x), True))], "ndarray", E2.tick())
                o = E2.resolve(E2.call(k["func1d"], [vec], {}))
                return E2.truth(E2.index(o, SNum(c)))
            f = E2.zb(E2.merge_bool(E2.generic([q, c], z3.And(0 <= q, q < t.state["m"], 0 <= c, c < w.d), body)))
            return mk(E2, Table, {}, m=t.state["m"], at=at, by=by, f=f, q=q, c=c)

        def table_all(E2, a, k):
            o = a[0]
            if k.get("axis", a[1] if len(a) > 1 else None) not in (1, -1):
                raise Undecided("axis")
            q, c, at, by = (o.state[x] for x in ("q", "c", "at", "by"))
            # the marked rows are the positive multiples: proved at an arbitrary row and column, for every column by generalization
            rng = z3.And(0 <= q, q < o.state["m"], 0 <= c, c < w.d)
            # in terms of the first coefficients u, v and the scaled ones (c times a size is the coefficient)
            u, v, x, y = (z3.Real(fresh_name(nm)) for nm in "uvxy")
            size = lambda t: z3.If(t > 0, t, -t)
            f = z3.substitute(o.state["f"], (w.CELL(at(q), c), x * size(u)), (w.CELL(by, c), y * size(v)), (w.CELL(at(q), z3.IntVal(0)), u), (w.CELL(by, z3.IntVal(0)), v))
            if any(w.CELL.name() == d.decl().name() for d in subterms(f)):
                E2.prove("a column agrees exactly when the scaled coefficients do", z3.Implies(rng, o.state["f"] == (w.NRM(by, c) == w.NRM(at(q), c))))
            else:
                E2.prove("a column agrees exactly when the scaled coefficients do", z3.Implies(z3.And(u != 0, v != 0, x != 0, y != 0), f == (x == y)))
            bit = lambda t: w.CLS(by) == w.CLS(at(t))
            bit.by = by
            return mk(E2, Marks, {}, m=o.state["m"], bit=bit)

        def argsort(E2, a, k):
            o = E2.resolve(a[0])
            if w.perm is None:
                P, Q = z3.Function(fresh_name("sorted"), I, I), z3.Function(fresh_name("rank_of"), I, I)
                i = z3.Int("i!")
                E2.define(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.n), z3.And(0 <= P(i), P(i) < w.n, Q(P(i)) == i)), patterns=[P(i)]))
                E2.define(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.n), z3.And(0 <= Q(i), Q(i) < w.n, P(Q(i)) == i)), patterns=[Q(i)]))
                w.perm = P, Q
            if E2.num(E2.length(o)) is not None:
                E2.prove("one key per row", E2.num(E2.length(o)) == w.n)
            P = w.perm[0]
            return mk(E2, Positions, {"shape": E2.tup(SNum(w.n))}, m=w.n, at=lambda x: P(x), whole=True)

        def argwhere(E2, a, k):
            v = E2.resolve(a[0])
            if isinstance(v, St) and v.cls is Marks:
                return positions_of(E2, v.state["m"], v.state["bit"])
            raise Undecided("np.argwhere")

        def npabs(E2, a, k):
            v = E2.resolve(a[0])
            return v if isinstance(v, St) and v.cls is Rows else REGISTRY[id(np.abs)](E2, a, k)

        def rowsum(E2, a, k):
            if k.get("axis", a[1] if len(a) > 1 else None) not in (1, -1):
                raise Undecided("axis")
            return E2.seq(fresh_name("key"), a[0].state["m"], lambda q: SNum(z3.Function("row_key", I, R)(q), True), "ndarray")

        ROWK = w.ROWK = Kind("CoefRow", None)
        ROWK = w.ROWK
        ID = z3.IntSort()
        length = lambda E2, a, k: SNum(a[0].state["m"])

        class RowOf(SObj):
            pass

        def row(E2, t):
            o = SObj.__new__(SObj)
            o.kind, o.t = ROWK, t
            return o

        E.contracts.update({Positions.__getitem__: pos_get, Rows.__getitem__: rows_get, Positions.__iter__: pos_iter, Rows.__iter__: it(row), Rows.__len__: length, Positions.__len__: length, Rows.__truediv__: divide,
                            Rows.sum: rowsum, Table.all: table_all, Positions.flatten: lambda E2, a, k: a[0], Positions.ravel: lambda E2, a, k: a[0]})
        def isclose(E2, a, k):
            # tolerances taken as exact equality (as in R01)
            return E2.compare(ast.Eq, a[0], a[1])

        E.models = dict(REGISTRY)
        for f, m in ((np.argwhere, argwhere), (np.argsort, argsort), (np.apply_along_axis, along), (np.abs, npabs), (np.isclose, isclose)):
            for g in {f, unwrapped(f)}:
                E.models[id(g)] = lambda E2, a, k, m=m: m(E2, a, k)


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            todo.extend(x.children())


def members(E, o):
    """a list of positions as (predicate, no element twice)"""
    o = E.resolve(o)
    preds, distinct = [], []
    for s in o.segs:
        if isinstance(s, Conc):
            for x in s.items:
                t = E.num(x)
                distinct += [z3.Not(p(t)) for p in preds]
                preds.append(lambda v, t=t: v == t)
        else:
            vs = [v for v, _ in s.dims]
            dom = [z3.And(*[z3.And(v >= 0, v < hi) for v, hi in s.dims if hi is not None]), s.guard]
            e = E.num(s.elem)

            def p(x, vs=vs, dom=dom, e=e):
                fs = [z3.Int(fresh_name("m")) for _ in vs]
                sb = list(zip(vs, fs))
                if len(vs) == 1 and e.eq(vs[0]):
                    return z3.substitute(z3.And(*dom), (vs[0], x))
                return z3.Exists(fs, z3.And(z3.substitute(z3.And(*dom), *sb), z3.substitute(e, *sb) == x))
            x = z3.Int(fresh_name("x"))
            distinct += [z3.ForAll([x], z3.Not(z3.And(p(x), q(x)))) for q in preds]
            if not (len(vs) == 1 and e.eq(vs[0])):
                f1, f2 = [z3.Int(fresh_name("m")) for _ in vs], [z3.Int(fresh_name("m")) for _ in vs]
                s1, s2 = list(zip(vs, f1)), list(zip(vs, f2))
                distinct.append(z3.ForAll(f1 + f2, z3.Implies(z3.And(z3.substitute(z3.And(*dom), *s1), z3.substitute(z3.And(*dom), *s2), z3.substitute(e, *s1) == z3.substitute(e, *s2)), z3.And(*[u == v for u, v in zip(f1, f2)]))))
            preds.append(p)
    return (lambda x: z3.Or(z3.BoolVal(False), *[p(x) for p in preds])), z3.And(True, *distinct)


def keep(mode):
    @contract(f"of every class of positive multiples exactly one row is kept, or those asked for ({mode})", [T + "_get_idxs_to_keep"], budget=200)
    def _(E):
        w = World(E)
        w.models()
        n = w.n
        ENS = z3.Function(fresh_name("ensured"), I, z3.BoolSort())
        i, j, t = z3.Ints("i! j! t!")
        if mode == "none asked for":
            ens = None
            E.axioms.append(z3.ForAll([i], z3.Not(ENS(i)), patterns=[ENS(i)]))
        else:
            E.axioms.append(z3.ForAll([i], z3.Implies(ENS(i), z3.And(0 <= i, i < n)), patterns=[ENS(i)]))
            x = z3.Int(fresh_name("x"))
            ens = VList([Seg([(x, None)], ENS(x), SNum(x))], "list", E.tick(), False, True)
        inr = lambda v: z3.And(0 <= v, v < n)
        node = lambda: func_ast(rs._get_idxs_to_keep)

        def lists(fr):
            fs = [E.find_frame(fr, nm) for nm in ("to_keep", "to_remove")]
            if not all(fs):
                raise Undecided("no lists of rows kept and removed")
            return [E.resolve(f.vars[nm]) for f, nm in zip(fs, ("to_keep", "to_remove"))]

        VS = VEC.sort
        c = z3.Const("c!", VS)
        FIRST = z3.Function(fresh_name("asked_for_in"), VS, I)  # ghost: one of the rows asked for in a class, if any
        E.axioms.append(z3.ForAll([i], z3.Implies(ENS(i), z3.And(ENS(FIRST(w.CLS(i))), w.CLS(FIRST(w.CLS(i))) == w.CLS(i))), patterns=[ENS(i)]))
        asked = lambda v: z3.And(ENS(FIRST(v)), w.CLS(FIRST(v)) == v)
        E.h, E.rep, E.now = (lambda v: z3.BoolVal(False)), (lambda v: z3.IntVal(0)), None

        def inv(E, fr, done):
            kl, rl = lists(fr)
            if done.count is None or w.perm is None:
                raise Undecided("form of the loop")
            (K, nodup), (Rm, _) = members(E, kl), members(E, rl)
            P, Q = w.perm
            h, rep, cnt = E.h, E.rep, z3.simplify(done.count)
            if E.now is not None and not cnt.eq(E.now) and E.stepping:
                # after one more row, whose class is handled now (ghost)
                new, oh, orep, g0 = w.CLS(P(E.now)), E.h, E.rep, w.group0
                h = lambda v: z3.Or(oh(v), v == new)
                rep = lambda v: z3.If(oh(v), orep(v), z3.If(asked(v), FIRST(v), g0)) if g0 is not None else orep(v)
            E.now = cnt if E.havocked and E.now is None else E.now
            C = w.CLS
            al = lambda f: z3.ForAll([i], z3.Implies(inr(i), f))
            return [("rows kept or removed", z3.ForAll([i], z3.Implies(z3.Or(K(i), Rm(i)), inr(i)))), ("no row is kept twice", nodup),
                    ("rows handled are of classes handled", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < cnt), h(C(P(t)))), patterns=[P(t)])),
                    ("kept rows are of the classes handled", al(z3.Implies(K(i), h(C(i))))), ("removed rows are of the classes handled", al(z3.Implies(Rm(i), z3.And(h(C(i)), z3.Not(K(i)))))),
                    ("the others of a class are removed", al(z3.Implies(z3.And(h(C(i)), z3.Not(K(i))), Rm(i)))),
                    ("a row kept on its own was handled", al(z3.Implies(z3.And(K(i), z3.Not(ENS(i))), Q(i) < cnt))),
                    ("rows asked for are kept", al(z3.Implies(z3.And(h(C(i)), ENS(i)), K(i)))),
                    ("two rows of a class are kept only when asked for", z3.ForAll([i, j], z3.Implies(z3.And(K(i), K(j), C(i) == C(j), i != j), z3.And(ENS(i), ENS(j))))),
                    ("every class handled has a row kept", z3.ForAll([c], z3.Implies(h(c), z3.And(inr(rep(c)), K(rep(c)), C(rep(c)) == c))))]

        def havoc(E, fr):
            kl, rl = lists(fr)
            KF, RF, G, HH = z3.Function(fresh_name("kept"), I, z3.BoolSort()), z3.Function(fresh_name("removed"), I, z3.BoolSort()), z3.Function(fresh_name("representative"), VS, I), z3.Function(fresh_name("handled"), VS, z3.BoolSort())
            for o, f in ((kl, KF), (rl, RF)):
                x = z3.Int(fresh_name("x"))
                E.set_segs(o, [Seg([(x, None)], f(x), SNum(x))])
            E.h, E.rep = (lambda v: HH(v)), (lambda v: G(v))
            E.now, E.havocked, E.stepping = None, True, True
            w.group0 = None
            return [kl, rl]

        inv_now = inv
        E.now, E.havocked, E.stepping = None, False, False
        E.loop_hooks = [invariant_rule(node, lambda E, x, fr: x in node().body, havoc, inv_now, "rows")]
        rows = w.rows(n, lambda q: q)
        args = [rows] if ens is None else [rows, ens]
        out = E.resolve(E.call(rs._get_idxs_to_keep, args, {}))
        E.cover("reachable")
        K, nd = members(E, out)
        a, b = idx(E, n, "a"), idx(E, n, "b")
        E.prove("no row twice", nd)
        E.prove("only rows", z3.ForAll([i], z3.Implies(K(i), inr(i))))
        E.prove("rows asked for are kept", z3.Implies(ENS(a), K(a)))
        C = w.CLS
        E.prove("no kept row is a positive multiple of another, unless both were asked for", z3.Implies(z3.And(K(a), K(b), a != b, C(a) == C(b)), z3.And(ENS(a), ENS(b))))
        g = E.rep(C(a))
        pa = w.perm[1](a)
        E.define(z3.And(0 <= pa, pa < n, w.perm[0](pa) == a))
        E.prove("every row is a positive multiple of a kept one", z3.And(0 <= g, g < n, K(g), C(g) == C(a)))


for _m in ("none asked for", "some asked for"):
    keep(_m)


class Group:  # an array of positions of reactions
    def __getitem__(self, i): ...
    def __contains__(self, x): ...
    def __len__(self): ...


class Where: ...


class Found:
    def __getitem__(self, i): ...
    def flatten(self): ...
    def ravel(self): ...


class Coefs:
    def __getitem__(self, i): ...


@contract("every group keeps the rows of its own search, told which of its rows are asked for", [T + "_process_duplicates"], budget=60)
def _(E):
    G = E.int("groups").t
    E.assume(G >= 0)
    NULL, LEN, AT, POS = z3.Function(fresh_name("filling"), I, z3.BoolSort()), z3.Function(fresh_name("group_size"), I, I), z3.Function(fresh_name("group"), I, I, I), z3.Function(fresh_name("position_in"), I, I, I)
    ENS, KEEP = z3.Function(fresh_name("ensured"), I, z3.BoolSort()), z3.Function(fresh_name("keep_of"), I, I, z3.BoolSort())
    g, k, x = z3.Ints("g! k! x!")
    isin = lambda g, v: z3.And(0 <= POS(g, v), POS(g, v) < LEN(g), AT(g, POS(g, v)) == v)
    # precondition: positions within a group are distinct
    E.axioms += [z3.ForAll([g, k], z3.Implies(z3.And(0 <= k, k < LEN(g)), POS(g, AT(g, k)) == k), patterns=[AT(g, k)]), z3.ForAll([g, k], z3.Implies(KEEP(g, k), z3.And(0 <= k, k < LEN(g))), patterns=[KEEP(g, k)])]
    GK = Kind("Group", None)
    GID = z3.Function("group_id", GK.sort, I)
    MKG = GK.fn("the_group", I)
    E.axioms.append(z3.ForAll([g], GID(MKG(g)) == g, patterns=[MKG(g)]))

    def is_group(o):
        o = E.resolve(o)
        if not (isinstance(o, SObj) and o.kind is GK):
            raise Undecided("not a group")
        return GID(o.t)

    WH = Kind("WhereInGroup", None)
    WG, WX, MKW = z3.Function("where_group", WH.sort, I), z3.Function("where_value", WH.sort, I), WH.fn("where_in", I, I)
    E.axioms.append(z3.ForAll([g, x], z3.And(WG(MKW(g, x)) == g, WX(MKW(g, x)) == x), patterns=[MKW(g, x)]))

    def found(E2, o, a, kw):
        i = a[0]
        if i != 0:
            raise Undecided("position searched")
        E2.prove("the row is in the group", isin(WG(o.t), WX(o.t)))
        return SNum(POS(WG(o.t), WX(o.t)))

    WH.methods.update({"flatten": lambda E2, o, a, kw: o, "ravel": lambda E2, o, a, kw: o, "__getitem__": found})
    WH.getitem = lambda E2, o, i: found(E2, o, [i], {})

    def where(E2, op, a, b):
        if op is not ast.Eq:
            raise Undecided("comparison of a group")
        grp, val = (a, b) if isinstance(a, SObj) and a.kind is GK else (b, a)
        return SObj(WH, MKW(is_group(grp), E2.num(val)))

    where.handles_eq = True
    E.cmp_hooks = {**E.cmp_hooks, GK: where}

    def kept(E2, grp, rows):
        segs = [x for x in rows.segs if not (isinstance(x, Conc) and not x.items)]
        if len(segs) != 1 or not isinstance(segs[0], Seg) or len(segs[0].dims) != 1:
            raise Undecided("rows kept")
        sg, = segs
        (v, hi), = sg.dims
        E2.prove("rows of the group", z3.ForAll([v], z3.Implies(sg.guard, z3.And(E2.num(sg.elem) >= 0, E2.num(sg.elem) < LEN(grp)))))
        return VList([Seg([(v, hi)], sg.guard, SNum(AT(grp, E2.num(sg.elem))))], "list", E2.tick(), rows.unordered, rows.distinct)

    def group_get(E2, o, i):
        i = E2.resolve(i)
        if isinstance(i, VList):
            return kept(E2, GID(o.t), i)
        return SNum(AT(GID(o.t), E2.num(i)))

    GK.getitem = group_get
    GK.methods["__getitem__"] = lambda E2, o, a, kw: group_get(E2, o, a[0])
    GK.contains = lambda E2, o, v: SBool(isin(GID(o.t), E2.num(v)))
    GK.methods["__contains__"] = lambda E2, o, a, kw: SBool(isin(GID(o.t), E2.num(a[0])))
    GK.methods["__len__"] = lambda E2, o, a, kw: SNum(LEN(GID(o.t)))
    CK, RK = Kind("CoefTable", None), Kind("CoefRowsOf", None)
    ROWS = RK.fn("rows_of_group", GK.sort)
    CK.getitem = lambda E2, o, i: SObj(RK, ROWS(E2.resolve(i).t)) if isinstance(E2.resolve(i), SObj) and E2.resolve(i).kind is GK else _no("rows")
    CK.methods["__getitem__"] = lambda E2, o, a, kw: CK.getitem(E2, o, a[0])

    def search(E2, a, kw):
        kw = {**dict(zip(("rows", "ensure_idxs"), a)), **kw}
        r = E2.resolve(kw["rows"])
        if not (isinstance(r, SObj) and r.kind is RK and r.t.decl().name() == ROWS.name() if hasattr(ROWS, "name") else isinstance(r, SObj) and r.kind is RK):
            raise Undecided("rows searched")
        grp = GID(r.t.arg(0))
        rel = E2.resolve(kw.get("ensure_idxs"))
        q = z3.Int(fresh_name("q"))
        P = (lambda v: z3.BoolVal(False)) if rel is None else members(E2, rel)[0]
        E2.prove("the search is told which rows of the group are asked for", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < LEN(grp)), P(q) == ENS(AT(grp, q)))))
        E2.prove("and only rows of the group", z3.ForAll([q], z3.Implies(P(q), z3.And(0 <= q, q < LEN(grp)))))
        return VList([Seg([(q, None)], KEEP(grp, q), SNum(q))], "list", E2.tick(), False, True)

    E.contracts[rs._get_idxs_to_keep] = search
    E.models = dict(REGISTRY)
    for f in {np.argwhere, unwrapped(np.argwhere)}:
        E.models[id(f)] = lambda E2, a, kw: E2.resolve(a[0]) if isinstance(E2.resolve(a[0]), SObj) and E2.resolve(a[0]).kind is WH else _no("np.argwhere")
    q = z3.Int(fresh_name("q"))
    groups = VList([Seg([(q, G)], z3.BoolVal(True), Choice([(NULL(q), None), (z3.Not(NULL(q)), SObj(GK, MKG(q)))]))], "tuple", E.tick())
    y = z3.Int(fresh_name("y"))
    ens = VList([Seg([(y, None)], ENS(y), SNum(y))], "list", E.tick(), False, True)
    out = E.resolve(E.call(rs._process_duplicates, [groups, E.obj(CK, "coeffs"), ens], {}))
    E.cover("reachable")
    K, _ = members(E, out)
    v = E.fresh("row", I)
    E.prove("exactly the rows kept in a group", K(v) == z3.Exists([g, k], z3.And(0 <= g, g < G, z3.Not(NULL(g)), KEEP(g, k), AT(g, k) == v)))
    segs = [s for s in out.segs if not (isinstance(s, Conc) and not s.items)]
    if len(segs) == 1 and isinstance(segs[0], Seg) and len(segs[0].dims) == 2:
        a, b = [v for v, _ in segs[0].dims], [z3.Int(fresh_name("o")) for _ in range(2)]
        sub = lambda t: z3.substitute(t, *zip(a, b))
        dom = z3.And(segs[0].guard, *[z3.And(v >= 0, v < hi) for v, hi in segs[0].dims if hi is not None])
        e = E.num(segs[0].elem)
        g2, k2 = z3.Ints("g2! k2!")
        disjoint = z3.ForAll([g, k, g2, k2], z3.Implies(z3.And(0 <= g, g < G, 0 <= g2, g2 < G, g != g2, 0 <= k, k < LEN(g), 0 <= k2, k2 < LEN(g2)), AT(g, k) != AT(g2, k2)), patterns=[z3.MultiPattern(AT(g, k), AT(g2, k2))])
        E.prove("no row twice when groups are disjoint", z3.Implies(disjoint, z3.ForAll(a + b, z3.Implies(z3.And(dom, sub(dom), e == sub(e)), z3.And(*[u == w for u, w in zip(a, b)])))))


def _no(why):
    raise Undecided(why)
