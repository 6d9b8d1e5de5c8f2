"""R22: balancing combinations of reactions.  A batch of coefficient matrices is an array of rows known by their position; the
pseudo-inverse is any function of the matrix; that it yields the unique solution where there is one is linear algebra (trusted)."""
from specs.common import *  # noqa: F403
import ast

import numpy as np
from pyvc.interp import func_ast
from pyvc.loops import invariant_rule
from pyvc.models import REGISTRY
from rxn_network.pathways import solver

T = "rxn_network.pathways.solver:"


class Mats:  # combinations x reactions x entries
    def __getitem__(self, i): ...
    def __setitem__(self, i, v): ...
    def __len__(self): ...


class Mults:  # combinations x reactions
    def __getitem__(self, i): ...
    def __setitem__(self, i, v): ...
    def __len__(self): ...


class Mat:  # reactions x entries
    def __getitem__(self, i): ...
    def __matmul__(self, v): ...


class Marks:
    def __getitem__(self, i): ...
    def __setitem__(self, i, v): ...
    def __ne__(self, o): ...
    def __eq__(self, o): ...
    def __len__(self): ...


class Positions:
    def __iter__(self): ...
    def __getitem__(self, i): ...
    def __len__(self): ...
    def flatten(self): ...
    def ravel(self): ...


class St(VObj):
    __slots__ = ("state",)


def mk(E, cls, attrs=None, **state):
    o = St(cls, attrs or {}, E.tick())
    o.state = state
    return o


def upd(E, o, **kw):
    old = o.state
    E.record(lambda: setattr(o, "state", old))
    o.state = {**old, **kw}
    E.effects.append(("setattr", o, ("state", None)))


def positions_of(E, m, bit):
    """np.argwhere: the marked positions in order"""
    rank, sel = z3.Function(fresh_name("rank"), I, I), z3.Function(fresh_name("selected"), I, I)
    i, j, k, l = (z3.Int(fresh_name(x)) for x in "ijkl")
    c = E.fresh("marked", I)
    E.define(z3.And(c >= 0, c <= m))
    E.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c), z3.And(0 <= sel(k), sel(k) < m, bit(sel(k)))), patterns=[sel(k)]))
    E.define(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m, bit(i)), z3.And(sel(rank(i)) == i, 0 <= rank(i), rank(i) < c)), patterns=[rank(i)]))
    E.define(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < c), sel(k) < sel(l)), patterns=[z3.MultiPattern(sel(k), sel(l))]))
    return mk(E, Positions, {"shape": E.tup(SNum(c))}, m=c, at=lambda q: sel(q), rank=rank, bit=bit, of=m)


class World:
    def __init__(self, E):
        self.E = E
        self.B, self.n, self.k = (E.int(x).t for x in ("combinations", "reactions", "entries"))
        E.assume(z3.And(self.B >= 0, self.n >= 1, self.k >= 1))
        self.CELL = z3.Function(fresh_name("coefficient"), I, I, I, R)
        self.MV, self.SV, self.NET = z3.Function(fresh_name("multiplicity"), I, I, R), z3.Function(fresh_name("solved"), I, I, R), z3.Function(fresh_name("net"), I, R)
        self.tol = z3.Q(1, 10**6)
        i, r, e = z3.Ints("i! r! e!")
        E_, B = z3.BoolSort(), z3.Function
        self.SOUND, self.COMPLETE, self.COL = B(fresh_name("adds_up"), I, E_), B(fresh_name("solvable"), I, E_), B(fresh_name("column_used"), I, I, E_)
        inr, ine = z3.And(0 <= r, r < self.n), z3.And(0 <= e, e < self.k)
        ab = lambda x: z3.If(x < 0, -x, x)
        diff = ab(self.SV(i, e) - self.NET(e))
        E.axioms += [z3.ForAll([i], self.SOUND(i) == z3.And(z3.ForAll([r], z3.Implies(inr, self.MV(i, r) > 0)), z3.ForAll([e], z3.Implies(ine, diff <= z3.Q(1, 10**6) + z3.Q(1, 10**4) * ab(self.NET(e))))), patterns=[self.SOUND(i)]),
                     z3.ForAll([i], self.COMPLETE(i) == z3.And(z3.ForAll([r], z3.Implies(inr, self.MV(i, r) >= self.tol)), z3.ForAll([e], z3.Implies(ine, self.SV(i, e) == self.NET(e)))), patterns=[self.COMPLETE(i)]),
                     # a column of zeros gives zero in every combination
                     z3.ForAll([i, e], z3.Implies(z3.ForAll([r], z3.Implies(inr, self.CELL(i, r, e) == 0)), self.SV(i, e) == 0), patterns=[self.SV(i, e)])]

    def vec(self, f, n, i=None):
        q = z3.Int(fresh_name("q"))
        return VList([Seg([(q, n)], z3.BoolVal(True), SNum(f(i, q) if i is not None else f(q), True))], "ndarray", self.E.tick())

    def models(self):
        E, w = self.E, self

        def inside(i, m):
            i = E.num(E.resolve(i))
            E.prove("index within the array", z3.And(i >= 0, i < m))
            return i

        def mats_get(E2, a, k):
            o, i = a
            i = inside(i, o.state["m"])
            return w.mat(o.state["at"](i))

        def put(want):
            def f(E2, a, k):
                o, i, v = a
                i, old, new = inside(i, o.state["m"]), o.state["at"], want(E2.resolve(v))
                upd(E2, o, at=lambda x: z3.If(x == i, new, old(x)))
            return f

        def mat_of(v):
            if not (isinstance(v, St) and v.cls is Mat and v.state.get("form") == "plain"):
                raise Undecided("form of a matrix")
            return v.state["id"]

        def mult_of(v):
            sg = v.simple_seg() if isinstance(v, VList) else None
            e = sg and sg.elem
            if isinstance(e, SNum) and e.t.decl().eq(w.MV) and e.t.arg(1).eq(sg.dims[0][0]):
                return e.t.arg(0)
            raise Undecided("form of the multiplicities")

        def mat_get(E2, a, k):
            o, i = a
            if isinstance(i, VList):
                i = i.items()
            if o.state["form"] != "plain" or not isinstance(i, (tuple, list)) or len(i) != 2:
                raise Undecided("part of a matrix")
            s, c = i
            if not (isinstance(s, slice) or type(s).__name__ == "VSlice") or s.start is not None or s.stop is not None or s.step is not None:
                raise Undecided("part of a matrix")
            c, q = inside(c, w.k), z3.Int(fresh_name("q"))
            return VList([Seg([(q, w.n)], z3.BoolVal(True), SNum(w.CELL(o.state["id"], q, c), True))], "ndarray", E2.tick())

        def is_net(v):
            sg = v.simple_seg() if isinstance(v, VList) else None
            return sg is not None and isinstance(sg.elem, SNum) and sg.elem.t.decl().eq(w.NET)

        def matmul(E2, a, k):
            o, v = a[0], E2.resolve(a[1])
            if o.state["form"] == "inverse transposed" and is_net(v):
                return w.vec(w.MV, w.n, o.state["id"])
            if o.state["form"] == "transposed" and isinstance(v, VList):
                E2.prove("multiplicities of the same combination", mult_of(v) == o.state["id"])
                return w.vec(w.SV, w.k, o.state["id"])
            raise Undecided("product")

        def mark_get(E2, a, k):
            return SBool(a[0].state["bit"](inside(a[1], a[0].state["m"])))

        def mark_set(E2, a, k):
            o, i, v = a
            i, old, v = inside(i, o.state["m"]), o.state["bit"], E2.zb(E2.truth(v))
            upd(E2, o, bit=lambda x: z3.If(x == i, v, old(x)))

        def mark_cmp(E2, op, a, b):
            o, v = (a, b) if isinstance(a, St) and a.cls is Marks else (b, a)
            if v not in (0, 1) or not isinstance(v, (int, bool)) or op not in (ast.Eq, ast.NotEq):
                raise Undecided("comparison of marks")
            bit = o.state["bit"]
            return o if bool(v) is (op is ast.Eq) else mk(E2, Marks, m=o.state["m"], bit=lambda x: z3.Not(bit(x)))

        mark_cmp.handles_eq = True
        E.cmp_hooks = {**E.cmp_hooks, Marks: mark_cmp}
        length = lambda E2, a, k: SNum(a[0].state["m"])
        E.contracts.update({Mats.__getitem__: mats_get, Mats.__setitem__: put(mat_of), Mults.__setitem__: put(mult_of), Mults.__getitem__: lambda E2, a, k: w.vec(w.MV, w.n, a[0].state["at"](inside(a[1], a[0].state["m"]))),
                            Mat.__getitem__: mat_get, Mat.__matmul__: matmul, Marks.__getitem__: mark_get, Marks.__setitem__: mark_set, 
                            Positions.__getitem__: lambda E2, a, k: SNum(a[0].state["at"](inside(a[1], a[0].state["m"]))), Positions.flatten: lambda E2, a, k: a[0], Positions.ravel: lambda E2, a, k: a[0],
                            Mats.__len__: length, Mults.__len__: length, Marks.__len__: length, Positions.__len__: length})

        def argwhere(E2, a, k):
            v = E2.resolve(a[0])
            if isinstance(v, St) and v.cls is Marks:
                return positions_of(E2, v.state["m"], v.state["bit"])
            sg = v.simple_seg() if isinstance(v, VList) else None
            if sg is None or not isinstance(sg.elem, SBool):
                raise Undecided(f"np.argwhere of {v!r}")
            (d, hi), = sg.dims
            return positions_of(E2, hi, lambda x: z3.substitute(sg.elem.t, (d, x)))

        def new(E2, a, k):
            shape = E2.resolve(a[0] if a else k["shape"])
            dims = [E2.num(x) for x in shape.items()] if isinstance(shape, VList) else [E2.num(shape)]
            J = z3.Function(fresh_name("unset"), I, I)
            if len(dims) == 1:
                raise Undecided("form of the marks")
            E2.prove("sizes of the arrays", z3.And(*[x == y for x, y in zip(dims[1:], (w.n, w.k))]))
            return mk(E2, Mats if len(dims) == 3 else Mults, m=dims[0], at=lambda x: J(x))

        def full(E2, a, k):
            shape = E2.resolve(a[0] if a else k["shape"])
            v = k.get("fill_value", a[1] if len(a) > 1 else None)
            if isinstance(shape, VList) or v is not False:
                raise Undecided("form of the marks")
            return mk(E2, Marks, m=E2.num(shape), bit=lambda x: z3.BoolVal(False))

        def zeros(E2, a, k):
            shape = E2.resolve(a[0] if a else k["shape"])
            if not isinstance(shape, VList):
                return mk(E2, Marks, m=E2.num(shape), bit=lambda x: z3.BoolVal(False))
            return new(E2, a, k)

        def pinv(E2, a, k):
            i = mat_of(E2.resolve(a[0]))
            inv = mk(E2, Mat, {}, id=i, form="inverse")
            inv.attrs["T"] = mk(E2, Mat, {"T": inv}, id=i, form="inverse transposed")
            return inv

        for f, m in ((np.argwhere, argwhere), (np.zeros, zeros), (np.empty, new), (np.full, full), (np.linalg.pinv, pinv)):
            key = unwrapped(f)
            for g in {f, key}:
                self.E.models = self.E.models if self.E.models is not REGISTRY else dict(REGISTRY)
                self.E.models[id(g)] = lambda E2, a, k, m=m: m(E2, a, k)

    def mat(self, i):
        o = mk(self.E, Mat, {}, id=i, form="plain")
        o.attrs["T"] = mk(self.E, Mat, {"T": o}, id=i, form="transposed")
        return o


def unwrapped(f):
    return getattr(f, "__wrapped__", f)


@contract("exactly the combinations that add up to the net reaction with positive multiplicities are returned, with those", [T + "_balance_path_arrays_cpu"], budget=120)
def _(E):
    w = World(E)
    w.models()
    shape = E.tup(SNum(w.B), SNum(w.n), SNum(w.k))
    mats = mk(E, Mats, {"shape": shape}, m=w.B, at=lambda x: x)
    net = w.vec(w.NET, w.k)
    f = getattr(solver._balance_path_arrays_cpu, "py_func", solver._balance_path_arrays_cpu)
    node = lambda: func_ast(f)
    i = z3.Int("i!")

    def frames(fr, *names):
        fs = [E.find_frame(fr, nm) for nm in names]
        if not all(fs):
            raise Undecided("no result arrays")
        return [E.resolve(g.vars[nm]) for g, nm in zip(fs, names)]

    def inv1(E, fr, done):
        allm, marks = frames(fr, "all_multiplicities", "indices")
        if done.count is None or not isinstance(marks, St) or not isinstance(allm, St):
            raise Undecided("form of the loop")
        bit, at = marks.state["bit"], allm.state["at"]
        rng = z3.And(0 <= i, i < done.count)
        return [("sizes", z3.And(marks.state["m"] == w.B, allm.state["m"] == w.B)),
                ("combinations marked add up", z3.ForAll([i], z3.Implies(z3.And(rng, bit(i)), z3.And(w.SOUND(i), at(i) == i)))),
                ("those that add up exactly are marked", z3.ForAll([i], z3.Implies(z3.And(rng, w.COMPLETE(i)), bit(i)))),
                ("the others are not marked yet", z3.ForAll([i], z3.Implies(z3.And(done.count <= i, i < w.B), z3.Not(bit(i)))))]

    def havoc1(E, fr):
        allm, marks = frames(fr, "all_multiplicities", "indices")
        A, M = z3.Function(fresh_name("stored"), I, I), z3.Function(fresh_name("mark"), I, z3.BoolSort())
        a2, m2 = mk(E, Mults, m=w.B, at=lambda x: A(x)), mk(E, Marks, m=w.B, bit=lambda x: M(x))
        E.set_var_in(E.find_frame(fr, "all_multiplicities"), "all_multiplicities", a2)
        E.set_var_in(E.find_frame(fr, "indices"), "indices", m2)
        return [a2, m2]

    def inv2(E, fr, done):
        fc, fm, pos = frames(fr, "filtered_comp_matrices", "filtered_multiplicities", "filtered_indices")
        if done.count is None or not all(isinstance(o, St) for o in (fc, fm, pos)):
            raise Undecided("form of the loop")
        sel = pos.state["at"]
        E.sel = pos
        rng = z3.And(0 <= i, i < done.count)
        return [("sizes", z3.And(fc.state["m"] == pos.state["m"], fm.state["m"] == pos.state["m"])),
                ("matrices are those marked", z3.ForAll([i], z3.Implies(rng, fc.state["at"](i) == sel(i)))),
                ("multiplicities are theirs", z3.ForAll([i], z3.Implies(rng, fm.state["at"](i) == sel(i))))]

    def havoc2(E, fr):
        fc, fm, pos = frames(fr, "filtered_comp_matrices", "filtered_multiplicities", "filtered_indices")
        out = []
        for nm, cls, o in (("filtered_comp_matrices", Mats, fc), ("filtered_multiplicities", Mults, fm)):
            A = z3.Function(fresh_name("stored"), I, I)
            n = mk(E, cls, m=pos.state["m"], at=lambda x, A=A: A(x))
            E.set_var_in(E.find_frame(fr, nm), nm, n)
            out.append(n)
        return out

    uses = lambda n, *names: set(names) <= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    E.sel = None
    E.loop_hooks = [invariant_rule(node, lambda E, n, fr: n in node().body and uses(n, "all_multiplicities", "indices"), havoc1, inv1, "combinations"),
                    invariant_rule(node, lambda E, n, fr: n in node().body and uses(n, "filtered_comp_matrices", "filtered_multiplicities"), havoc2, inv2, "results")]
    out = E.resolve(E.call(f, [mats, net], {}))
    E.cover("reachable")
    if not isinstance(out, VList) or len(out.items()) != 2:
        raise Undecided("form of the result")
    fc, fm = [E.resolve(x) for x in out.items()]
    if not all(isinstance(o, St) for o in (fc, fm)) or E.sel is None:
        raise Undecided("form of the result")
    pos = E.sel.state
    E.prove("as many matrices as multiplicities", fc.state["m"] == fm.state["m"])
    p, q = idx(E, fc.state["m"], "p"), idx(E, fc.state["m"], "q")
    at, mt = fc.state["at"], fm.state["at"]
    E.prove("a combination with its own multiplicities", z3.And(0 <= at(p), at(p) < w.B, mt(p) == at(p)))
    E.prove("it adds up to the net reaction with positive multiplicities", w.SOUND(at(p)))
    E.prove("no combination twice", z3.Implies(p != q, at(p) != at(q)))
    c = idx(E, w.B, "combination")
    r = pos["rank"](c)
    E.prove("every combination that adds up is returned", z3.Implies(w.COMPLETE(c), z3.And(0 <= r, r < fc.state["m"], at(r) == c)))


from rxn_network.reactions.computed import ComputedReaction  # noqa: E402
from rxn_network.reactions.open import OpenComputedReaction  # noqa: E402

for _c in (ComputedReaction, OpenComputedReaction):
    def _reg(cls):
        @contract(f"{cls.__name__}: the vector has each entry's coefficient at its index and zero elsewhere", ["rxn_network.reactions.computed:ComputedReaction.get_entry_idx_vector"])
        def _(E):
            r = sym_reaction(E, cls)
            N = E.int("entries").t
            POS = z3.Function(fresh_name("entry_idx"), ENTRY.sort, I)
            E.entry_data = ENTRY.attrs.get("data")
            a, b = z3.Ints("a! b!")
            inr = lambda t: z3.And(0 <= t, t < r.n)
            # precondition: the entries are numbered within the set, each with its own number (build_indices: R09)
            E.assume(z3.ForAll([a], z3.Implies(inr(a), z3.And(0 <= POS(r.X(a)), POS(r.X(a)) < N)), patterns=[r.X(a)]))
            E.assume(z3.ForAll([a, b], z3.Implies(z3.And(inr(a), inr(b), a != b), POS(r.X(a)) != POS(r.X(b))), patterns=[z3.MultiPattern(r.X(a), r.X(b))]))
            old = ENTRY.attrs.get("data")
            ENTRY.attrs["data"] = lambda E2, e: VDict([Conc([E2.tup("idx", SNum(POS(e.t)))])], E2.tick())
            try:
                out = E.resolve(E.call_method(r.obj, "get_entry_idx_vector", [SNum(N)], {}))
            finally:
                if old is None:
                    del ENTRY.attrs["data"]
                else:
                    ENTRY.attrs["data"] = old
            E.cover("reachable")
            q, k = idx(E, r.n, "q"), idx(E, N, "k")
            E.prove("length of the vector", E.num(E.length(out)) == N)
            at = lambda t: E.num(E.index(out, SNum(t)))
            E.prove("every entry's coefficient at its index", at(POS(r.X(q))) == r.K(q))
            E.assume(z3.ForAll([a], z3.Implies(inr(a), POS(r.X(a)) != k)))
            E.prove("zero elsewhere", at(k) == 0)
    _reg(_c)
