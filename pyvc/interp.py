"""Symbolic interpreter for (the AST of) the real Python source.

The AST is taken from the source file of the imported module on every run; decorators (cached_property, classmethod,
staticmethod, lru_cache, ray.remote) are interpreted through the live class objects, annotations and docstrings are
dropped, everything else is executed.  Constructs outside the supported subset raise Undecided.
"""
from __future__ import annotations

import ast
import builtins
import collections
import functools
import inspect
import itertools
import math
import operator
import sys
import types

import time

import z3

from .linabs import has_quant
from .engine import Engine
from .vals import *  # noqa: F403
from .vals import (BoundMethod, Choice, Conc, Infeasible, Opaque, Partial, Poison, SBool, Seg, SNum, SObj, Sym, Undecided,
                   VDict, VFunc, VList, VObj, VRaise, dims_cond, free_consts, is_sym, rename_seg, subst, to_native, value_terms)

TRUE = z3.BoolVal(True)


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame:
    __slots__ = ("vars", "parent", "globs", "yields", "cls", "func", "self_", "nonlocals", "globaldecl")

    def __init__(self, parent, globs, cls=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globs = globs
        self.yields = None
        self.cls = cls
        self.func = func
        self.self_ = None
        self.nonlocals = set()
        self.globaldecl = set()


_SRC = {}


def module_ast(filename):
    if filename not in _SRC:
        with open(filename) as f:
            src = f.read()
        _SRC[filename] = ast.parse(src, filename)
        idx = {}
        for n in ast.walk(_SRC[filename]):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                idx.setdefault((getattr(n, "name", "<lambda>"), line), []).append(n)
        _SRC[filename]._idx = idx
    return _SRC[filename]


class PeelNeeded(Undecided):
    pass


def func_ast(fn):
    code = fn.__code__
    file = code.co_filename
    if file.startswith("<frozen "):
        import importlib
        import inspect

        file = inspect.getsourcefile(importlib.import_module(file[8:-1]))
    m = module_ast(file)
    c = m._idx.get((code.co_name, code.co_firstlineno), [])
    if len(c) != 1:
        raise Undecided(f"source of {fn.__qualname__} not found")
    return c[0]


def unwrap_native(f):
    """underlying python function of repo/library callables"""
    seen = 0
    while hasattr(f, "__wrapped__") and seen < 5 and not isinstance(f, type):
        f = f.__wrapped__
        seen += 1
    return f


def stored_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


MISSING = object()
NP = None


class Interp(Engine):
    INLINE_PREFIX = ("rxn_network",)
    INLINE_EXTRA = ("pymatgen.analysis.phase_diagram.GrandPotPDEntry", "pymatgen.analysis.phase_diagram.PDEntry", "pymatgen.entries.Entry.", "pymatgen.core.entries.Entry.", "collections.abc.MutableSet", "collections.abc.Set")

    def __init__(self, budget=120.0):
        super().__init__(budget)
        from . import models

        self.models = models.REGISTRY
        self.mdl = models
        self.contracts = {}  # native function -> summary(engine, args, kwargs)
        self.depth = 0
        self.attr_hooks = {}
        self.cmp_hooks = {}
        self.loop_clocks = []
        self.dict_reads = []

    # ------------------------------------------------------------------ helpers
    def mk(self, items, kind="list"):
        return VList([Conc(items)] if items or kind else [], kind, self.tick())

    def tup(self, *items):
        return VList([Conc(items)], "tuple", self.tick())

    def raise_(self, cls, msg=""):
        raise VRaise(cls(msg))

    def seq(self, name, n, mk, kind="list"):
        """unbounded input sequence of length n (z3 Int) with elements mk(index term)"""
        n = n.t if isinstance(n, SNum) else n
        k = z3.Int(fresh_name("k"))
        return VList([Seg([(k, n)], TRUE, mk(k))], kind, 0)

    def lift(self, v):
        """native containers -> engine containers (shallow, lazily deep)"""
        if isinstance(v, Sym):
            return v
        if isinstance(v, list):
            return self.mk([self.lift(x) for x in v], "list")
        if type(v) is tuple:
            return self.mk([self.lift(x) for x in v], "tuple")
        if isinstance(v, (set, frozenset)):
            return self.mk([self.lift(x) for x in v], "set")
        if type(v) is dict or isinstance(v, collections.OrderedDict):
            return VDict([Conc([self.tup(self.lift(k), self.lift(x)) for k, x in v.items()])], self.tick())
        return v

    def resolve(self, v):
        while isinstance(v, Choice):
            v = self.choose([(x, c) for c, x in v.alts])
        if isinstance(v, Poison):
            raise Undecided(f"loop-carried value used: {v.why}")
        return v

    # ------------------------------------------------------------------ truth / equality
    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, SBool):
            return self.branch(v.t)
        if isinstance(v, SNum):
            return self.branch(v.t != 0)
        if isinstance(v, VList):
            if v.kind in ("gen", "iter", "map"):
                return True
            if v.kind == "ndarray":
                n = self.length(v)
                if isinstance(n, int) and n == 1:
                    return self.truth(v.items()[0])
                raise Undecided("truth of array")
            return self.truth(self.nonempty(v))
        if isinstance(v, VDict):
            return self.truth(self.nonempty(VList(v.pairs, "list")))
        if isinstance(v, SObj):
            if v.kind.truth is not None:
                return self.truth(v.kind.truth(self, v))
            return True
        if isinstance(v, VObj):
            for m in ("__bool__", "__len__"):
                f = self.class_lookup(v.cls, m)
                if f is not MISSING:
                    return self.truth(self.call_method(v, m, [], {}))
            return True
        if isinstance(v, Opaque):
            raise Undecided(f"truth of opaque value {v.why}")
        if isinstance(v, Sym):
            return True
        return bool(v)

    def nonempty(self, lst):
        conds = []
        for s in lst.segs:
            if isinstance(s, Conc):
                if s.items:
                    return True
            else:
                dims, g, _ = rename_seg(s)
                if len(dims) == 1 and z3.is_true(g) and dims[0][1] is not None:
                    conds.append(dims[0][1] > 0)
                else:
                    conds.append(z3.Exists([d for d, _ in dims], z3.And(dims_cond(dims), g)))
        if not conds:
            return False
        return SBool(z3.Or(*conds))

    def num(self, v):
        """z3 arithmetic term of a numeric value"""
        v = self.resolve(v)
        if isinstance(v, SNum):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        import numpy as np

        if isinstance(v, np.integer):
            return z3.IntVal(int(v))
        if isinstance(v, (float, np.floating)):
            if math.isinf(v) or math.isnan(v):
                raise Undecided("inf/nan in symbolic arithmetic")
            from fractions import Fraction

            fr = Fraction(repr(float(v)))
            return z3.RealVal(fr)
        if isinstance(v, VList) and v.kind == "ndarray" and v.meta.get("scalar"):
            return self.num(v.items()[0])
        raise Undecided(f"not a number: {v!r}")

    def is_num(self, v):
        import numpy as np

        return isinstance(v, (SNum, SBool, int, float, np.number, np.bool_)) and not isinstance(v, complex)

    def eq(self, a, b):
        """-> bool | z3 Bool"""
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        import numpy as np

        if self.is_num(a) and self.is_num(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return bool(a == b)
            for x in (a, b):
                if isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x)):
                    return False
            return self.num(a) == self.num(b)
        if isinstance(a, SObj) and isinstance(b, SObj):
            h = a.kind.binop.get("eq") or b.kind.binop.get("eq")
            if h:
                return h(self, a, b)
            if a.kind is b.kind:
                return a.t == b.t
            return False
        if isinstance(a, SObj) or isinstance(b, SObj):
            x, y = (a, b) if isinstance(a, SObj) else (b, a)
            h = x.kind.binop.get("eq_native")
            if h:
                r = h(self, x, y)
                if r is not NotImplemented:
                    return r
            if y is None or isinstance(y, (bool, int, float)) or isinstance(y, (VList, VDict)):
                return False
            if isinstance(y, VObj):
                return self.veq(y, x)
            raise Undecided(f"equality of {a!r} and {b!r}")
        if isinstance(a, VList) and isinstance(b, VList):
            return self.list_eq(a, b)
        if isinstance(a, VObj) or isinstance(b, VObj):
            if isinstance(a, VObj):
                return self.veq(a, b)
            return self.veq(b, a)
        if isinstance(a, VDict) and isinstance(b, VDict):
            return self.dict_eq(a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is None or b is None:
                return False
            raise Undecided("equality on opaque values")
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, VFunc) or isinstance(b, VFunc) or isinstance(a, BoundMethod) or isinstance(b, BoundMethod):
                return False
            na, nb = (a if not isinstance(a, Sym) else None), (b if not isinstance(b, Sym) else None)
            if (na is None and not isinstance(a, Sym)) or (nb is None and not isinstance(b, Sym)):
                return False
            x = a if not isinstance(a, Sym) else b
            y = b if not isinstance(a, Sym) else a
            if isinstance(x, (str, bool, type)):
                return False
            if isinstance(y, VList) and isinstance(x, (list, tuple, set, frozenset)):
                return self.list_eq(self.lift(x), y)
            raise Undecided(f"equality of {a!r} and {b!r}")
        r = a == b
        if isinstance(r, np.ndarray):
            raise Undecided("array equality")
        return bool(r)

    def veq(self, a, b):
        if isinstance(b, VObj) or True:
            f = self.class_lookup(a.cls, "__eq__")
            if f is not MISSING and f is not object.__eq__:
                r = self.call_method(a, "__eq__", [b], {})
                if r is NotImplemented:
                    if isinstance(b, VObj):
                        f2 = self.class_lookup(b.cls, "__eq__")
                        if f2 is not MISSING and f2 is not object.__eq__:
                            r = self.call_method(b, "__eq__", [a], {})
                            if r is not NotImplemented:
                                return self.as_z3(r)
                    return a is b
                return self.as_z3(r)
        return a is b

    def as_z3(self, r):
        r = self.resolve(r)
        if isinstance(r, SBool):
            return r.t
        if isinstance(r, bool):
            return r
        return self.truth(r)

    def zb(self, r):
        if isinstance(r, SBool):
            return r.t
        return z3.BoolVal(bool(r)) if not z3.is_expr(r) else r

    def and_(self, xs):
        xs = list(xs)
        if any(x is False for x in xs):
            return False
        xs = [x for x in xs if x is not True]
        if not xs:
            return True
        return z3.And(*[self.zb(x) for x in xs])

    def or_(self, xs):
        xs = list(xs)
        if any(x is True for x in xs):
            return True
        xs = [x for x in xs if x is not False]
        if not xs:
            return False
        return z3.Or(*[self.zb(x) for x in xs])

    def not_(self, x):
        if isinstance(x, bool):
            return not x
        return z3.Not(self.zb(x))

    def list_eq(self, a, b):
        ka, kb = a.kind, b.kind
        sets = ("set", "frozenset", "dictkeys")
        if ka in sets or kb in sets:
            if not (ka in sets and kb in sets):
                return False
            return self.and_([self.subset(a, b), self.subset(b, a)])
        if ka != kb and "ndarray" not in (ka, kb):
            return False
        if a.concrete() and b.concrete():
            x, y = a.items(), b.items()
            if len(x) != len(y):
                return False
            return self.and_([self.eq(p, q) for p, q in zip(x, y)])
        sa, sb = a.simple_seg(), b.simple_seg()
        if sa and sb:
            k = z3.Int(fresh_name("k"))
            ha, hb = sa.dims[0][1], sb.dims[0][1]
            ea = subst(sa.elem, [(sa.dims[0][0], k)])
            eb = subst(sb.elem, [(sb.dims[0][0], k)])
            inner = self.pure_eq(ea, eb, [k], z3.And(k >= 0, k < ha))
            if inner is True:
                return self.zb(ha == hb)
            return z3.And(ha == hb, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ha), self.zb(inner))))
        if a.concrete() != b.concrete():
            c, s = (a, b) if a.concrete() else (b, a)
            sg = s.simple_seg()
            if sg:
                items = c.items()
                conds = [sg.dims[0][1] == len(items)]
                for n, it in enumerate(items):
                    conds.append(self.zb(self.eq(it, subst(sg.elem, [(sg.dims[0][0], z3.IntVal(n))]))))
                return z3.And(*conds)
        raise Undecided("list equality on complex views")

    def pure_eq(self, a, b, vars_, assum):
        """equality in a context with extra bound variables; forks are merged into one formula"""
        res = self.generic(vars_, assum, lambda: self.eq(a, b))
        return self.merge_bool(res)

    def merge_bool(self, res):
        out = []
        for br, r in res:
            out.append(self.and_([*br, r]))
        return self.or_(out) if out else False

    def generic(self, vars_, assum, fn):
        """explore fn with extra loop variables bound; returns [(branch conds, result)]"""
        save = self.loopvars, self.loop_pc_mark
        self.loopvars = self.loopvars + list(vars_)
        pm = len(self.pc)
        self.loop_pc_mark = save[1] if save[0] else pm
        try:
            # assumption counts as branch condition for closing facts
            self.pc.append((assum, False))
            return self.explore(fn)
        finally:
            self.loopvars, self.loop_pc_mark = save
            del self.pc[pm:]

    def dict_eq(self, a, b):
        if a.concrete() and b.concrete():
            pa = [p.items() for s in a.pairs for p in s.items]
            pb = [p.items() for s in b.pairs for p in s.items]
            if len(pa) != len(pb):
                return False
            out = []
            for k, v in pa:
                alts = [self.and_([self.eq(k, k2), self.eq(v, v2)]) for k2, v2 in pb]
                out.append(self.or_(alts))
            return self.and_(out)
        raise Undecided("dict equality")

    def contains(self, coll, x):
        """x in coll -> bool|z3"""
        coll = self.resolve(coll)
        x = self.resolve(x)
        if isinstance(coll, VDict):
            if self.loopvars:
                self.dict_reads.append((coll, x))
            if "present" in coll.meta:
                return coll.meta["present"] is x or self.entails(self.zb(self.eq(coll.meta["present"], x))) or self._undecided("lookup of another key")
            return self.contains(self.dict_keys(coll), x)
        if isinstance(coll, VList):
            self.note_read(coll)
            outs = []
            for s in coll.segs:
                if isinstance(s, Conc):
                    for it in s.items:
                        outs.append(self.eq(it, x))
                else:
                    dims, g, e = rename_seg(s)
                    # canonical set over a sort
                    if len(dims) == 1 and dims[0][1] is None and isinstance(e, SObj) and isinstance(x, SObj) and e.t.get_id() == dims[0][0].get_id() and e.kind is x.kind:
                        outs.append(z3.substitute(g, (dims[0][0], x.t)))
                        continue
                    vs = [d for d, _ in dims]
                    inner = self.pure_eq(e, x, vs, z3.And(dims_cond(dims), g))
                    outs.append(z3.Exists(vs, z3.And(dims_cond(dims), g, self.zb(inner))))
            return self.or_(outs)
        if isinstance(coll, SObj) and coll.kind.contains:
            return self.as_z3(coll.kind.contains(self, coll, x))
        if isinstance(coll, VObj):
            if self.class_lookup(coll.cls, "__contains__") is not MISSING:
                return self.as_z3(self.call_method(coll, "__contains__", [x], {}))
            return self.contains(self.iterate(coll), x)
        if not isinstance(coll, Sym):
            if not is_sym(x):
                return to_native(x) in coll
            if isinstance(coll, (list, tuple, set, frozenset)):
                return self.or_([self.eq(y, x) for y in coll])
            if isinstance(coll, dict) or hasattr(coll, "keys"):
                return self.or_([self.eq(self.lift(y), x) for y in list(coll.keys())])
            h = self.mdl.CONTAINS.get(id(coll))
            if h:
                return h(self, coll, x)
        raise Undecided(f"membership in {coll!r}")

    def subset(self, a, b):
        outs = []
        for s in a.segs:
            if isinstance(s, Conc):
                outs += [self.contains(b, x) for x in s.items]
            else:
                dims, g, e = rename_seg(s)
                vs = [d for d, _ in dims]
                res = self.generic(vs, z3.And(dims_cond(dims), g), lambda: self.contains(b, e))
                inner = self.merge_bool(res)
                outs.append(z3.ForAll(vs, z3.Implies(z3.And(dims_cond(dims), g), self.zb(inner))))
        return self.and_(outs)

    # ------------------------------------------------------------------ sequences
    def note_read(self, obj):
        if self.loopvars:
            self.reads.append(obj)

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, VDict):
            return self.length(self.dict_keys(v))
        if isinstance(v, VList):
            self.note_read(v)
            if v.kind in ("set", "frozenset") and not v.distinct:
                v = self.dedup(v)
            total = 0
            sym = None
            for s in v.segs:
                if isinstance(s, Conc):
                    total += len(s.items)
                else:
                    if len(s.dims) == 1 and z3.is_true(s.guard) and s.dims[0][1] is not None:
                        t = s.dims[0][1]
                    else:
                        d, g, _ = rename_seg(s)
                        t = self.count(d, g)
                    sym = t if sym is None else sym + t
            if sym is None:
                return total
            return SNum(z3.simplify(sym + total))
        if isinstance(v, VObj):
            return self.call_method(v, "__len__", [], {})
        if isinstance(v, SObj) and "__len__" in v.kind.methods:
            return v.kind.methods["__len__"](self, v, [], {})
        if isinstance(v, Sym):
            raise Undecided(f"len of {v!r}")
        return len(v)

    def count(self, dims, g):
        t = self.sigma(dims, g, z3.RealVal(1))
        c = self.fresh("count", z3.IntSort())
        self.define(z3.And(z3.ToReal(c) == t, c >= 0))
        # the elementary facts about cardinalities: at most one member <=> any two members coincide
        a = [z3.Const(fresh_name("k"), v.sort()) for v, _ in dims]
        b = [z3.Const(fresh_name("k"), v.sort()) for v, _ in dims]

        def at(w):
            sub = [(v, x) for (v, _), x in zip(dims, w)]
            return z3.substitute(z3.And(dims_cond(dims), g), *sub)

        same = z3.And(*[x == y for x, y in zip(a, b)])
        self.define(z3.Implies(c <= 1, z3.ForAll(a + b, z3.Implies(z3.And(at(a), at(b)), same))))
        self.define(z3.Implies(c >= 1, z3.Exists(a, at(a))))
        self.define(z3.Implies(c >= 2, z3.Exists(a + b, z3.And(at(a), at(b), z3.Not(same)))))
        self.define(z3.Implies(c <= 0, z3.ForAll(a, z3.Not(at(a)))))
        return c

    def dedup(self, v):
        if v.concrete():
            items = v.items()
            if all(not is_sym(x) for x in items):
                out = []
                for x in items:
                    if not any(to_native(x) == to_native(y) for y in out):
                        out.append(x)
                return VList([Conc(out)], v.kind, v.birth, True, True)
            out = []
            for x in items:
                if self.truth(SBool(self.zb(self.or_([self.eq(x, y) for y in out])))):
                    continue
                out.append(x)
            return VList([Conc(out)], v.kind, v.birth, True, True)
        c = self.canon_set(v)
        if c is not None:
            return c
        raise Undecided("cardinality of a set that may contain duplicates")

    def canon_set(self, v):
        """set of opaque objects of one kind as a predicate over the sort"""
        if len(v.segs) == 1 and isinstance(v.segs[0], Seg):
            s = v.segs[0]
            if len(s.dims) == 1 and s.dims[0][1] is None and isinstance(s.elem, (SObj, SNum)) and s.elem.t.get_id() == s.dims[0][0].get_id():
                return VList([s], v.kind, v.birth, True, True)
        kind = None
        for s in v.segs:
            for e in s.items if isinstance(s, Conc) else [s.elem]:
                k = e.kind if isinstance(e, SObj) else "int" if (isinstance(e, SNum) and e.is_int) or (isinstance(e, int) and not isinstance(e, bool)) else None
                if k is None or (kind is not None and k is not kind):
                    return None
                kind = k
        if kind is None:
            return None
        if kind == "int":
            x = z3.Int(fresh_name("k"))
            mem = self.contains(VList(v.segs, "list", v.birth), SNum(x))
            return VList([Seg([(x, None)], self.zb(mem), SNum(x))], v.kind, self.tick(), True, True)
        x = z3.Const(fresh_name("k"), kind.sort)
        mem = self.contains(VList(v.segs, "list", v.birth), SObj(kind, x))
        return VList([Seg([(x, None)], self.zb(mem), SObj(kind, x))], v.kind, self.tick(), True, True)

    def to_set(self, v, kind="set"):
        v = self.iterate(v)
        n = VList(list(v.segs), kind, self.tick(), True, False)
        if not n.concrete():
            c = self.canon_set(n)
            if c is not None:
                c.kind = kind
                c.birth = self.tick()
                return c
        else:
            items = n.items()
            if all(not is_sym(x) for x in items):
                out = []
                for x in items:
                    if not any(self.eq(x, y) is True for y in out):
                        out.append(x)
                n.segs = [Conc(out)]
                n.distinct = True
        if v.distinct:
            n.distinct = True
        return n

    def iterate(self, v):
        """any iterable -> VList (not consumed)"""
        v = self.resolve(v)
        if isinstance(v, VList):
            self.note_read(v)
            if v.kind == "iter":  # consuming iterator
                out = VList(list(v.segs), "list", v.birth, v.unordered, v.distinct)
                old = v.segs
                self.record(lambda: setattr(v, "segs", old))
                v.segs = []
                return out
            return v
        if isinstance(v, VDict):
            if self.loopvars:
                self.dict_reads.append((v, None))
            return self.dict_keys(v)
        if isinstance(v, SObj) and v.kind.iter:
            return v.kind.iter(self, v)
        if isinstance(v, VObj):
            if self.class_lookup(v.cls, "__iter__") is not MISSING:
                return self.iterate(self.call_method(v, "__iter__", [], {}))
            raise Undecided(f"iteration over {v!r}")
        if isinstance(v, Sym):
            raise Undecided(f"iteration over {v!r}")
        try:
            return self.mk([self.lift(x) for x in v], "list")
        except TypeError as e:
            raise VRaise(e)

    def dict_keys(self, d, wild=False):
        self.note_read(d)
        segs = []
        for s in d.pairs:
            if isinstance(s, Conc):
                segs.append(Conc([p.items()[0] for p in s.items]))
            else:
                segs.append(Seg(s.dims, s.guard, s.elem.items()[0]))
        return VList(segs, "dictkeys", d.birth, False, True)

    def dict_values(self, d):
        self.note_read(d)
        if self.loopvars:
            self.dict_reads.append((d, None))
        self.need_distinct(d)
        segs = []
        for s in d.pairs:
            if isinstance(s, Conc):
                segs.append(Conc([p.items()[1] for p in s.items]))
            else:
                segs.append(Seg(s.dims, s.guard, s.elem.items()[1]))
        return VList(segs, "list", d.birth)

    def dict_items(self, d):
        self.note_read(d)
        if self.loopvars:
            self.dict_reads.append((d, None))
        self.need_distinct(d)
        return VList(list(d.pairs), "list", d.birth)

    def need_distinct(self, d):
        """keys of a symbolic dict must be provably distinct (otherwise insertion overwrote something)"""
        if d.concrete() or d.meta.get("distinct"):
            return
        conds = []
        segs = [s for s in d.pairs if not (isinstance(s, Conc) and not s.items)]
        for n, s in enumerate(segs):
            for m, t in enumerate(segs):
                if m < n:
                    continue
                if isinstance(s, Conc) and isinstance(t, Conc):
                    continue
                conds.append((s, t, n == m))
        for s, t, same in conds:
            def parts(x):
                if isinstance(x, Conc):
                    return [([], TRUE, p) for p in x.items]
                return [rename_seg(x)]
            for d1, g1, e1 in parts(s):
                for d2, g2, e2 in parts(t):
                    k1, k2 = e1.items()[0], e2.items()[0]
                    neq = []
                    if same:
                        neq = [z3.Or(*[a[0] != b[0] for a, b in zip(d1, d2)])]
                    vs = [a for a, _ in d1] + [b for b, _ in d2]
                    pre = z3.And(dims_cond(d1), g1, dims_cond(d2), g2, *neq)
                    e = self.merge_bool(self.generic(vs, pre, lambda: self.eq(k1, k2)))
                    if e is False:
                        continue
                    if not self.entails(z3.Implies(pre, z3.Not(self.zb(e)))):
                        raise Undecided("dict with possibly repeated keys")
        d.meta["distinct"] = True

    def _undecided(self, why):
        raise Undecided(why)

    def entails(self, f, rlimit=10_000_000):
        fs = self.axioms + self.pcf() + [z3.Not(f)]
        key = ("entails", rlimit, *(x.get_id() for x in fs))
        hit = self.feas_memo.get(key)
        if hit is not None:
            return hit[0]
        self.check_budget()
        s = z3.Solver()
        s.set("rlimit", rlimit // 10)
        s.add(*[g for g in fs[:-1] if not has_quant(g)], fs[-1])
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            self.feas_memo[key] = (True, fs)
            return True
        s = z3.Solver()
        s.set("timeout", 20000)
        s.set("rlimit", rlimit)
        s.add(*fs)
        s.add(*self.sigma_lemmas(fs, light=True))
        t = time.time()
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        self.queries += 1
        self.feas_memo[key] = (r, fs)
        return r

    def dict_get(self, d, k, default=MISSING):
        """symbolic lookup with forking; returns value or MISSING"""
        self.note_read(d)
        k = self.resolve(k)
        if self.loopvars:
            self.dict_reads.append((d, k))
        if "present" in d.meta:
            raise Undecided("value of a repeated key")
        # later pairs win: walk from the end
        for s in reversed(d.pairs):
            if isinstance(s, Conc):
                for p in reversed(s.items):
                    kk, v = p.items()
                    e = self.eq(kk, k)
                    if self.branch(self.zb(e)):
                        return v
            else:
                self.need_distinct_seg(d, s)
                dims, g, e = rename_seg(s)
                kk, v = e.items()
                vs = [x for x, _ in dims]
                # definite syntactic hit: key template equals k at some instance?
                eqv = self.merge_bool(self.generic(vs, z3.And(dims_cond(dims), g), lambda: self.eq(kk, k)))
                if eqv is False:
                    continue
                body = z3.And(dims_cond(dims), g, self.zb(eqv))
                if getattr(self, "syntactic_hits", False) and len(vs) == 1 and hasattr(kk, "t") and hasattr(k, "t") and kk.t.num_args() == 1 and kk.t.arg(0).eq(vs[0]) and kk.t.decl().eq(k.t.decl()):
                    hit = k.t.arg(0)  # the pair with this very key
                    if self.branch(z3.substitute(z3.And(dims_cond(dims), g), (vs[0], hit))):
                        return subst(v, [(vs[0], hit)])
                w = [self.fresh("wit", x.sort()) for x in vs]
                ex = z3.Exists(vs, body)
                inst = z3.substitute(body, *zip(vs, w))
                self.define(z3.Implies(ex, inst))
                if self.branch(ex):
                    return subst(v, list(zip(vs, w)))
        return default

    def need_distinct_seg(self, d, s):
        self.need_distinct(d)

    def index(self, lst, i):
        """lst[i] for VList"""
        self.note_read(lst)
        i = self.resolve(i)
        import numpy as np

        if isinstance(i, SBool):
            raise Undecided("bool index")
        if isinstance(i, (bool,)):
            i = int(i)
        if isinstance(i, np.integer):
            i = int(i)
        if isinstance(i, slice):
            return self.slice(lst, i)
        if isinstance(i, VList):
            return self.mdl.fancy_index(self, lst, i)
        if lst.kind in ("set", "frozenset", "gen", "iter", "dictkeys"):
            raise VRaise(TypeError("object is not subscriptable"))
        if lst.concrete() and isinstance(i, int):
            items = lst.items()
            if -len(items) <= i < len(items):
                return items[i]
            raise VRaise(IndexError("list index out of range"))
        if lst.concrete():
            items = lst.items()
            it = self.num(i)
            opts = [(n, z3.Or(it == n, it == n - len(items))) for n in range(len(items))]
            opts.append((None, z3.Or(it >= len(items), it < -len(items))))
            n = self.choose(opts)
            if n is None:
                raise VRaise(IndexError("list index out of range"))
            return items[n]
        sg = lst.simple_seg()
        if sg is not None and sg.dims[0][1] is not None and not lst.unordered:
            n = sg.dims[0][1]
            it = self.num(i)
            if it.is_real():
                raise VRaise(TypeError("list indices must be integers"))
            if isinstance(i, int) and i < 0:
                it = z3.simplify(n + i)
                if not self.branch(it >= 0):
                    raise VRaise(IndexError("index out of range"))
            else:
                c = z3.And(it >= 0, it < n)
                if not self.branch(c):
                    if self.branch(z3.And(it < 0, it >= -n)):
                        it = it + n
                    else:
                        raise VRaise(IndexError("index out of range"))
            return subst(sg.elem, [(sg.dims[0][0], it)])
        # some member of a collection whose order is unspecified
        if isinstance(i, int) and i in (0, -1) and lst.unordered and len(lst.segs) == 1 and isinstance(lst.segs[0], Seg):
            dims, g, e = rename_seg(lst.segs[0])
            vs = [x for x, _ in dims]
            body = z3.And(dims_cond(dims), g)
            if not self.branch(z3.Exists(vs, body)):
                raise VRaise(IndexError("index out of range"))
            sub = [(x, self.fresh("some", x.sort())) for x in vs]
            self.assume(z3.substitute(body, *sub))
            r = subst(e, sub)
            if "sorted" in lst.meta and not isinstance(lst.meta["sorted"][1], Sym):
                key, rev = lst.meta["sorted"]
                kv = lambda x: self.resolve(self.call(key, [x], {}) if key is not None else x)
                k0 = kv(r)
                if isinstance(k0, SNum):
                    d2, g2, e2 = rename_seg(lst.segs[0])
                    low = bool(rev) == (i == -1)
                    res = self.generic([x for x, _ in d2], z3.And(dims_cond(d2), g2), lambda: SBool(k0.t <= self.num(kv(e2)) if low else self.num(kv(e2)) <= k0.t))
                    if len(res) == 1 and not res[0][0][1:]:
                        self.assume(z3.ForAll([x for x, _ in d2], z3.Implies(z3.And(dims_cond(d2), g2), res[0][1].t)))
            return r
        # first element of a guarded view
        if isinstance(i, int) and i == 0 and not lst.unordered:
            for s in lst.segs:
                if isinstance(s, Conc):
                    if s.items:
                        return s.items[0]
                    continue
                dims, g, e = rename_seg(s)
                vs = [x for x, _ in dims]
                body = z3.And(dims_cond(dims), g)
                ex = z3.Exists(vs, body)
                if self.branch(ex):
                    w = [self.fresh("first", x.sort()) for x in vs]
                    sub = list(zip(vs, w))
                    self.assume(z3.substitute(body, *sub))
                    if len(vs) == 1:
                        v = vs[0]
                        self.assume(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < w[0]), z3.Not(z3.And(g)))))
                    return subst(e, sub)
            raise VRaise(IndexError("index out of range"))
        # concrete prefix then segment
        if isinstance(i, int) and i >= 0 and lst.segs and isinstance(lst.segs[0], Conc) and i < len(lst.segs[0].items):
            return lst.segs[0].items[i]
        if isinstance(i, int) and i < 0 and lst.segs and isinstance(lst.segs[-1], Conc) and -i <= len(lst.segs[-1].items):
            return lst.segs[-1].items[i]
        if isinstance(i, (SNum, int)) and not lst.unordered and all(isinstance(s, Conc) or s.simple() for s in lst.segs) and self.entails(self.num(i) >= 0):
            it, off = self.num(i), z3.IntVal(0)
            for s in lst.segs:
                if isinstance(s, Conc):
                    for x in s.items:
                        if self.branch(it == off):
                            return x
                        off = off + 1
                else:
                    n = s.dims[0][1]
                    n = z3.If(n > 0, n, z3.IntVal(0))
                    if self.branch(it < off + n):
                        return subst(s.elem, [(s.dims[0][0], z3.simplify(it - off))])
                    off = off + n
            raise VRaise(IndexError("index out of range"))
        raise Undecided(f"indexing of complex view {lst!r}[{i!r}]")

    def slice(self, lst, sl):
        if any(isinstance(x, SNum) for x in (sl.start, sl.stop, sl.step)):
            sg = lst.simple_seg()
            if sg and sl.step is None:
                n = sg.dims[0][1]
                st = self.num(sl.start) if sl.start is not None else z3.IntVal(0)
                en = self.num(sl.stop) if sl.stop is not None else n
                if not self.branch(z3.And(st >= 0, en >= 0)):
                    raise Undecided("negative symbolic slice")
                if self.branch(en > n):
                    en = n
                if self.branch(st > en):
                    return VList([Conc([])], lst.kind, self.tick())
                k = z3.Int(fresh_name("k"))
                return VList([Seg([(k, z3.simplify(en - st))], TRUE, subst(sg.elem, [(sg.dims[0][0], k + st)]))], lst.kind, self.tick())
            raise Undecided("symbolic slice")
        if lst.concrete():
            return VList([Conc(lst.items()[sl])], lst.kind, self.tick())
        sg = lst.simple_seg()
        step = sl.step
        if sg and step in (None, 1):
            n = sg.dims[0][1]
            st, en = sl.start or 0, sl.stop
            if st == 0 and en is None:
                return VList(list(lst.segs), lst.kind, self.tick())
            if st >= 0 and en is None:
                if self.branch(n >= st):
                    k = z3.Int(fresh_name("k"))
                    return VList([Seg([(k, z3.simplify(n - st))], TRUE, subst(sg.elem, [(sg.dims[0][0], k + st)]))], lst.kind, self.tick())
                return VList([Conc([])], lst.kind, self.tick())
            if st == 0 and en is not None:
                k = z3.Int(fresh_name("k"))
                m = n + en if en < 0 else z3.If(n < en, n, z3.IntVal(en))
                m = z3.If(m < 0, z3.IntVal(0), m)
                return VList([Seg([(k, z3.simplify(m))], TRUE, subst(sg.elem, [(sg.dims[0][0], k)]))], lst.kind, self.tick())
        if sg and step == -1 and sl.start is None and sl.stop is None:
            n = sg.dims[0][1]
            k = z3.Int(fresh_name("k"))
            return VList([Seg([(k, n)], TRUE, subst(sg.elem, [(sg.dims[0][0], n - 1 - k)]))], lst.kind, self.tick())
        raise Undecided("slice of complex view")

    def append(self, lst, v):
        if isinstance(lst, VList) and lst.kind not in ("list", "gen", "deque"):
            raise VRaise(AttributeError(f"'{lst.kind}' object has no attribute 'append'"))
        old = lst.segs
        self.record(lambda: setattr(lst, "segs", old))
        new = list(old)
        if new and isinstance(new[-1], Conc):
            new[-1] = Conc(new[-1].items + [v])
        else:
            new.append(Conc([v]))
        lst.segs = new
        self.effects.append(("append", lst, v))

    def extend(self, lst, it):
        it = self.iterate(it)
        old = lst.segs
        self.record(lambda: setattr(lst, "segs", old))
        lst.segs = list(old) + list(it.segs)
        if it.unordered:
            lst.unordered = True
        self.effects.append(("extend", lst, VList(list(it.segs), "list", 0, it.unordered)))

    def set_segs(self, lst, segs, eff="rewrite", **flags):
        old = (lst.segs, lst.unordered, lst.distinct)

        def undo():
            lst.segs, lst.unordered, lst.distinct = old

        self.record(undo)
        lst.segs = segs
        for k, v in flags.items():
            setattr(lst, k, v)
        self.effects.append((eff, lst, None))

    def set_add(self, s, v):
        old = (s.segs, s.distinct)
        self.record(lambda: (setattr(s, "segs", old[0]), setattr(s, "distinct", old[1])))
        if s.concrete() and not is_sym(v) and not is_sym(s):
            if any(self.eq(x, v) is True for x in s.items()):
                pass
            else:
                s.segs = [Conc(s.items() + [v])]
        else:
            s.segs = list(s.segs) + [Conc([v])]
            s.distinct = False
        self.effects.append(("set_add", s, v))

    def dict_set(self, d, k, v):
        old = (d.pairs, dict(d.meta))

        def undo():
            d.pairs, d.meta = old[0], old[1]

        self.record(undo)
        if d.concrete():
            new = []
            hit = False
            for s in d.pairs:
                for p in s.items:
                    kk, vv = p.items()
                    if not hit and self.branch(self.zb(self.eq(kk, k))):
                        new.append(self.tup(kk, v))
                        hit = True
                    else:
                        new.append(p)
            if not hit:
                new.append(self.tup(k, v))
            d.pairs = [Conc(new)]
        else:
            ex = self.contains(self.dict_keys(d), k)
            if self.branch(self.zb(ex)):
                # overwrite symbolically
                segs = []
                for s in d.pairs:
                    if isinstance(s, Conc):
                        items = []
                        for p in s.items:
                            kk, vv = p.items()
                            items.append(self.tup(kk, v if self.branch(self.zb(self.eq(kk, k))) else vv))
                        segs.append(Conc(items))
                    else:
                        dims, g, e = rename_seg(s)
                        kk, vv = e.items()
                        q = self.merge_bool(self.generic([x for x, _ in dims], z3.And(dims_cond(dims), g), lambda: self.eq(kk, k)))
                        segs.append(Seg(dims, g, self.tup(kk, self.ite(self.zb(q), v, vv))))
                d.pairs = segs
            else:
                d.pairs = list(d.pairs) + [Conc([self.tup(k, v)])]
        self.effects.append(("dict_set", d, (k, v)))

    def ite(self, c, a, b):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return a if c else b
        c = z3.simplify(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        import numpy as np

        if a is b:
            return a
        isbool = lambda x: isinstance(x, (bool, np.bool_, SBool))
        if isbool(a) and isbool(b):
            return SBool(z3.If(c, self.zb(a), self.zb(b)))
        if self.is_num(a) and self.is_num(b) and not isbool(a) and not isbool(b):
            if not any(isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x)) for x in (a, b)):
                x, y = self.num(a), self.num(b)
                if x.is_int() != y.is_int():
                    x, y = (z3.ToReal(x) if x.is_int() else x), (z3.ToReal(y) if y.is_int() else y)
                return SNum(z3.If(c, x, y))
        if isinstance(a, SObj) and isinstance(b, SObj) and a.kind is b.kind:
            return SObj(a.kind, z3.If(c, a.t, b.t))
        if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is b.cls and a.cls in MERGEABLE:
            return self.merge_values([(c, a), (z3.Not(c), b)])
        return Choice([(c, a), (z3.Not(c), b)])

    def merge_values(self, alts):
        """[(cond, value)] (exclusive, jointly exhaustive in context) -> value"""
        if len(alts) == 1:
            return alts[0][1]
        groups = []
        for c, x in alts:
            for g in groups:
                if identical(g[1], x):
                    g[0].append(c)
                    break
            else:
                groups.append(([c], x))
        if len(groups) < len(alts):
            alts = [(c[0] if len(c) == 1 else z3.simplify(z3.Or(*c)), x) for c, x in groups]
            if len(alts) == 1:
                return alts[0][1]
        c0 = getattr(alts[0][1], "cls", None)
        if c0 in MERGEABLE and all(isinstance(x, VObj) and x.cls is c0 for _, x in alts):
            return VObj(c0, {n: self.merge_values([(c, x.attrs[n]) for c, x in alts]) for n in alts[0][1].attrs}, self.tick())
        v = alts[-1][1]
        flat = True
        for c, x in reversed(alts[:-1]):
            nv = self.ite(c, x, v)
            if isinstance(nv, Choice):
                flat = False
                break
            v = nv
        if flat:
            return v
        return Choice([(c, x) for c, x in alts])

    # ------------------------------------------------------------------ the loop rule
    def foreach(self, coll, body, frame=None, assigned=(), label="loop"):
        """Run `body(value)` for every element of coll.  Symbolic segments are summarised (see module doc).

        body may raise BreakEx/ContinueEx/ReturnEx/VRaise.  Returns True if the loop ended without break.
        """
        coll = self.iterate(coll)
        if coll.kind in ("set", "frozenset") and not coll.distinct:
            c = self.canon_set(coll) if not coll.concrete() else self.dedup(coll)
            if c is None:
                c = coll  # iteration over possible duplicates: only idempotent effects are exact
                c.meta["maybe_dups"] = True
            coll = c
        for s in list(coll.segs):
            if isinstance(s, Conc):
                for it in s.items:
                    try:
                        body(it)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return False
            else:
                jm, pm, em, hints = len(self.journal), len(self.pc), len(self.effects), list(self.hint_idx)
                try:
                    if not self.summarise(s, body, frame, assigned, coll):
                        return False
                except PeelNeeded:
                    # the body deletes an attribute of an outer object: the first iteration is run on its own
                    self.undo(jm)
                    del self.pc[pm:]
                    del self.effects[em:]
                    self.hint_idx = hints
                    rest = self.peel(s, coll, body)
                    if rest is None:
                        continue
                    if rest is False or not self.summarise(rest, body, frame, assigned, coll):
                        return False
        return True

    def peel(self, s, coll, body):
        """run the body for one element of the segment first (index 0, or any element of an unordered collection of distinct
        elements); the segment of the other elements, None if there is none, False after a break"""
        dims, guard, elem = rename_seg(s)
        if len(dims) != 1:
            raise Undecided("first iteration of a nested segment")
        v, n = dims[0]
        if n is not None and z3.is_true(guard):
            if not self.branch(n > 0):
                return None
            first, rest = z3.IntVal(0), Seg([(v, n - 1)], guard, subst(elem, [(v, v + 1)]))
            first = subst(elem, [(v, first)])
        elif coll.unordered and coll.distinct:
            dom = z3.And(dims_cond(dims), guard)
            if not self.branch(z3.Exists([v], dom)):
                return None
            w = self.fresh("first", v.sort())
            self.assume(z3.substitute(dom, (v, w)))
            first, rest = subst(elem, [(v, w)]), Seg(dims, z3.And(guard, v != w), elem)
        else:
            raise Undecided("first iteration of a filtered segment")
        try:
            body(first)
        except ContinueEx:
            pass
        except BreakEx:
            return False
        return rest

    def summarise(self, s, body, frame, assigned, coll):
        dims, guard, elem = rename_seg(s)
        vs = [v for v, _ in dims]
        dom = z3.And(dims_cond(dims), guard)
        if not self.feasible([dom]):
            return True
        start_clock = self.clock
        outer_elem = getattr(self, "loop_elem", None), getattr(self, "loop_guard", None)
        self.loop_elem, self.loop_guard = elem, guard
        try:
            return self.summarise_(dims, guard, elem, vs, dom, start_clock, body, frame, assigned, coll)
        finally:
            self.loop_elem, self.loop_guard = outer_elem

    def summarise_(self, dims, guard, elem, vs, dom, start_clock, body, frame, assigned, coll):
        ordered = not coll.unordered and len(vs) == 1 and dims[0][1] is not None
        # havoc loop-assigned variables
        pre = {}
        havoc = {}
        if frame is not None:
            for nme in assigned:
                fr = self.find_frame(frame, nme)
                if fr is None:
                    continue
                old = fr.vars[nme]
                pre[nme] = (fr, old)
                import numpy as np
                o = old
                if isinstance(o, (bool, SBool, np.bool_)):
                    h = SBool(z3.Const(fresh_name("h_" + nme), z3.BoolSort()))
                elif isinstance(o, SNum):
                    h = SNum(z3.Const(fresh_name("h_" + nme), o.t.sort()), o.np)
                elif isinstance(o, (int,)):
                    h = SNum(z3.Int(fresh_name("h_" + nme)))
                elif isinstance(o, (float, np.floating)) and not math.isinf(o):
                    h = SNum(z3.Real(fresh_name("h_" + nme)))
                else:
                    h = Poison(f"variable {nme} carried around the loop")
                havoc[nme] = h
        rmark = len(self.reads)
        # numbers accumulated with int start but real increments: decide by trial
        def run_once():
            em = len(self.effects)
            for nme, (fr, old) in pre.items():
                self.set_var_in(fr, nme, havoc[nme])
            kind, val = "normal", None
            try:
                body(elem)
            except ContinueEx:
                pass
            except BreakEx:
                kind = "break"
            except ReturnEx as r:
                kind, val = "return", r.v
            except VRaise as r:
                kind, val = "raise", r.exc
            eff = [e for e in self.effects[em:]]
            post = {}
            if frame is not None:
                for nme in assigned:
                    fr = self.find_frame(frame, nme)
                    if fr is not None:
                        post[nme] = fr.vars[nme]
            return kind, val, eff, post

        self.loop_clocks = self.loop_clocks + [start_clock]
        try:
            res = self.generic(vs, dom, run_once)
        finally:
            self.loop_clocks = self.loop_clocks[:-1]
        reads = self.reads[rmark:]
        del self.reads[rmark:]
        if self.loopvars:
            self.reads.extend(reads)
        normal = [(br, r) for br, r in res if r[0] == "normal"]
        exits = [(br, r) for br, r in res if r[0] != "normal"]

        def cond(br):
            return z3.simplify(z3.And(*br)) if br else TRUE

        # which objects created before the loop are mutated?
        mutated = {}
        for br, r in res:
            for e in r[2]:
                ob = e[1]
                if getattr(ob, "birth", 0) <= start_clock:
                    mutated[id(ob)] = ob
        for ob in reads:
            if id(ob) in mutated and not isinstance(ob, VObj):
                m = mutated[id(ob)]
                if isinstance(m, VDict) and self.dict_fold_ok(m, res, start_clock):
                    continue
                raise Undecided(f"loop reads a collection it modifies ({label_of(m)})")
        hv = {}
        for nme, h in havoc.items():
            if isinstance(h, (SNum, SBool)):
                hv[h.t.get_id()] = nme

        def mentions_havoc(v):
            for t in value_terms(v):
                fc = free_consts(t)
                if any(i in hv for i in fc):
                    return True
            return False

        # conditions must not depend on loop-carried values
        for br, r in res:
            for f in br:
                if any(i in hv for i in free_consts(f)):
                    raise Undecided("loop control depends on loop-carried variable")

        xcond = z3.Or(*[cond(br) for br, _ in exits]) if exits else None
        ncond = [(cond(br), r) for br, r in normal]

        def apply_summary(limit=None):
            """effects of the (non-exit) iterations; limit: only iterations < limit"""
            extra = []
            if limit is not None:
                extra = [vs[0] < limit]
            # collections
            order = []
            per = {}
            for c, r in ncond:
                for e in r[2]:
                    ob = e[1]
                    if getattr(ob, "birth", 0) > start_clock:
                        continue
                    key = (id(ob), e[0] if e[0] in ("setattr", "setitem") else "coll")
                    if e[0] == "setattr":
                        key = (id(ob), "setattr", e[2][0])
                    if key not in per:
                        per[key] = (ob, [])
                        order.append(key)
                    per[key][1].append((c, e))
            for key in order:
                ob, lst = per[key]
                for c, e in lst:
                    pl = e[2]
                    if isinstance(pl, Sym) and mentions_havoc(pl) or (isinstance(pl, tuple) and any(isinstance(x, Sym) and mentions_havoc(x) for x in pl)):
                        raise Undecided("loop stores a loop-carried value")
                if key[1] == "setattr":
                    self.sum_setattr(ob, key[2], lst, dims, guard, extra, dom)
                    continue
                if lst[0][1][0] == "setidx":
                    self.sum_setidx(ob, lst, dims, guard, extra)
                    continue
                kinds = {e[0] for _, e in lst}
                if kinds <= {"append"}:
                    # at most one append per path?
                    perpath = {}
                    for c, e in lst:
                        perpath.setdefault(c.get_id(), []).append((c, e[2]))
                    if all(len(x) == 1 for x in perpath.values()):
                        alts = [x[0] for x in perpath.values()]
                        g = z3.simplify(z3.And(guard, z3.Or(*[c for c, _ in alts]), *extra))
                        if self.valid_under(dom, z3.Or(*[c for c, _ in alts])):
                            g = z3.simplify(z3.And(guard, *extra))
                        val = self.merge_values(alts)
                        self.add_seg(ob, Seg(dims, g, val), coll.unordered)
                    else:
                        for c, e in lst:
                            self.add_seg(ob, Seg(dims, z3.simplify(z3.And(guard, c, *extra)), e[2]), True)
                elif kinds <= {"append", "extend"}:
                    for c, e in lst:
                        if e[0] == "append":
                            self.add_seg(ob, Seg(dims, z3.simplify(z3.And(guard, c, *extra)), e[2]), len(lst) > 1 or coll.unordered)
                        else:
                            for sg in e[2].segs:
                                if isinstance(sg, Conc):
                                    for it in sg.items:
                                        self.add_seg(ob, Seg(dims, z3.simplify(z3.And(guard, c, *extra)), it), True)
                                else:
                                    d2, g2, e2 = rename_seg(sg)
                                    self.add_seg(ob, Seg(dims + d2, z3.simplify(z3.And(guard, c, g2, *extra)), e2), len(lst) > 1 or len(e[2].segs) > 1 or coll.unordered or e[2].unordered)
                elif kinds <= {"set_add", "set_update"}:
                    old = (ob.segs, ob.distinct)
                    self.record(lambda ob=ob, old=old: (setattr(ob, "segs", old[0]), setattr(ob, "distinct", old[1])))
                    segs = list(ob.segs)
                    for c, e in lst:
                        g = z3.simplify(z3.And(guard, c, *extra))
                        if e[0] == "set_add":
                            segs.append(Seg(dims, g, e[2]))
                        else:
                            for sg in e[2].segs:
                                if isinstance(sg, Conc):
                                    segs += [Seg(dims, g, it) for it in sg.items]
                                else:
                                    d2, g2, e2 = rename_seg(sg)
                                    segs.append(Seg(dims + d2, z3.simplify(z3.And(g, g2)), e2))
                    ob.segs = segs
                    ob.distinct = False
                    cs = self.canon_set(ob)
                    if cs is not None:
                        ob.segs = cs.segs
                        ob.distinct = True
                    self.effects.append(("set_update", ob, VList(segs[len(old[0]):], "list")))
                elif kinds <= {"set_remove", "set_discard"}:
                    perpath = {}
                    for c, e in lst:
                        perpath.setdefault(c.get_id(), []).append(c)
                    if any(len(x) > 1 for x in perpath.values()):
                        raise Undecided("several removals per iteration")
                    if "set_remove" in kinds:
                        for c1, e1 in lst:
                            for c2, e2 in lst:
                                d2, g2, t2 = rename_seg(Seg(dims, z3.And(guard, c2, *extra), e2[2]))
                                pre_ = z3.And(dims_cond(dims), guard, c1, *extra, dims_cond(d2), g2, z3.Or(*[a[0] != b[0] for a, b in zip(dims, d2)]))
                                q = self.merge_bool(self.generic(vs + [v for v, _ in d2], pre_, lambda: self.eq(e1[2], t2)))
                                if not self.entails(z3.Implies(pre_, z3.Not(self.zb(q)))):
                                    raise Undecided("an element may be removed twice")
                    segs = []
                    for sg in ob.segs:
                        for d0, g0, x0 in ([([], TRUE, x) for x in sg.items] if isinstance(sg, Conc) else [rename_seg(sg)]):
                            gone = []
                            for c, e in lst:
                                d2, g2, t2 = rename_seg(Seg(dims, z3.And(guard, c, *extra), e[2]))
                                q = self.merge_bool(self.generic([v for v, _ in d0] + [v for v, _ in d2], z3.And(dims_cond(d0), g0, dims_cond(d2), g2), lambda: self.eq(x0, t2)))
                                gone.append(z3.Exists([v for v, _ in d2], z3.And(dims_cond(d2), g2, self.zb(q))))
                            segs.append(Seg(d0, z3.simplify(z3.And(g0, z3.Not(z3.Or(*gone)))), x0))
                    self.set_segs(ob, segs)
                elif kinds <= {"dict_set"}:
                    old = (ob.pairs, ob.meta)
                    self.record(lambda ob=ob, old=old: (setattr(ob, "pairs", old[0]), setattr(ob, "meta", old[1])))
                    perpath = {}
                    for c, e in lst:
                        perpath.setdefault(c.get_id(), []).append((c, self.tup(*e[2])))
                    if any(len(x) > 1 for x in perpath.values()):
                        raise Undecided("several dict writes per iteration")
                    alts = [x[0] for x in perpath.values()]
                    orc = z3.Or(*[c for c, _ in alts])
                    g = z3.simplify(z3.And(guard, *extra)) if self.valid_under(dom, orc) else z3.simplify(z3.And(guard, orc, *extra))
                    if len(alts) == 1:
                        e = alts[0][1]
                    else:
                        k = self.merge_values([(c, p.items()[0]) for c, p in alts])
                        v = self.merge_values([(c, p.items()[1]) for c, p in alts])
                        e = self.tup(k, v)
                    ob.pairs = list(ob.pairs) + [Seg(dims, g, e)]
                    ob.meta = {}
                    self.effects.append(("dict_update", ob, None))
                    try:
                        self.need_distinct(ob)
                    except Undecided:
                        if len(mutated) > 1 or pre or exits or extra or old[0] and any(not isinstance(q, Conc) or q.items for q in old[0]):
                            raise
                        self.one_per_key(ob, Seg(dims, g, e), body, start_clock)
                else:
                    raise Undecided(f"loop effect {kinds}")
            # scalar accumulators
            for nme, (fr, old) in pre.items():
                posts = [(c, r[3][nme]) for c, r in ncond]
                h = havoc[nme]
                self.set_var_in(fr, nme, self.sum_scalar(nme, old, h, posts, dims, guard, extra, hv, dom))
            # loop-local variables
            if frame is not None:
                for nme in assigned:
                    if nme in pre:
                        continue
                    fr = self.find_frame(frame, nme) or frame
                    self.set_var_in(frame, nme, Poison(f"variable {nme} assigned in loop"))

        if not exits:
            apply_summary()
            return True
        # fork: no exit at all, or exit at a first index
        allx = z3.ForAll(vs, z3.Implies(dom, z3.Not(xcond)))
        w = [self.fresh("exit", v.sort()) for v in vs]
        self.hint_idx = self.hint_idx + w
        sub = list(zip(vs, w))
        opts = [(None, allx)]
        for n, (br, r) in enumerate(exits):
            c = z3.And(z3.substitute(dom, *sub), z3.substitute(cond(br), *sub))
            if ordered:
                v = vs[0]
                c = z3.And(c, z3.ForAll([v], z3.Implies(z3.And(dom, v < w[0]), z3.Not(xcond))))
            opts.append((n, c))
        # definitional: if some exit exists then the witness satisfies one of the options (keeps choice total)
        self.define(z3.Or(*[c for _, c in opts]))
        k = self.choose(opts)
        if k is None:
            apply_summary()
            return True
        br, (kind, val, eff, post) = exits[k]
        if any(getattr(e[1], "birth", 0) <= start_clock for e in eff) or (ncond and any(getattr(e[1], "birth", 0) <= start_clock for _, r in ncond for e in r[2])):
            if not ordered:
                raise Undecided("early exit from unordered loop with effects")
        if ordered:
            apply_summary(limit=w[0])
        elif kind in ("break",) or any(True for _ in pre):
            for nme, (fr, old) in pre.items():
                self.set_var_in(fr, nme, Poison("loop-carried in unordered loop"))
        # replay effects of the exiting iteration
        for e in eff:
            if getattr(e[1], "birth", 0) > start_clock:
                continue
            pl = subst(e[2], sub)
            if isinstance(pl, Sym) and mentions_havoc(pl):
                raise Undecided("exit iteration stores loop-carried value")
            if e[0] == "append":
                self.append(e[1], pl)
            elif e[0] == "extend":
                self.extend(e[1], pl)
            elif e[0] == "set_add":
                self.set_add(e[1], pl)
            elif e[0] == "dict_set":
                self.dict_set(e[1], *pl)
            elif e[0] == "setattr":
                self.set_attr_raw(e[1], pl[0], pl[1])
            else:
                raise Undecided("effect in exiting iteration")
        # environment at the exit
        if frame is not None and kind == "break":
            cur = {}
            for nme, h in havoc.items():
                if isinstance(h, (SNum, SBool)):
                    fr, _ = pre[nme]
                    cur[nme] = fr.vars[nme] if ordered else Poison("x")
            for nme, v in post.items():
                fr = pre[nme][0] if nme in pre else (self.find_frame(frame, nme) or frame)
                if nme in pre:
                    h = havoc[nme]
                    if isinstance(h, Poison):
                        nv = subst(v, sub) if v is not h else (pre[nme][1] if self.never_assigned(nme, ncond, h) else Poison("carried"))
                    else:
                        nv = subst(v, sub)
                        # replace havoc by summary value
                        rep = []
                        bad = False
                        for n2, h2 in havoc.items():
                            if isinstance(h2, (SNum, SBool)):
                                cv = cur[n2]
                                if isinstance(cv, Poison):
                                    if isinstance(nv, Sym) and any(h2.t.get_id() in free_consts(t) for t in value_terms(nv)):
                                        bad = True
                                    continue
                                ct = self.num(cv) if isinstance(h2, SNum) else self.zb(cv)
                                if isinstance(h2, SNum) and ct.sort() != h2.t.sort():
                                    ct = z3.ToReal(ct) if h2.t.is_real() else ct
                                if ct.sort() == h2.t.sort():
                                    rep.append((h2.t, ct))
                                else:
                                    bad = True
                        nv = Poison("carried") if bad else subst(nv, rep)
                    self.set_var_in(fr, nme, nv)
                else:
                    nv = subst(v, sub)
                    self.set_var_in(fr, nme, nv)
        if kind == "break":
            return False
        val = subst(val, sub) if isinstance(val, Sym) else val
        if kind == "return":
            if isinstance(val, Sym) and mentions_havoc(val):
                rep = []
                for n2, h2 in havoc.items():
                    if isinstance(h2, (SNum, SBool)) and ordered:
                        cv = pre[n2][0].vars[n2]
                        if isinstance(cv, Poison):
                            raise Undecided("returned loop-carried value")
                        ct = self.num(cv) if isinstance(h2, SNum) else self.zb(cv)
                        if ct.sort() != h2.t.sort():
                            raise Undecided("returned loop-carried value")
                        rep.append((h2.t, ct))
                val = subst(val, rep)
                if mentions_havoc(val):
                    raise Undecided("returned loop-carried value")
            raise ReturnEx(val)
        raise VRaise(val)

    def never_assigned(self, nme, ncond, h):
        return all(r[3].get(nme) is h for _, r in ncond)

    def valid_under(self, dom, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        s = z3.Solver()
        s.set("rlimit", 100_000)
        s.add(dom, z3.Not(c))
        r = s.check()
        if r == z3.unsat:
            return True
        # a sufficient test only: a guard that could have been dropped is kept when the solver gives up
        return self.entails(z3.Implies(dom, c), rlimit=300_000)

    def add_seg(self, ob, seg, unordered):
        old = (ob.segs, ob.unordered)

        def undo():
            ob.segs, ob.unordered = old

        self.record(undo)
        ob.segs = [x for x in ob.segs if not (isinstance(x, Conc) and not x.items)] + [seg]
        if unordered:
            ob.unordered = True
        self.effects.append(("extend", ob, VList([seg], "list", 0, unordered)))

    def dict_fold_ok(self, d, res, start_clock):
        """reads of a dict that the loop itself fills are allowed only when each iteration touches a fresh key;
        the body was executed against the pre-loop content, so this is exact iff the keys are pairwise distinct
        (need_distinct proves that when the summary is attached) and every read key equals the written key."""
        if not self.loop_dict_reads_are_own_key(d, res):
            return False
        return True

    def one_per_key(self, ob, s, body, start_clock):
        """a loop over elements with repeated keys that fills an empty dictionary, either writing without looking at it (the last
        element of a key stays) or leaving a present key alone (the first one stays): the dictionary holds, for every key that
        occurs, what one element with that key wrote"""
        dims, g, e = s.dims, s.guard, s.elem
        key = e.items()[0]
        if self.loopvars or len(dims) != 1 or not isinstance(key, (SObj, SNum)) or not isinstance(e.items()[1], (SObj, SNum)):
            raise Undecided("dict with possibly repeated keys")
        if any(d is ob for d, _ in self.dict_reads):
            keep = (ob.pairs, ob.meta)
            ob.pairs, ob.meta = [], {"present": key}
            self.loop_clocks = self.loop_clocks + [start_clock]
            vs = [v for v, _ in dims]

            def again():
                em = len(self.effects)
                try:
                    body(again.elem)
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx, VRaise):
                    raise Undecided("exit for a repeated key")
                return [x for x in self.effects[em:] if getattr(x[1], "birth", 0) <= start_clock]
            again.elem = self.loop_elem
            try:
                res = self.generic(vs, z3.And(dims_cond(dims), self.loop_guard), again)
            finally:
                self.loop_clocks = self.loop_clocks[:-1]
                ob.pairs, ob.meta = keep
            if any(r for _, r in res):
                raise Undecided("effect for a repeated key")
        v = dims[0][0]
        rep = z3.Function(fresh_name("one_with_key"), key.t.sort(), v.sort())
        dom = z3.And(dims_cond(dims), g)
        r = rep(key.t)
        self.assume(z3.ForAll([v], z3.Implies(dom, z3.And(z3.substitute(dom, (v, r)), z3.substitute(key.t, (v, r)) == key.t)), patterns=[key.t] if z3.is_app(key.t) and key.t.num_args() else []))
        ob.pairs = [Seg(dims, z3.simplify(z3.And(g, v == r)), e)]
        ob.meta = {"distinct": True}

    def loop_dict_reads_are_own_key(self, d, res):
        keys = []
        for br, r in res:
            for e in r[2]:
                if e[1] is d:
                    if e[0] != "dict_set":
                        return False
                    keys.append(e[2][0])
        rk = [k for dd, k in self.dict_reads if dd is d]
        self_keys = {k.t.get_id() for k in keys if isinstance(k, (SObj, SNum))}
        return all(isinstance(k, (SObj, SNum)) and k.t.get_id() in self_keys for k in rk) and bool(keys)

    def sum_setattr(self, ob, name, lst, dims, guard, extra, dom):
        if all(e[2][1] is MISSING for _, e in lst):
            raise PeelNeeded(f"loop deletes attribute {name} of an outer object")
        raise Undecided(f"loop assigns attribute {name} of an outer object")

    def sum_setidx(self, ob, lst, dims, guard, extra):
        """a[i] = v with i the loop variable of the same domain"""
        sg = ob.simple_seg()
        if sg is None or len(dims) != 1:
            raise Undecided("array writes in loop")
        v, hi = dims[0]
        elem = subst(sg.elem, [(sg.dims[0][0], v)])
        for c, e in lst:
            idx, val = e[2]
            if not (isinstance(idx, SNum) and idx.t.get_id() == v.get_id()):
                raise Undecided("array write at index other than the loop variable")
            elem = self.ite(z3.And(v < hi, v >= 0, guard, c, *extra), val, elem)
        old = ob.segs
        self.record(lambda: setattr(ob, "segs", old))
        ob.segs = [Seg([(v, sg.dims[0][1])], TRUE, elem)]
        self.effects.append(("rewrite", ob, None))

    def sum_scalar(self, nme, old, h, posts, dims, guard, extra, hv, dom):
        if all(p is h for _, p in posts):
            return old
        if isinstance(h, Poison):
            return Poison(f"variable {nme} assigned in loop")
        import numpy as np

        if isinstance(h, SBool):
            consts = []
            for c, p in posts:
                if p is h or (isinstance(p, SBool) and p.t.get_id() == h.t.get_id()):
                    continue
                if isinstance(p, (bool, np.bool_)):
                    consts.append((c, bool(p)))
                    continue
                return Poison(f"variable {nme} carried")
            vals = {b for _, b in consts}
            if len(vals) == 1:
                b = vals.pop()
                ex = z3.Exists([v for v, _ in dims], z3.And(dims_cond(dims), guard, *extra, z3.Or(*[c for c, _ in consts])))
                return SBool(z3.simplify(z3.If(ex, z3.BoolVal(b), self.zb(old))))
            return Poison(f"variable {nme} carried")
        # additive accumulation
        delta = z3.RealVal(0)
        isint = True
        terms = []
        for c, p in posts:
            p = p if not isinstance(p, Choice) else p
            if isinstance(p, (Choice, Poison)) or not self.is_num(p):
                return Poison(f"variable {nme} carried")
            if isinstance(p, (float, np.floating)) and (math.isinf(p) or math.isnan(p)):
                return Poison(f"variable {nme} carried")
            t = self.num(p)
            hh = h.t
            if t.is_real() and hh.is_int():
                hh = z3.ToReal(hh)
            d = z3.simplify(t - hh, som=True)
            if any(i in hv for i in free_consts(d)):
                return Poison(f"variable {nme} carried")
            if d.is_real():
                isint = False
            terms.append((c, d))
        body = z3.RealVal(0)
        for c, d in terms:
            body = z3.If(c, d if d.is_real() else z3.ToReal(d), body)
        tot = self.sigma(dims, z3.And(guard, *extra), body)
        if isint:
            r = self.fresh("acc", z3.IntSort())
            self.define(z3.ToReal(r) == tot)
            return SNum(z3.simplify(self.num(old) + r))
        o = self.num(old)
        o = z3.ToReal(o) if o.is_int() else o
        return SNum(z3.simplify(o + tot))

    # ------------------------------------------------------------------ variables
    def find_frame(self, frame, name):
        f = frame
        while f is not None:
            if name in f.vars:
                return f
            f = f.parent
        return None

    def set_var_in(self, fr, name, v):
        had = name in fr.vars
        old = fr.vars.get(name)

        def undo():
            if had:
                fr.vars[name] = old
            else:
                fr.vars.pop(name, None)

        self.record(undo)
        fr.vars[name] = v

    def set_var(self, frame, name, v):
        if name in frame.nonlocals:
            f = self.find_frame(frame.parent, name)
            return self.set_var_in(f, name, v)
        if name in frame.globaldecl:
            raise Undecided("assignment to a global")
        self.set_var_in(frame, name, v)

    def get_var(self, frame, name):
        f = self.find_frame(frame, name)
        if f is not None:
            v = f.vars[name]
            if isinstance(v, Poison):
                raise Undecided(v.why)
            return v
        if name == "__class__" and frame.cls is not None:
            return frame.cls
        if name in frame.globs:
            return self.wrap_global(frame.globs[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise VRaise(NameError(f"name '{name}' is not defined"))

    def wrap_global(self, v):
        if isinstance(v, (list, dict, set)) and type(v) in (list, dict, set):
            return v  # native containers handled natively
        return v

    def set_attr_raw(self, obj, name, v):
        had = name in obj.attrs
        old = obj.attrs.get(name)

        def undo():
            if had:
                obj.attrs[name] = old
            else:
                obj.attrs.pop(name, None)

        self.record(undo)
        obj.attrs[name] = v
        self.effects.append(("setattr", obj, (name, v)))

    def del_attr_raw(self, obj, name):
        if name not in obj.attrs:
            raise VRaise(AttributeError(name))
        old = obj.attrs[name]
        self.record(lambda: obj.attrs.__setitem__(name, old))
        del obj.attrs[name]
        self.effects.append(("setattr", obj, (name, MISSING)))


MERGEABLE = set()  # immutable value classes whose instances merge attribute by attribute


def identical(a, b):
    """syntactic equality of values (immutable parts only)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (SNum, SBool)):
        return a.t.eq(b.t)
    if isinstance(a, SObj):
        return a.kind is b.kind and a.t.eq(b.t)
    if isinstance(a, (int, float, str, bool)) or a is None:
        return a == b and type(a) is type(b)
    if isinstance(a, VObj):
        return a.cls is b.cls and a.cls in MERGEABLE and a.attrs.keys() == b.attrs.keys() and all(identical(a.attrs[k], b.attrs[k]) for k in a.attrs)
    if isinstance(a, VList) and a.kind == b.kind == "tuple" and a.concrete() and b.concrete():
        x, y = a.items(), b.items()
        return len(x) == len(y) and all(identical(p, q) for p, q in zip(x, y))
    return False


def label_of(m):
    return type(m).__name__

