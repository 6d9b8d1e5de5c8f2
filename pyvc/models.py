"""Models (trusted contracts) of builtins, itertools, numpy and logging used by the verified code.

Every model here is part of the trusted base; the names that were actually used by a run are reported in evidence.
"""
from __future__ import annotations

import ast
import builtins
import collections
import copy as _copy
import functools
import inspect
import itertools
import logging
import math
import operator
import types

import numpy as np
import z3

from .interp import MISSING, TRUE
from .vals import *  # noqa: F403

REGISTRY = {}
CONTAINS = {}
GETITEM = {}
_KEEP = []


class NativeSym(Sym):
    __slots__ = ("f", "name")

    def __init__(self, f, name="?"):
        self.f = f
        self.name = name


class InstDict(Sym):
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o


class SuperProxy(Sym):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class StarArg(Sym):
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it


def model(*fns):
    def deco(f):
        for fn in fns:
            _KEEP.append(fn)

            def wrapped(E, args, kw, fn=fn):
                r = f(E, *args, **kw)
                if r is not NotImplemented:
                    E.trusted.add(f"{getattr(fn, '__module__', '')}.{getattr(fn, '__qualname__', str(fn))}")
                return r

            REGISTRY[id(fn)] = wrapped
        return f

    return deco


# ------------------------------------------------------------------------------ helpers
def kindlist(E, v, kind):
    r = VList(list(v.segs), kind, E.tick(), v.unordered, v.distinct)
    if "sorted" in v.meta:
        r.meta["sorted"] = v.meta["sorted"]
    return r


def map1(E, lst, f, kind=None):
    """elementwise map (f pure, may fork -> merged)"""
    segs = []
    for s in lst.segs:
        if isinstance(s, Conc):
            segs.append(Conc([f(x) for x in s.items]))
        else:
            dims, g, e = rename_seg(s)
            res = E.generic([v for v, _ in dims], z3.And(dims_cond(dims), g), lambda: f(e))
            alts = [(z3.simplify(z3.And(*br)) if br else TRUE, r) for br, r in res]
            segs.append(Seg(dims, g, E.merge_values(alts)) if alts else Conc([]))
    return VList(segs, kind or lst.kind, E.tick(), lst.unordered)


def align(E, a, b):
    """pairs of segments of two sequences iterated in lockstep -> VList of (x, y) tuples segs"""
    if a.concrete() and b.concrete():
        return [Conc([(x, y) for x, y in zip(a.items(), b.items())])], None
    sa = [s for s in a.segs if not (isinstance(s, Conc) and not s.items)]
    sb = [s for s in b.segs if not (isinstance(s, Conc) and not s.items)]
    if not sa or not sb:
        return [Conc([])], None
    if a.unordered or b.unordered:
        raise Undecided("lockstep over unordered views")
    out = []
    while sa and sb:
        x, y = sa[0], sb[0]
        if isinstance(x, Conc) and isinstance(y, Conc):
            n = min(len(x.items), len(y.items))
            out.append(Conc(list(zip(x.items[:n], y.items[:n]))))
            sa = ([Conc(x.items[n:])] if len(x.items) > n else []) + sa[1:]
            sb = ([Conc(y.items[n:])] if len(y.items) > n else []) + sb[1:]
            continue
        if isinstance(x, Seg) and isinstance(y, Seg):
            if len(x.dims) != len(y.dims):
                raise Undecided("lockstep over differently nested views")
            dims, g, e = rename_seg(x)
            d2, g2, e2 = rename_seg(y, [v for v, _ in dims])
            same_hi = all((h1 is None and h2 is None) or (h1 is not None and h2 is not None and (h1.eq(h2) or E.entails(h1 == h2, 1_000_000))) for (_, h1), (_, h2) in zip(dims, d2))
            same_g = g.eq(g2) or E.entails(z3.ForAll([v for v, _ in dims], z3.Implies(dims_cond(dims), g == g2)))
            if same_hi and same_g:
                out.append(Seg(dims, g, (e, e2)))
                sa, sb = sa[1:], sb[1:]
                continue
            if z3.is_true(g) and z3.is_true(g2) and len(dims) == 1 and dims[0][1] is not None and d2[0][1] is not None and (len(sa) > 1 or len(sb) > 1):
                h1, h2 = dims[0][1], d2[0][1]
                v = dims[0][0]
                lt = len(sa) > 1 and E.entails(h1 <= h2)
                if lt or (len(sb) > 1 and E.entails(h2 <= h1)):
                    lo, hi, le = (h1, h2, e2) if lt else (h2, h1, e)
                    out.append(Seg([(v, lo)], TRUE, (e, e2)))
                    w = z3.Int(fresh_name("k"))
                    rest = Seg([(w, z3.simplify(hi - lo))], TRUE, subst(le, [(v, w + lo)]))
                    sa, sb = (sa[1:], [rest] + sb[1:]) if lt else ([rest] + sa[1:], sb[1:])
                    continue
            if z3.is_true(g) and z3.is_true(g2) and len(dims) == 1 and len(sa) == 1 and len(sb) == 1:
                h1, h2 = dims[0][1], d2[0][1]
                m = z3.If(h1 < h2, h1, h2)
                out.append(Seg([(dims[0][0], z3.simplify(m))], TRUE, (e, e2)))
                return out, "short"
            raise Undecided("lockstep over views with different domains")
        # one concrete, one symbolic (simple): split
        c, s, flip = (x, y, False) if isinstance(x, Conc) else (y, x, True)
        if not s.simple():
            raise Undecided("lockstep of concrete and filtered view")
        n = s.dims[0][1]
        items = []
        for k, it in enumerate(c.items):
            if not E.branch(n > k):
                break
            o = subst(s.elem, [(s.dims[0][0], z3.IntVal(k))])
            items.append((o, it) if flip else (it, o))
        out.append(Conc(items))
        if len(items) < len(c.items):
            return out, "short"
        kv = z3.Int(fresh_name("k"))
        m = len(c.items)
        rest = Seg([(kv, z3.simplify(n - m))], TRUE, subst(s.elem, [(s.dims[0][0], kv + m)]))
        if flip:
            sa, sb = [rest] + sa[1:], sb[1:]
        else:
            sa, sb = sa[1:], [rest] + sb[1:]
    return out, ("short" if sa or sb else None)


def is_arr(x):
    return isinstance(x, VList) and x.kind == "ndarray"


def to_arr(E, x):
    if isinstance(x, VList):
        return x
    if isinstance(x, np.ndarray):
        return E.mk([to_arr(E, y) if isinstance(y, np.ndarray) else y.item() for y in x], "ndarray")
    return x


def elementwise(E, f, a, b):
    a, b = to_arr(E, a), to_arr(E, b)
    if isinstance(a, VList) and isinstance(b, VList):
        segs, short = align(E, a, b)
        if short:
            raise Undecided("broadcast of arrays of different length")
        out = []
        for s in segs:
            if isinstance(s, Conc):
                out.append(Conc([f2(E, f, x, y) for x, y in s.items]))
            else:
                e = s.elem
                res = E.generic([v for v, _ in s.dims], z3.And(dims_cond(s.dims), s.guard), lambda: f2(E, f, e[0], e[1]))
                alts = [(z3.simplify(z3.And(*br)) if br else TRUE, r) for br, r in res]
                out.append(Seg(s.dims, s.guard, E.merge_values(alts)))
        return VList(out, "ndarray", E.tick())
    if isinstance(a, VList):
        return map1(E, a, lambda x: f2(E, f, x, b), "ndarray")
    return map1(E, b, lambda y: f2(E, f, a, y), "ndarray")


def f2(E, f, x, y):
    if isinstance(x, VList) or isinstance(y, VList):
        return elementwise(E, f, x, y)
    return f(x, y)


def np_num(E, op, x, y):
    """numpy scalar arithmetic (no ZeroDivisionError): division by zero is undecided, not an exception"""
    r = E.binop(op, x, y)
    return r


def binop(E, op, a, b):
    if isinstance(a, np.ndarray):
        a = to_arr(E, a)
    if isinstance(b, np.ndarray):
        b = to_arr(E, b)
    if is_arr(a) or is_arr(b):
        if op in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow, ast.BitAnd, ast.BitOr):
            if op is ast.BitAnd or op is ast.BitOr:
                j = z3.And if op is ast.BitAnd else z3.Or
                return elementwise(E, lambda x, y: SBool(z3.simplify(j(E.zb(x), E.zb(y)))), a, b)
            return elementwise(E, lambda x, y: E.binop(op, x, y), a, b)
        return NotImplemented
    sets = ("set", "frozenset", "dictkeys")
    if isinstance(a, VList) and isinstance(b, VList) and a.kind in sets and b.kind in sets:
        return set_op(E, op, a, b)
    if isinstance(a, VList) and isinstance(b, VList) and op is ast.Add and a.kind in ("list", "tuple") and b.kind == a.kind:
        r = VList(list(a.segs) + list(b.segs), a.kind, E.tick(), a.unordered or b.unordered)
        if r.concrete():
            r.segs = [Conc(r.items())]
        return r
    if op is ast.Mult:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VList) and x.kind in ("list", "tuple"):
                if isinstance(y, int):
                    r = VList(list(x.segs) * y, x.kind, E.tick())
                    if r.concrete():
                        r.segs = [Conc(r.items())]
                    return r
                if isinstance(y, SNum) and x.concrete() and len(x.items()) == 1:
                    n = z3.If(y.t > 0, y.t, z3.IntVal(0))
                    return VList([Seg([(z3.Int(fresh_name("k")), z3.simplify(n))], TRUE, x.items()[0])], x.kind, E.tick())
    for x, y, rev in ((a, b, False), (b, a, True)):
        if isinstance(x, SObj):
            h = x.kind.binop.get(op)
            if h:
                return h(E, x, y, rev)
    if isinstance(a, VDict) and op is ast.BitOr:
        d = VDict(list(a.pairs), E.tick())
        dict_update(E, d, [b], {})
        return d
    return NotImplemented


def set_op(E, op, a, b):
    if not a.concrete() or any(is_sym(x) for x in a.items()) or not b.concrete() or any(is_sym(x) for x in b.items()):
        if op is ast.BitOr:
            return E.to_set(VList(list(a.segs) + list(b.segs), "list", 0, True))
        flt = {ast.Sub: lambda c: E.not_(c), ast.BitAnd: lambda c: c}.get(op)
        if flt is None:
            if op is ast.BitXor:
                return set_op(E, ast.BitOr, set_op(E, ast.Sub, a, b), set_op(E, ast.Sub, b, a))
            raise Undecided("set operator")
        segs = []
        for s in a.segs:
            if isinstance(s, Conc):
                keep = []
                for x in s.items:
                    if E.branch(E.zb(flt(E.contains(b, x)))):
                        keep.append(x)
                segs.append(Conc(keep))
            else:
                dims, g, e = rename_seg(s)
                c = E.merge_bool(E.generic([v for v, _ in dims], z3.And(dims_cond(dims), g), lambda: E.contains(b, e)))
                segs.append(Seg(dims, z3.simplify(z3.And(g, E.zb(flt(c)))), e))
        return VList(segs, "set", E.tick(), True, a.distinct)
    x, y = a.items(), b.items()
    has = lambda z, q: any(E.eq(z, w) is True for w in q)
    if op is ast.BitOr:
        r = x + [q for q in y if not has(q, x)]
    elif op is ast.BitAnd:
        r = [q for q in x if has(q, y)]
    elif op is ast.Sub:
        r = [q for q in x if not has(q, y)]
    else:
        r = [q for q in x if not has(q, y)] + [q for q in y if not has(q, x)]
    return VList([Conc(r)], "set", E.tick(), True, True)


def fancy_index(E, lst, idx):
    if idx.kind == "tuple":
        return multi_index(E, lst, idx.items())
    if lst.kind not in ("ndarray",):
        raise VRaise(TypeError("list indices must be integers or slices"))
    # boolean mask?
    probe = None
    for s in idx.segs:
        if isinstance(s, Conc):
            if s.items:
                probe = s.items[0]
                break
        else:
            probe = s.elem
            break
    if probe is None:
        return VList([Conc([])], "ndarray", E.tick())
    if isinstance(probe, Choice):
        probe = probe.alts[0][1]
    if isinstance(probe, (SBool, bool, np.bool_)):
        segs, short = align(E, lst, idx)
        if short:
            raise VRaise(IndexError("boolean index did not match"))
        out = []
        for s in segs:
            if isinstance(s, Conc):
                out.append(Conc([x for x, m in s.items if E.truth(m)]))
            else:
                x, m = s.elem
                mb = E.merge_bool(E.generic([v for v, _ in s.dims], z3.And(dims_cond(s.dims), s.guard), lambda: E.as_z3(m)))
                out.append(Seg(s.dims, z3.simplify(z3.And(s.guard, E.zb(mb))), x))
        return VList(out, "ndarray", E.tick())
    return map1(E, idx, lambda i: E.index(lst, i), "ndarray")


def multi_index(E, lst, ix):
    if len(ix) == 2:
        a, b = ix
        if isinstance(a, slice):
            rows = E.slice(lst, a) if not (a.start is None and a.stop is None and a.step is None) else lst
            return map1(E, rows, lambda r: E.getitem(r, b), "ndarray")
        if not isinstance(a, (VList, np.ndarray)):
            return E.getitem(E.getitem(lst, a), b)
    raise Undecided("multi-dimensional index")


def list_setitem(E, o, i, v):
    if isinstance(i, np.integer):
        i = int(i)
    if o.concrete() and isinstance(i, int):
        items = o.items()
        if not -len(items) <= i < len(items):
            raise VRaise(IndexError("assignment index out of range"))
        items = list(items)
        items[i] = v
        E.set_segs(o, [Conc(items)])
        return
    if isinstance(i, slice) or isinstance(i, VList):
        if o.kind == "ndarray" and is_sym(o):
            return scatter(E, o, i, v) or havoc_array(E, o)
        raise Undecided("slice assignment")
    sg = o.simple_seg()
    if sg is not None:
        it = E.num(i)
        if not E.branch(z3.And(it >= 0, it < sg.dims[0][1])):
            raise Undecided("index may be out of range in assignment")
        old = o.segs
        E.record(lambda: setattr(o, "segs", old))
        k = z3.Int(fresh_name("k"))
        e = subst(sg.elem, [(sg.dims[0][0], k)])
        o.segs = [Seg([(k, sg.dims[0][1])], TRUE, E.ite(k == it, v, e))]
        E.effects.append(("setidx", o, (i, v)))
        return
    raise Undecided("item assignment on complex view")


def scatter(E, o, ix, v):
    """array[positions] = values for distinct positions of the array"""
    v = E.resolve(v)
    so = o.simple_seg()
    si = ix.simple_seg() if isinstance(ix, VList) else None
    sv = v.simple_seg() if isinstance(v, VList) else None
    if so is None or si is None or sv is None or isinstance(so.elem, VList) or not E.is_num(si.elem) or not E.is_num(sv.elem) or E.loopvars:
        return None
    n, m = so.dims[0][1], si.dims[0][1]
    a, b = z3.Int(fresh_name("a")), z3.Int(fresh_name("b"))
    pos = lambda t: z3.substitute(E.num(si.elem), (si.dims[0][0], t))
    val = lambda t: z3.substitute(E.num(sv.elem), (sv.dims[0][0], t))
    inm = lambda t: z3.And(0 <= t, t < m)
    ok = z3.And(sv.dims[0][1] == m, z3.ForAll([a], z3.Implies(inm(a), z3.And(0 <= pos(a), pos(a) < n))), z3.ForAll([a, b], z3.Implies(z3.And(inm(a), inm(b), a != b), pos(a) != pos(b))))
    if pos(a).sort() != z3.IntSort() or not E.entails(ok):
        return None
    e = E.num(so.elem)
    toreal = lambda t: z3.ToReal(t) if t.sort() == z3.IntSort() else t
    F = z3.Function(fresh_name("scattered"), z3.IntSort(), z3.RealSort())
    k = z3.Int(fresh_name("k"))
    E.define(z3.ForAll([a], z3.Implies(inm(a), F(pos(a)) == toreal(val(a)))))
    E.define(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.ForAll([a], z3.Implies(inm(a), pos(a) != k))), F(k) == toreal(z3.substitute(e, (so.dims[0][0], k)))), patterns=[F(k)]))
    old = o.segs
    E.record(lambda: setattr(o, "segs", old))
    o.segs = [Seg([(k, n)], TRUE, SNum(F(k), True))]
    E.effects.append(("setidx", o, (ix, v)))
    return True


def havoc_array(E, o):
    """after a slice or tuple assignment: the same shape with unknown contents"""
    def unknown(s, outer):
        if isinstance(s, Conc):
            raise Undecided("slice assignment")
        dims, g, e = rename_seg(s)
        vs = outer + [v for v, _ in dims]
        if isinstance(e, VList):
            if e.concrete():
                n = VList([Conc([value(x, vs) for x in e.items()])], e.kind, 0)
            else:
                n = VList([unknown(t, vs) for t in e.segs if not (isinstance(t, Conc) and not t.items)], e.kind, 0)
            return Seg(dims, g, n)
        return Seg(dims, g, value(e, vs))

    def value(e, vs):
        if isinstance(e, float):
            e = SNum(z3.RealVal(0), True)
        if not isinstance(e, SNum):
            raise Undecided("slice assignment")
        f = z3.Function(fresh_name("slot"), *[v.sort() for v in vs], z3.RealSort())
        return SNum(f(*vs), True)
    segs = [unknown(s, []) for s in o.segs if not (isinstance(s, Conc) and not s.items)]
    E.set_segs(o, segs)


def del_item(E, o, i):
    if isinstance(o, InstDict):
        return E.del_attr_raw(o.o, i)
    if isinstance(o, VDict):
        return dict_pop(E, o, [i])
    if isinstance(o, VList) and o.concrete() and isinstance(i, (int, slice)):
        items = list(o.items())
        try:
            del items[i]
        except IndexError as e:
            raise VRaise(e)
        E.set_segs(o, [Conc(items)])
        return
    if isinstance(o, VObj):
        return E.call_method(o, "__delitem__", [i], {})
    raise Undecided("del item")


def dict_pop(E, d, args):
    k = args[0]
    if d.concrete():
        old = (d.pairs, d.meta)
        new, hit, val = [], False, None
        for s in d.pairs:
            for p in s.items:
                kk, v = p.items()
                if not hit and E.branch(E.zb(E.eq(kk, k))):
                    hit, val = True, v
                else:
                    new.append(p)
        if not hit:
            if len(args) > 1:
                return args[1]
            raise VRaise(KeyError("pop"))
        E.record(lambda: (setattr(d, "pairs", old[0]), setattr(d, "meta", old[1])))
        d.pairs = [Conc(new)]
        E.effects.append(("dict_pop", d, (k,)))
        return val
    raise Undecided("dict.pop on symbolic dict")


def dict_update(E, d, args, kw):
    for a in args:
        a = E.resolve(a)
        if isinstance(a, VDict):
            for s in a.pairs:
                if isinstance(s, Conc):
                    for p in s.items:
                        E.dict_set(d, *p.items())
                else:
                    if d.pairs and any((isinstance(x, Seg) or x.items) for x in d.pairs):
                        raise Undecided("dict.update merging symbolic dicts")
                    old = (d.pairs, d.meta)
                    E.record(lambda: (setattr(d, "pairs", old[0]), setattr(d, "meta", old[1])))
                    d.pairs = [x for x in d.pairs if isinstance(x, Seg) or x.items] + [s]
                    E.effects.append(("dict_update", d, None))
        elif not isinstance(a, Sym):
            for k, v in dict(a).items():
                E.dict_set(d, k, E.lift(v))
        else:
            it = E.iterate(a)
            E.foreach(it, lambda p: E.dict_set(d, E.index(p, 0), E.index(p, 1)))
    for k, v in kw.items():
        E.dict_set(d, k, v)


def with_(E, n, fr):
    raise Undecided("with statement")


def native_method(E, self_, name, args, kw):
    """methods of native builtin objects called with symbolic arguments"""
    if not any(is_sym(x) for x in args) and not any(is_sym(x) for x in kw.values()):
        return NotImplemented
    if isinstance(self_, (list, tuple, dict, set, frozenset)):
        lifted = E.lift(self_ if not isinstance(self_, dict) else dict(self_))
        if name in ("get", "index", "count", "issuperset", "issubset", "intersection", "difference", "union", "__contains__", "isdisjoint"):
            return E.call_method(lifted, name, args, kw)
    if isinstance(self_, str) and name in ("join", "format"):
        return Opaque("string")
    return NotImplemented


def super_attr(E, o, name):
    obj = o.obj
    if isinstance(obj, type):  # classmethod
        cv, cd = E.class_lookup_def(obj, name, o.cls)
        if cv is MISSING:
            return MISSING
        if isinstance(cv, classmethod):
            return BoundMethod(cv.__func__, obj, cd)
        return E.bind(cv, None, obj, cd)
    cls = obj.cls if isinstance(obj, VObj) else None
    if cls is None:
        raise Undecided("super of non-object")
    cv, cd = E.class_lookup_def(cls, name, o.cls)
    if cv is MISSING:
        return MISSING
    if isinstance(cv, property):
        return E.call_prop(obj, cv.fget, cd, name)
    if isinstance(cv, functools.cached_property):
        return E.call_prop(obj, cv.func, cd, name)
    if cd is object:
        if name in ("__init__", "__init_subclass__"):
            return NativeSym(lambda a, k: None, name)
        return BoundMethod(cv, obj, cd)
    return E.bind(cv, obj, cls, cd)


def sym_attr(E, o, name):
    if isinstance(o, SuperProxy):
        return super_attr(E, o, name)
    if isinstance(o, Opaque):
        return NativeSym(lambda a, k: Opaque("opaque method"), name)
    if isinstance(o, BoundMethod):
        if name in ("__name__",):
            return o.func.__name__
        return getattr(o.func, name, MISSING)
    if isinstance(o, InstDict):
        def ipop(a, k):
            if a[0] in o.o.attrs:
                v = o.o.attrs[a[0]]
                E.del_attr_raw(o.o, a[0])
                return v
            if len(a) > 1:
                return a[1]
            raise VRaise(KeyError(a[0]))
        tab = {
            "pop": ipop,
            "get": lambda a, k: o.o.attrs.get(a[0], a[1] if len(a) > 1 else None),
            "keys": lambda a, k: E.mk(list(o.o.attrs)),
            "items": lambda a, k: E.mk([E.tup(x, y) for x, y in o.o.attrs.items()]),
            "copy": lambda a, k: VDict([Conc([E.tup(x, y) for x, y in o.o.attrs.items()])], E.tick()),
            "update": lambda a, k: [E.set_attr_raw(o.o, *p.items()) for s in a[0].pairs for p in s.items] and None,
        }
        return NativeSym(tab[name], name) if name in tab else MISSING
    if isinstance(o, SNum):
        if name == "item":
            return NativeSym(lambda a, k: SNum(o.t), name)
        if name in ("flatten", "copy"):
            return MISSING
        if name == "dtype":
            raise Undecided("dtype")
        return MISSING
    if isinstance(o, VDict):
        f = DICT.get(name)
        return NativeSym(lambda a, k: f(E, o, a, k), name) if f else MISSING
    if isinstance(o, VList):
        tab = {"list": LIST, "tuple": LIST, "gen": GEN, "iter": GEN, "set": SET, "frozenset": SET, "dictkeys": SET, "ndarray": ARR, "deque": LIST}[o.kind]
        if name in tab:
            f = tab[name]
            if getattr(f, "isprop", False):
                return f(E, o)
            return NativeSym(lambda a, k: f(E, o, a, k), name)
        if name == "__iter__":
            return NativeSym(lambda a, k: E.call(iter, [o], {}), name)
        if name == "__len__":
            return NativeSym(lambda a, k: E.length(o), name)
        if name == "__contains__":
            return NativeSym(lambda a, k: E.contains(o, a[0]), name)
        return MISSING
    if isinstance(o, VFunc):
        if name == "__name__":
            return o.name
        return MISSING
    if isinstance(o, Partial) and name == "func":
        return o.func
    return MISSING


# ------------------------------------------------------------------------------ container methods
LIST, SET, DICT, ARR, GEN = {}, {}, {}, {}, {}


def meth(tab, *names):
    def deco(f):
        for n in names:
            tab[n] = f
        return f

    return deco


@meth(LIST, "append")
def _(E, o, a, k):
    E.append(o, a[0])


@meth(LIST, "extend")
def _(E, o, a, k):
    E.extend(o, a[0])


@meth(LIST, "copy")
def _(E, o, a, k):
    return kindlist(E, E.iterate(o), o.kind)


@meth(LIST, "insert")
def _(E, o, a, k):
    if a[0] == 0:
        E.set_segs(o, [Conc([a[1]])] + list(o.segs))
        return
    if o.concrete() and isinstance(a[0], int):
        items = list(o.items())
        items.insert(a[0], a[1])
        E.set_segs(o, [Conc(items)])
        return
    raise Undecided("insert")


@meth(LIST, "pop")
def _(E, o, a, k):
    if o.concrete():
        items = list(o.items())
        i = a[0] if a else -1
        if not isinstance(i, int):
            raise Undecided("pop symbolic index")
        try:
            v = items.pop(i)
        except IndexError as e:
            raise VRaise(e)
        E.set_segs(o, [Conc(items)])
        return v
    if (not a or a[0] == -1) and isinstance(o.segs[-1], Conc) and o.segs[-1].items:
        v = o.segs[-1].items[-1]
        E.set_segs(o, list(o.segs[:-1]) + [Conc(o.segs[-1].items[:-1])])
        return v
    raise Undecided("pop from symbolic list")


@meth(LIST, "remove")
def _(E, o, a, k):
    if o.concrete():
        items = list(o.items())
        for n, x in enumerate(items):
            if E.branch(E.zb(E.eq(x, a[0]))):
                del items[n]
                E.set_segs(o, [Conc(items)])
                return
        raise VRaise(ValueError("list.remove(x): x not in list"))
    raise Undecided("remove from symbolic list")


@meth(LIST, "index")
def _(E, o, a, k):
    x = E.resolve(a[0])
    off = z3.IntVal(0)
    for s in o.segs:
        if isinstance(s, Conc):
            for n, it in enumerate(s.items):
                if E.branch(E.zb(E.eq(it, x))):
                    r = z3.simplify(off + n)
                    return r.as_long() if z3.is_int_value(r) else SNum(r)
            off = off + len(s.items)
        else:
            if not s.simple():
                raise Undecided("index() on filtered view")
            dims, g, e = rename_seg(s)
            v, n = dims[0]
            eqv = E.merge_bool(E.generic([v], dims_cond(dims), lambda: E.eq(e, x)))
            if eqv is False:
                off = off + n
                continue
            body = z3.And(v >= 0, v < n, E.zb(eqv))
            w = E.fresh("idx", z3.IntSort())
            ex = z3.Exists([v], body)
            inst = z3.substitute(body, (v, w))
            first = z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < w), z3.Not(E.zb(eqv))))
            E.define(z3.Implies(ex, z3.And(inst, first)))
            if E.branch(ex):
                E.pc.append((inst, True))
                E.hint_idx = list(E.hint_idx) + [w]
                return SNum(z3.simplify(off + w))
            off = off + n
    raise VRaise(ValueError("x not in list"))


@meth(LIST, "count")
def _(E, o, a, k):
    raise Undecided("count")


@meth(LIST, "sort")
def _(E, o, a, k):
    r = REGISTRY[id(sorted)](E, [o], k)
    E.set_segs(o, r.segs, unordered=r.unordered)


@meth(LIST, "reverse")
def _(E, o, a, k):
    E.set_segs(o, E.slice(o, slice(None, None, -1)).segs)


@meth(LIST, "clear")
def _(E, o, a, k):
    E.set_segs(o, [Conc([])])


@meth(SET, "add")
def _(E, o, a, k):
    E.set_add(o, a[0])


@meth(SET, "update")
def _(E, o, a, k):
    for x in a:
        it = E.iterate(x)
        if it.concrete():
            for y in it.items():
                E.set_add(o, y)
        else:
            old = (o.segs, o.distinct)
            E.record(lambda old=old: (setattr(o, "segs", old[0]), setattr(o, "distinct", old[1])))
            n = E.to_set(VList(list(o.segs) + list(it.segs), "list", 0, True))
            o.segs, o.distinct = n.segs, n.distinct
            E.effects.append(("set_update", o, VList(list(it.segs), "list")))


def _loop_remove(E, o, x, must):
    """removal from a set that lives outside the loop: recorded, applied when the loop is summarised"""
    n = len(E.reads)
    if must and not E.branch(E.zb(E.contains(o, x))):
        raise VRaise(KeyError("remove"))
    E.reads[n:] = [r for r in E.reads[n:] if r is not o]
    E.effects.append(("set_remove" if must else "set_discard", o, x))


@meth(SET, "discard", "remove")
def _(E, o, a, k):
    x = a[0]
    if E.loop_clocks and o.birth <= E.loop_clocks[-1]:
        return _loop_remove(E, o, x, False)
    segs = []
    for s in o.segs:
        if isinstance(s, Conc):
            segs.append(Conc([y for y in s.items if not E.branch(E.zb(E.eq(y, x)))]))
        else:
            dims, g, e = rename_seg(s)
            q = E.merge_bool(E.generic([v for v, _ in dims], z3.And(dims_cond(dims), g), lambda: E.eq(e, x)))
            segs.append(Seg(dims, z3.simplify(z3.And(g, z3.Not(E.zb(q)))), e))
    E.set_segs(o, segs)


def _set_remove(E, o, a, k):
    if E.loop_clocks and o.birth <= E.loop_clocks[-1]:
        return _loop_remove(E, o, a[0], True)
    if not E.branch(E.zb(E.contains(o, a[0]))):
        raise VRaise(KeyError("remove"))
    SET["discard"](E, o, a, k)


SET["remove"] = _set_remove


@meth(SET, "copy")
def _(E, o, a, k):
    return kindlist(E, o, "set")


@meth(SET, "clear")
def _(E, o, a, k):
    E.set_segs(o, [Conc([])], distinct=True)


@meth(SET, "pop")
def _(E, o, a, k):
    if o.concrete() and len(o.items()) == 1:
        v = o.items()[0]
        E.set_segs(o, [Conc([])])
        return v
    raise Undecided("set.pop")


for _n, _op in (("union", ast.BitOr), ("intersection", ast.BitAnd), ("difference", ast.Sub), ("symmetric_difference", ast.BitXor)):
    def _f(E, o, a, k, _op=_op):
        r = kindlist(E, o, "set")
        for x in a:
            r = set_op(E, _op, r, E.to_set(x))
        return r
    SET[_n] = _f


@meth(SET, "issubset")
def _(E, o, a, k):
    return E.mkbool(E.subset(o, E.iterate(a[0])))


@meth(SET, "issuperset")
def _(E, o, a, k):
    return E.mkbool(E.subset(E.iterate(a[0]), o))


@meth(SET, "isdisjoint")
def _(E, o, a, k):
    b = E.iterate(a[0])
    res = []
    for s in o.segs:
        if isinstance(s, Conc):
            res += [E.not_(E.contains(b, x)) for x in s.items]
        else:
            dims, g, e = rename_seg(s)
            vs = [v for v, _ in dims]
            c = E.merge_bool(E.generic(vs, z3.And(dims_cond(dims), g), lambda: E.contains(b, e)))
            res.append(z3.ForAll(vs, z3.Implies(z3.And(dims_cond(dims), g), z3.Not(E.zb(c)))))
    return E.mkbool(E.and_(res))


@meth(SET, "__contains__")
def _(E, o, a, k):
    return E.mkbool(E.contains(o, a[0]))


LIST["__contains__"] = SET["__contains__"]


@meth(DICT, "get")
def _(E, d, a, k):
    r = E.dict_get(d, a[0])
    return (a[1] if len(a) > 1 else k.get("default")) if r is MISSING else r


@meth(DICT, "keys")
def _(E, d, a, k):
    return E.dict_keys(d)


@meth(DICT, "values")
def _(E, d, a, k):
    return E.dict_values(d)


@meth(DICT, "items")
def _(E, d, a, k):
    return E.dict_items(d)


@meth(DICT, "copy")
def _(E, d, a, k):
    n = VDict(list(d.pairs), E.tick(), d.default)
    n.meta = dict(d.meta)
    return n


@meth(DICT, "update")
def _(E, d, a, k):
    dict_update(E, d, a, k)


@meth(DICT, "pop")
def _(E, d, a, k):
    return dict_pop(E, d, a)


@meth(DICT, "setdefault")
def _(E, d, a, k):
    r = E.dict_get(d, a[0])
    if r is MISSING:
        v = a[1] if len(a) > 1 else None
        E.dict_set(d, a[0], v)
        return v
    return r


@meth(DICT, "__contains__")
def _(E, d, a, k):
    return E.mkbool(E.contains(d, a[0]))


@meth(ARR, "copy", "flatten", "ravel")
def _(E, o, a, k):
    return kindlist(E, o, "ndarray")


@meth(ARR, "tolist")
def _(E, o, a, k):
    return kindlist(E, o, "list")


@meth(ARR, "sum")
def _(E, o, a, k):
    if a or k:
        return np_axis(E, o, (a[0] if a else k.get("axis")), lambda r: REGISTRY[id(sum)](E, [r], {}))
    return REGISTRY[id(sum)](E, [o], {})


def np_axis(E, o, axis, f):
    if axis == 1:
        return map1(E, o, f, "ndarray")
    raise Undecided("axis reduction")


@meth(ARR, "any")
def _(E, o, a, k):
    ax = a[0] if a else k.get("axis")
    if ax is not None:
        return np_axis(E, o, ax, lambda r: REGISTRY[id(any)](E, [r], {}))
    return REGISTRY[id(any)](E, [o], {})


@meth(ARR, "all")
def _(E, o, a, k):
    ax = a[0] if a else k.get("axis")
    if ax is not None:
        return np_axis(E, o, ax, lambda r: REGISTRY[id(all)](E, [r], {}))
    return REGISTRY[id(all)](E, [o], {})


@meth(ARR, "min")
def _(E, o, a, k):
    return REGISTRY[id(min)](E, [o], {})


@meth(ARR, "max")
def _(E, o, a, k):
    return REGISTRY[id(max)](E, [o], {})


@meth(ARR, "astype")
def _(E, o, a, k):
    if a and a[0] in (float, np.float64, "float", "float64"):
        return map1(E, o, lambda x: REGISTRY[id(float)](E, [x], {}), "ndarray")
    raise Undecided("astype")


def _shape(E, o):
    n = E.length(o)
    dims = [n]
    probe = o.segs[0] if o.segs else None
    e = probe.elem if isinstance(probe, Seg) else (probe.items[0] if probe and probe.items else None)
    if isinstance(e, VList) and e.kind == "ndarray":
        dims.append(E.length(e))
    return E.mk(dims, "tuple")


_shape.isprop = True
ARR["shape"] = _shape


def _size(E, o):
    return E.length(o)


_size.isprop = True
ARR["size"] = _size


# ------------------------------------------------------------------------------ builtins
@model(len)
def _(E, v):
    return E.length(v)


@model(range)
def _(E, *a):
    a = [E.resolve(x) for x in a]
    a = [int(x) if isinstance(x, np.integer) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return E.mk(list(range(*a)), "list")
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    else:
        lo, hi, st = a[0], a[1], (a[2] if len(a) > 2 else 1)
    l, h = E.num(lo), E.num(hi)
    if st == 1:
        n = z3.simplify(z3.If(h - l > 0, h - l, z3.IntVal(0)))
        if E.entails(h - l >= 0):
            n = z3.simplify(h - l)
        k = z3.Int(fresh_name("k"))
        return VList([Seg([(k, n)], TRUE, SNum(z3.simplify(k + l)))], "list", E.tick())
    if st == -1:
        n = z3.simplify(z3.If(l - h > 0, l - h, z3.IntVal(0)))
        k = z3.Int(fresh_name("k"))
        return VList([Seg([(k, n)], TRUE, SNum(z3.simplify(l - k)))], "list", E.tick())
    raise Undecided("range with symbolic step")


@model(slice)
def _(E, *a):
    return slice(*a)


@model(enumerate)
def _(E, v, start=0):
    v = E.iterate(v)
    if v.concrete():
        return E.mk([E.tup(n + start, x) for n, x in enumerate(v.items())], "list")
    out = []
    off = z3.IntVal(start)
    if v.unordered:
        raise Undecided("enumerate of an unordered view")
    for s in v.segs:
        if isinstance(s, Conc):
            for n, x in enumerate(s.items):
                o = z3.simplify(off + n)
                out.append(Conc([E.tup(o.as_long() if z3.is_int_value(o) else SNum(o), x)]))
            off = off + len(s.items)
        else:
            if not s.simple():
                raise Undecided("enumerate over filtered view")
            dims, g, e = rename_seg(s)
            out.append(Seg(dims, g, E.tup(SNum(z3.simplify(dims[0][0] + off)), e)))
            off = off + dims[0][1]
    return VList(out, "list", E.tick())


@model(zip)
def _(E, *a, strict=False):
    a = [E.iterate(x) for x in a]
    if not a:
        return E.mk([], "iter")
    cur = map_to_tuples(E, a[0])
    for x in a[1:]:
        segs, short = align(E, cur, x)
        if short and strict is True:
            # possibly different lengths
            n1, n2 = E.length(cur), E.length(x)
            if not E.branch(E.zb(E.eq(n1, n2))):
                raise VRaise(ValueError("zip() argument lengths differ"))
        out = []
        for s in segs:
            if isinstance(s, Conc):
                out.append(Conc([E.tup(*(p.items() + [q])) for p, q in s.items]))
            else:
                p, q = s.elem
                out.append(Seg(s.dims, s.guard, E.tup(*(p.items() + [q]))))
        cur = VList(out, "list", E.tick())
    cur.kind = "iter"
    return cur


def map_to_tuples(E, v):
    out = []
    for s in v.segs:
        if isinstance(s, Conc):
            out.append(Conc([E.tup(x) for x in s.items]))
        else:
            out.append(Seg(s.dims, s.guard, E.tup(s.elem)))
    return VList(out, "list", E.tick(), v.unordered)


@model(sum, np.sum)
def _(E, v, start=0, axis=None):
    v = E.iterate(v)
    if axis is not None:
        return np_axis(E, v, axis, lambda r: REGISTRY[id(sum)](E, [r], {}))
    if v.kind in ("set", "frozenset"):
        v = E.dedup(v)
    acc = E.resolve(start)
    for s in v.segs:
        if isinstance(s, Conc):
            for x in s.items:
                acc = E.binop(ast.Add, acc, x)
        else:
            dims, g, e = rename_seg(s)
            h = SUMMERS.get(type(e)) if not isinstance(e, SObj) else SUMMERS.get(e.kind)
            if isinstance(e, VObj):
                h = SUMMERS.get(e.cls)
            if h:
                acc = h(E, acc, dims, g, e)
                continue
            t = as_term(E, e)
            isint = t.is_int()
            sg = E.sigma(dims, g, z3.ToReal(t) if isint else t)
            if isint:
                c = E.fresh("isum", z3.IntSort())
                E.define(z3.ToReal(c) == sg)
                sg = c
            acc = E.binop(ast.Add, acc, SNum(sg, True))
    return acc


SUMMERS = {}


def as_term(E, e):
    if isinstance(e, Choice):
        ts = [(c, as_term(E, x)) for c, x in e.alts]
        if any(t.is_real() for _, t in ts):
            ts = [(c, z3.ToReal(t) if t.is_int() else t) for c, t in ts]
        r = ts[-1][1]
        for c, t in reversed(ts[:-1]):
            r = z3.If(c, t, r)
        return r
    return E.num(e)


@model(abs, np.abs, np.absolute, np.fabs)
def _(E, v):
    v = E.resolve(v)
    if isinstance(v, VList):
        return map1(E, v, lambda x: REGISTRY[id(abs)](E, [x], {}), "ndarray")
    if isinstance(v, SNum):
        return SNum(z3.If(v.t < 0, -v.t, v.t), v.np)
    if isinstance(v, Sym):
        raise Undecided("abs")
    return abs(v)


def quant(E, v, exists):
    v = E.iterate(v)
    outs = []
    for s in v.segs:
        if isinstance(s, Conc):
            for x in s.items:
                x = E.resolve(x)
                if isinstance(x, VList) and x.kind == "ndarray":
                    outs.append(E.zb(quant(E, x, exists)))
                else:
                    outs.append(x.t if isinstance(x, SBool) else E.truth(x))
        else:
            dims, g, e = rename_seg(s)
            vs = [x for x, _ in dims]
            if isinstance(e, VList) and e.kind == "ndarray":
                b = E.merge_bool(E.generic(vs, z3.And(dims_cond(dims), g), lambda: E.zb(quant(E, e, exists))))
            elif isinstance(e, SBool):
                b = e.t
            else:
                b = E.merge_bool(E.generic(vs, z3.And(dims_cond(dims), g), lambda: E.truth(e)))
            dom = z3.And(dims_cond(dims), g)
            b = E.zb(b)
            outs.append(z3.Exists(vs, z3.And(dom, b)) if exists else z3.ForAll(vs, z3.Implies(dom, b)))
    return E.mkbool(E.or_(outs) if exists else E.and_(outs))


@model(any, np.any)
def _(E, v, axis=None):
    if axis is not None:
        return np_axis(E, E.iterate(v), axis, lambda r: quant(E, r, True))
    return quant(E, v, True)


@model(all, np.all)
def _(E, v, axis=None):
    if axis is not None:
        return np_axis(E, E.iterate(v), axis, lambda r: quant(E, r, False))
    return quant(E, v, False)


def extremum(E, args, kw, sign):
    key = kw.get("key")
    default = kw.get("default", MISSING)
    if len(args) == 1:
        v = E.iterate(args[0])
    else:
        v = E.mk(list(args))
    if v.kind in ("set", "frozenset"):
        pass
    ne = E.nonempty(v)
    if not E.branch(E.zb(ne) if not isinstance(ne, bool) else ne):
        if default is not MISSING:
            return default
        raise VRaise(ValueError("arg is an empty sequence"))
    kf = (lambda x: x) if key is None else (lambda x: E.call(key, [x], {}))
    if v.concrete():
        best = None
        for x in v.items():
            if best is None:
                best, bk = x, kf(x)
                continue
            k = kf(x)
            if key is None and E.is_num(best) and E.is_num(x) and (is_sym(best) or is_sym(x)):
                inf = [y for y in (best, x) if isinstance(y, (float, np.floating)) and math.isinf(y)]
                if not inf:
                    c = (E.num(x) < E.num(best)) if sign < 0 else (E.num(x) > E.num(best))
                    best = E.ite(c, x, best)
                    bk = best
                    continue
            c = E.compare(ast.Lt if sign < 0 else ast.Gt, k, bk)
            if E.truth(c):
                best, bk = x, k
        return best
    # symbolic
    segs = [s for s in v.segs if not (isinstance(s, Conc) and not s.items)]
    if key is None:
        m = E.fresh("ext", z3.RealSort())
        isint = True
        alts = []
        for s in segs:
            if isinstance(s, Conc):
                for x in s.items:
                    t = E.num(x)
                    isint &= t.is_int()
                    t = z3.ToReal(t) if t.is_int() else t
                    E.assume((t >= m) if sign < 0 else (t <= m))
                    alts.append(t == m)
            else:
                dims, g, e = rename_seg(s)
                vs = [x for x, _ in dims]
                t = as_term(E, e)
                isint &= t.is_int()
                t = z3.ToReal(t) if t.is_int() else t
                dom = z3.And(dims_cond(dims), g)
                E.assume(z3.ForAll(vs, z3.Implies(dom, (t >= m) if sign < 0 else (t <= m))))
                w = [E.fresh("arg", x.sort()) for x in vs]
                alts.append(z3.substitute(z3.And(dom, t == m), *zip(vs, w)))
        E.assume(z3.Or(*alts))
        if isint:
            c = E.fresh("iext", z3.IntSort())
            E.assume(z3.ToReal(c) == m)
            return SNum(c)
        return SNum(m, True)
    if len(segs) == 1 and isinstance(segs[0], Seg):
        dims, g, e = rename_seg(segs[0])
        vs = [x for x, _ in dims]
        dom = z3.And(dims_cond(dims), g)
        kt = E.generic(vs, dom, lambda: kf(e))
        alts = [(z3.simplify(z3.And(*br)) if br else TRUE, r) for br, r in kt]
        kv = E.merge_values(alts)
        kterms = as_term(E, kv)
        w = [E.fresh("arg", x.sort()) for x in vs]
        sub = list(zip(vs, w))
        E.assume(z3.substitute(dom, *sub))
        kw_ = z3.substitute(kterms, *sub)
        E.assume(z3.ForAll(vs, z3.Implies(dom, (kterms >= kw_) if sign < 0 else (kterms <= kw_))))
        return subst(e, sub)
    raise Undecided("min/max with key over mixed view")


@model(min)
def _(E, *a, **k):
    return extremum(E, a, k, -1)


@model(max)
def _(E, *a, **k):
    return extremum(E, a, k, 1)


@model(np.min, np.amin)
def _(E, a):
    return extremum(E, [a], {}, -1)


@model(np.max, np.amax)
def _(E, a):
    return extremum(E, [a], {}, 1)


@model(sorted)
def _(E, v, key=None, reverse=False):
    v = E.iterate(v)
    if v.concrete() and not any(is_sym(x) for x in v.items()):
        items = [to_native(x) for x in v.items()]
        if key is not None:
            ks = [E.call(key, [x], {}) for x in v.items()]
            if any(is_sym(x) for x in ks):
                raise Undecided("sorted: symbolic key")
            order = sorted(range(len(items)), key=lambda i: to_native(ks[i]), reverse=bool(reverse))
            return E.mk([v.items()[i] for i in order])
        return E.mk(sorted(items, reverse=bool(reverse)))
    if v.concrete() and len(v.items()) <= 1:
        return E.mk(v.items())
    if v.kind in ("set", "frozenset") and not v.distinct:
        c = E.canon_set(v)
        if c is not None:
            v = c
    if key is None and not reverse and v.concrete() and len(v.items()) <= 4 and all(isinstance(x, (SNum, int, float)) for x in v.items()):
        out = []
        for x in v.items():
            n = len(out)
            while n and E.truth(E.compare(ast.Lt, x, out[n - 1])):
                n -= 1
            out.insert(n, x)
        return E.mk(out)
    if key is None and not reverse:
        w = sorted_numbers(E, v)
        if w is not None:
            return w
    r = VList(list(v.segs), "list", E.tick(), True, v.distinct)
    r.meta["sorted"] = (key, reverse)
    return r


def sorted_numbers(E, v):
    """ascending arrangement of a sequence of numbers: an unknown permutation that makes it monotone"""
    sg = v.simple_seg()
    if sg is None or v.unordered or not isinstance(sg.elem, SNum) or not z3.is_true(z3.simplify(sg.guard)) or E.loopvars:
        return None
    k, n = sg.dims[0]
    at = lambda i: z3.substitute(sg.elem.t, (k, i))
    i, j = z3.Ints("i! j!")
    rng = lambda i: z3.And(0 <= i, i < n)
    if E.entails(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), at(i) <= at(j)))):
        return VList(list(v.segs), "list", E.tick())
    S = z3.Function(fresh_name("sorted"), z3.IntSort(), sg.elem.t.sort())
    P, Q = z3.Function(fresh_name("perm"), z3.IntSort(), z3.IntSort()), z3.Function(fresh_name("perm_inv"), z3.IntSort(), z3.IntSort())
    E.define(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(P(i)), S(i) == at(P(i)), Q(P(i)) == i)), patterns=[S(i)]))
    E.define(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(Q(i)), P(Q(i)) == i, S(Q(i)) == at(i))), patterns=[Q(i)]))
    if sg.elem.t.num_args() and z3.is_app(sg.elem.t) and sg.elem.t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        E.define(z3.ForAll([k], z3.Implies(rng(k), S(Q(k)) == sg.elem.t), patterns=[sg.elem.t]))
    E.define(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < n), S(i) <= S(j)), patterns=[z3.MultiPattern(S(i), S(j))]))
    for h in getattr(E, "perm_hints", ()):
        c, d = E.fresh("rank", z3.IntSort()), E.fresh("rank", z3.IntSort())
        E.define(z3.And(c == Q(h), d == c - 1))
        E.hint_idx = [*E.hint_idx, c, d]
    return VList([Seg([(k, n)], TRUE, SNum(S(k), sg.elem.np))], "list", E.tick())


@model(np.sort)
def _(E, a, **k):
    if k:
        raise Undecided("np.sort with options")
    a = E.resolve(a)
    r = REGISTRY[id(sorted)](E, [a], {})
    if r.unordered:
        raise Undecided("np.sort")
    return kindlist(E, r, "ndarray")


@model(np.where)
def _(E, cond, *rest):
    if rest:
        raise Undecided("np.where with alternatives")
    w = REGISTRY[id(np.argwhere)](E, [cond], {})
    return E.mk([map1(E, w, lambda r: E.index(r, 0), "ndarray")], "tuple")


@model(set)
def _(E, v=()):
    return E.to_set(v) if not (isinstance(v, tuple) and not v) else VList([Conc([])], "set", E.tick(), True, True)


@model(frozenset)
def _(E, v=()):
    r = E.to_set(v) if not (isinstance(v, tuple) and not v) else VList([Conc([])], "set", E.tick(), True, True)
    r.kind = "frozenset"
    return r


@model(list)
def _(E, v=()):
    v = E.iterate(v)
    if v.kind in ("set", "frozenset") and not v.distinct:
        c = E.dedup(v) if v.concrete() else E.canon_set(v)
        if c is not None:
            v = c
        else:
            raise Undecided("list of a set with possible duplicates")
    return kindlist(E, v, "list")


@model(tuple)
def _(E, v=()):
    v = E.iterate(v)
    if v.kind in ("set", "frozenset") and not v.distinct:
        v = E.canon_set(v) or v
    return kindlist(E, v, "tuple")


@model(dict, collections.OrderedDict)
def _(E, v=None, **kw):
    d = VDict([Conc([])], E.tick())
    if v is not None:
        dict_update(E, d, [v], {})
    for k, x in kw.items():
        E.dict_set(d, k, x)
    return d


@model(collections.defaultdict)
def _(E, f=None, *a):
    d = VDict([Conc([])], E.tick(), f)
    return d


@model(map)
def _(E, f, *its):
    its = [E.iterate(x) for x in its]
    if len(its) == 1:
        out = VList([Conc([])], "list", E.tick())
        E.foreach(its[0], lambda x: E.append(out, E.call(f, [x], {})))
    else:
        z = REGISTRY[id(zip)](E, its, {})
        out = VList([Conc([])], "list", E.tick())
        E.foreach(z, lambda x: E.append(out, E.call(f, x.items(), {})))
    out.kind = "iter"
    return out


@model(filter)
def _(E, f, it):
    out = VList([Conc([])], "list", E.tick())

    def body(x):
        if E.truth(x if f is None else E.call(f, [x], {})):
            E.append(out, x)

    E.foreach(E.iterate(it), body)
    out.kind = "iter"
    return out


@model(reversed)
def _(E, v):
    return E.slice(E.iterate(v), slice(None, None, -1))


@model(iter)
def _(E, v):
    return kindlist(E, E.iterate(v), "iter")


@model(next)
def _(E, it, default=MISSING):
    it = E.resolve(it)
    if isinstance(it, VList):
        segs = [s for s in it.segs if not (isinstance(s, Conc) and not s.items)]
        if segs and isinstance(segs[0], Conc):
            v = segs[0].items[0]
            if it.kind == "iter":
                E.set_segs(it, [Conc(segs[0].items[1:])] + segs[1:])
            return v
        if not segs:
            if default is not MISSING:
                return default
            raise VRaise(StopIteration())
        ne = E.nonempty(VList(segs, "list"))
        if not E.branch(E.zb(ne)):
            if default is not MISSING:
                return default
            raise VRaise(StopIteration())
        v = E.index(VList(segs, "list", 0, it.unordered), 0) if not it.unordered else any_element(E, VList(segs, "list"))
        if it.kind == "iter":
            E.set_segs(it, [Seg([(z3.Int(fresh_name("k")), z3.IntVal(0))], TRUE, Poison("iterator after next()"))])
        return v
    if isinstance(it, Sym):
        raise Undecided("next")
    return NotImplemented


def any_element(E, v):
    """an arbitrary element of a non-empty unordered view"""
    if len(v.segs) == 1 and isinstance(v.segs[0], Seg):
        dims, g, e = rename_seg(v.segs[0])
        vs = [x for x, _ in dims]
        w = [E.fresh("some", x.sort()) for x in vs]
        sub = list(zip(vs, w))
        E.assume(z3.substitute(z3.And(dims_cond(dims), g), *sub))
        return subst(e, sub)
    raise Undecided("element of mixed unordered view")


def pytypes(E, v):
    if isinstance(v, SNum):
        return (int,) if v.is_int else (float, np.floating, np.float64)
    if isinstance(v, SBool):
        return (bool, np.bool_)
    if isinstance(v, VList):
        return {"list": (list,), "tuple": (tuple,), "set": (set,), "frozenset": (frozenset,), "ndarray": (np.ndarray,), "gen": (types.GeneratorType,), "iter": (types.GeneratorType,), "dictkeys": ()}[v.kind]
    if isinstance(v, VDict):
        return (dict,)
    if isinstance(v, VObj):
        return (v.cls,)
    if isinstance(v, SObj):
        return (v.kind.pycls,) if v.kind.pycls else ()
    if isinstance(v, (VFunc, BoundMethod)):
        return (types.FunctionType,)
    if isinstance(v, Opaque):
        return (str,)
    return (type(v),)


@model(isinstance)
def _(E, v, cls):
    v = E.resolve(v)
    cls = cls.items() if isinstance(cls, VList) else (list(cls) if isinstance(cls, tuple) else [cls])
    if isinstance(cls, list):
        flat = []
        for c in cls:
            if isinstance(c, VList):
                flat += c.items()
            elif isinstance(c, types.UnionType):
                flat += list(c.__args__)
            else:
                flat.append(c)
        cls = flat
    if isinstance(v, SObj) and v.kind.binop.get("isinstance"):
        r = v.kind.binop["isinstance"](E, v, cls)
        if r is not None:
            return r
    if not isinstance(v, Sym):
        return isinstance(v, tuple(cls))
    ts = pytypes(E, v)
    if isinstance(v, SObj) and not ts:
        raise Undecided(f"isinstance of {v!r}")
    return any(isinstance(c, type) and any(issubclass(t, c) for t in ts) for c in cls)


@model(issubclass)
def _(E, a, b):
    return issubclass(a, tuple(to_native(b)) if isinstance(b, VList) else b)


@model(type)
def _(E, v):
    v = E.resolve(v)
    if isinstance(v, Sym):
        ts = pytypes(E, v)
        if not ts:
            raise Undecided("type()")
        return ts[0]
    return type(v)


@model(hasattr)
def _(E, o, name):
    o = E.resolve(o)
    if not isinstance(o, Sym):
        return hasattr(o, to_native(name))
    if is_sym(name):
        if isinstance(o, SObj) and o.kind.symattr:
            return SBool(o.kind.symattr[0](E, o, name))
        raise Undecided("hasattr with symbolic name")
    try:
        return E._getattr(o, name) is not MISSING
    except VRaise as r:
        if isinstance(r.exc, AttributeError):
            return False
        raise


@model(getattr)
def _(E, o, name, default=MISSING):
    if is_sym(name):
        o = E.resolve(o)
        if isinstance(o, SObj) and o.kind.symattr:
            if E.branch(o.kind.symattr[0](E, o, name)):
                return o.kind.symattr[1](E, o, name)
            if default is not MISSING:
                return default
            raise VRaise(AttributeError("symbolic attribute"))
        raise Undecided("getattr with symbolic name")
    return E.getattr(o, name, default)


@model(setattr)
def _(E, o, name, v):
    E.setattr(E.resolve(o), name, v)


@model(inspect.getmembers)
def _(E, o, pred=None):
    if isinstance(o, type):
        return E.mk([E.tup(n, v) for n, v in inspect.getmembers(o) if pred is None or E.branch(E.zb(E.truth(E.call(pred, [v], {}))))])
    return NotImplemented


@model(delattr)
def _(E, o, name):
    E.del_attr_raw(E.resolve(o), name)


@model(print, logging.Logger.info, logging.Logger.warning, logging.Logger.debug, logging.Logger.setLevel)
def _(E, *a, **k):
    return None


@model(float)
def _(E, v=0.0):
    v = E.resolve(v)
    if isinstance(v, SNum):
        return SNum(z3.ToReal(v.t) if v.t.is_int() else v.t)
    if isinstance(v, SBool):
        return SNum(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(v, Sym):
        raise Undecided("float()")
    try:
        return float(v)
    except Exception as e:
        raise VRaise(e)


@model(int)
def _(E, v=0, *a):
    v = E.resolve(v)
    if isinstance(v, SNum):
        if v.t.is_int():
            return SNum(v.t)
        f = z3.ToInt(v.t)
        return SNum(z3.If(v.t >= 0, f, z3.If(z3.ToReal(f) == v.t, f, f + 1)))
    if isinstance(v, SBool):
        return SNum(E.num(v))
    if isinstance(v, Sym):
        raise Undecided("int()")
    try:
        return int(v, *a)
    except Exception as e:
        raise VRaise(e)


@model(bool)
def _(E, v=False):
    v = E.resolve(v)
    if isinstance(v, SBool):
        return v
    return E.truth(v)


@model(str, repr, format)
def _(E, v="", *a):
    v = E.resolve(v)
    if isinstance(v, SObj) and "__str__" in v.kind.methods:
        return v.kind.methods["__str__"](E, v, [], {})
    if is_sym(v):
        return Opaque("str")
    return str(to_native(v))


_ROUND = {}


@model(round, np.round)
def _(E, v, n=0):
    v = E.resolve(v)
    if isinstance(v, SNum):
        if v.t.is_int():
            return v
        n = n or 0
        if n not in _ROUND:
            _ROUND[n] = z3.Function(f"round_{n}", z3.RealSort(), z3.RealSort())
        r = _ROUND[n](v.t)
        h = z3.RealVal(f"0.5") / z3.RealVal(10 ** n)
        E.define(z3.And(r - v.t <= h, v.t - r <= h))
        return SNum(r)
    if isinstance(v, Sym):
        raise Undecided("round")
    return round(v, n)


_HASH = {}


@model(hash)
def _(E, v):
    v = E.resolve(v)
    if isinstance(v, VObj):
        return E.call_method(v, "__hash__", [], {})
    if not is_sym(v):
        return hash(to_native(v))
    return HashVal(v)


class HashVal(Sym):
    """hash(x): equal arguments give equal hashes (structural)"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


@model(id)
def _(E, v):
    return Opaque("id")


@model(callable)
def _(E, v):
    return isinstance(v, (VFunc, BoundMethod, NativeSym, Partial)) or callable(v)


@model(_copy.deepcopy)
def _(E, v, *a):
    return deep(E, v)


@model(_copy.copy)
def _(E, v):
    v = E.resolve(v)
    if isinstance(v, (VList, VDict)):
        return clone(E, v)
    if isinstance(v, VObj):
        if E.class_lookup(v.cls, "__copy__") is not MISSING:
            return E.call_method(v, "__copy__", [], {})
        r = VObj(v.cls, dict(v.attrs), E.tick(), v.tag)
        r.default_attr = v.default_attr
        return r
    return v if isinstance(v, Sym) else _copy.copy(v)


def clone(E, v):
    """shallow copy of a container"""
    if isinstance(v, VList):
        r = VList([Conc(s.items) if isinstance(s, Conc) else s for s in v.segs], v.kind, E.tick(), v.unordered, v.distinct)
    else:
        r = VDict([Conc(s.items) if isinstance(s, Conc) else s for s in v.pairs], E.tick(), v.default)
    r.meta = dict(v.meta)
    return r


def deep(E, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, VList):
        r = VList([Conc([deep(E, x, memo) for x in s.items]) if isinstance(s, Conc) else Seg(s.dims, s.guard, deep(E, s.elem, memo)) for s in v.segs], v.kind, E.tick(), v.unordered, v.distinct)
        r.meta = dict(v.meta)
        return r
    if isinstance(v, VDict):
        r = VDict([Conc([deep(E, x, memo) for x in s.items]) if isinstance(s, Conc) else Seg(s.dims, s.guard, deep(E, s.elem, memo)) for s in v.pairs], E.tick(), v.default)
        r.meta = dict(v.meta)
        return r
    if isinstance(v, VObj):
        if E.class_lookup(v.cls, "__deepcopy__") is not MISSING:
            return E.call_method(v, "__deepcopy__", [E.mk([])], {})
        r = VObj(v.cls, {}, E.tick(), v.tag)
        r.default_attr = v.default_attr
        memo[id(v)] = r
        r.attrs = {k: deep(E, x, memo) for k, x in v.attrs.items()}
        return r
    return v


@model(functools.partial)
def _(E, f, *a, **k):
    return Partial(f, a, k)


# ------------------------------------------------------------------------------ itertools
@model(itertools.chain)
def _(E, *its):
    its = [E.iterate(x) for x in its]
    r = VList([s for x in its for s in x.segs], "iter", E.tick(), any(x.unordered for x in its))
    return r


@model(itertools.chain.from_iterable)
def _(E, it):
    out = VList([Conc([])], "list", E.tick())
    E.foreach(E.iterate(it), lambda x: E.extend(out, x))
    out.kind = "iter"
    return out


@model(itertools.product)
def _(E, *its, repeat=1):
    its = [E.iterate(x) for x in its] * repeat
    out = VList([Conc([])], "list", E.tick())

    def rec(k, acc):
        if k == len(its):
            E.append(out, E.tup(*acc))
            return
        E.foreach(its[k], lambda x: rec(k + 1, acc + [x]))

    rec(0, [])
    out.kind = "iter"
    return out


@model(itertools.combinations)
def _(E, it, r):
    it = E.iterate(it)
    if it.concrete() and isinstance(r, int):
        return E.mk([E.tup(*c) for c in itertools.combinations(it.items(), r)], "iter")
    sg = it.simple_seg()
    if isinstance(r, int) and len(it.segs) == 1 and isinstance(it.segs[0], Seg) and len(it.segs[0].dims) == 1 and it.segs[0].dims[0][1] is not None:
        s = it.segs[0]
        dims, gs, es = [], [], []
        for j in range(r):
            d, g, e = rename_seg(s)
            if dims:
                gs.append(dims[-1][0] < d[0][0])
            dims += d
            gs.append(g)
            es.append(e)
        return VList([Seg(dims, z3.simplify(z3.And(*gs)), E.tup(*es))], "iter", E.tick(), r > 1)
    raise Undecided("combinations over complex view")


# ------------------------------------------------------------------------------ numpy
@model(np.array, np.asarray)
def _(E, v, dtype=None, **k):
    v = E.resolve(v)
    if not is_sym(v):
        return NotImplemented_native(E, np.array, v)
    if isinstance(v, VList):
        def conv(x):
            x = E.resolve(x) if not isinstance(x, Choice) else x
            if isinstance(x, VList):
                return REGISTRY[id(np.array)](E, [x], {})
            return SNum(x.t, True) if isinstance(x, SNum) else x
        return map1(E, v, conv, "ndarray")
    return v


def NotImplemented_native(E, f, v):
    n = to_native(v)
    r = f(n)
    if r.ndim == 1 and r.dtype.kind in "fiub":
        return VList([Conc([x.item() for x in r])], "ndarray", E.tick())
    return r


@model(np.isin)
def _(E, a, b, **k):
    """elementwise membership"""
    if k:
        raise Undecided("np.isin with options")
    b = E.iterate(b)

    def go(x):
        x = E.resolve(x)
        if isinstance(x, VList):
            return map1(E, x, go, "ndarray")
        return E.mkbool(E.contains(VList(b.segs, "list"), x))
    return go(a)


@model(np.argwhere)
def _(E, a):
    """positions of the true elements of a mask, in order"""
    a = E.resolve(a)
    if not isinstance(a, VList):
        raise Undecided("np.argwhere")
    segs, off = [], 0
    for s in a.segs:
        if isinstance(s, Conc):
            for x in s.items:
                if E.truth(x):
                    segs.append(Conc([E.mk([off if isinstance(off, int) else SNum(off, True)], "ndarray")]))
                off = off + 1
        else:
            dims, g, e = rename_seg(s)
            if len(dims) != 1 or not z3.is_true(z3.simplify(g)) or dims[0][1] is None or isinstance(e, VList):
                raise Undecided("np.argwhere")
            v = dims[0][0]
            m = E.zb(E.merge_bool(E.generic([v], dims_cond(dims), lambda: E.as_z3(e))))
            segs.append(Seg(dims, m, E.mk([SNum(z3.simplify(off + v), True)], "ndarray")))
            off = off + dims[0][1]
    return VList(segs, "ndarray", E.tick())


@model(np.concatenate)
def _(E, arrays, axis=0, **k):
    """row-wise concatenation"""
    if axis != 0 or k:
        raise Undecided("np.concatenate with options")
    arrs = [E.iterate(x) for x in E.iterate(arrays).items()]
    return VList([s for a in arrs for s in a.segs], "ndarray", E.tick())


@model(np.zeros)
def _(E, n, dtype=None):
    n = E.resolve(n)
    if isinstance(n, VList):
        if len(n.items()) == 1:
            n = n.items()[0]
        elif not is_sym(n):
            return NotImplemented
        else:
            a, b = n.items()
            return VList([Seg([(z3.Int(fresh_name("k")), E.num(a))], TRUE, REGISTRY[id(np.zeros)](E, [b], {}))], "ndarray", E.tick())
    zero = False if dtype in (bool, np.bool_) else 0.0
    if isinstance(n, SNum):
        return VList([Seg([(z3.Int(fresh_name("k")), n.t)], TRUE, zero if dtype else SNum(z3.RealVal(0), True))], "ndarray", E.tick())
    return E.mk([zero] * n, "ndarray")


@model(np.ones)
def _(E, n, dtype=None):
    n = E.resolve(n)
    if isinstance(n, SNum):
        return VList([Seg([(z3.Int(fresh_name("k")), n.t)], TRUE, SNum(z3.RealVal(1), True))], "ndarray", E.tick())
    return E.mk([1.0] * n, "ndarray")


def close(E, a, b, rtol=1e-5, atol=1e-8):
    x, y = E.num(a), E.num(b)
    x = z3.ToReal(x) if x.is_int() else x
    y = z3.ToReal(y) if y.is_int() else y
    d = x - y
    ab = z3.If(d < 0, -d, d)
    yb = z3.If(y < 0, -y, y)
    return SBool(z3.simplify(ab <= E.num(float(atol)) + E.num(float(rtol)) * yb))


@model(np.isclose)
def _(E, a, b, rtol=1e-5, atol=1e-8):
    a, b = E.resolve(a), E.resolve(b)
    if isinstance(a, VList) or isinstance(b, VList):
        return elementwise(E, lambda x, y: close(E, x, y, rtol, atol), a, b)
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))
    return close(E, a, b, rtol, atol)


@model(np.allclose)
def _(E, a, b, rtol=1e-5, atol=1e-8):
    a, b = E.resolve(a), E.resolve(b)
    if isinstance(a, VList) or isinstance(b, VList):
        return quant(E, elementwise(E, lambda x, y: close(E, x, y, rtol, atol), a, b), False)
    return close(E, a, b, rtol, atol)


@model(np.dot)
def _(E, a, b):
    a, b = to_arr(E, E.resolve(a)), to_arr(E, E.resolve(b))
    if isinstance(a, VList) and isinstance(b, VList):
        return REGISTRY[id(sum)](E, [elementwise(E, lambda x, y: E.binop(ast.Mult, x, y), a, b)], {})
    raise Undecided("np.dot")


@model(np.mean)
def _(E, v):
    v = E.iterate(v)
    n = E.length(v)
    return E.binop(ast.Div, REGISTRY[id(sum)](E, [v], {}), n)


@model(np.isnan)
def _(E, v):
    if isinstance(v, SNum):
        return SBool(NANS[v.t.decl().name()](*v.t.children())) if z3.is_app(v.t) and v.t.decl().name() in NANS else False
    return NotImplemented


NANS = {}  # function symbol -> predicate: terms that may stand for not-a-number
_EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
_LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def explog_axioms(E):
    if getattr(E, "_explog", None) is E.axioms:
        return
    E._explog = E.axioms
    x, y = z3.Reals("ex ey")
    E.axioms.append(z3.ForAll([x], _EXP(x) > 0, patterns=[_EXP(x)]))
    E.axioms.append(z3.ForAll([x, y], z3.Implies(x < y, _EXP(x) < _EXP(y)), patterns=[z3.MultiPattern(_EXP(x), _EXP(y))]))
    E.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(0 < x, x < y), _LOG(x) < _LOG(y)), patterns=[z3.MultiPattern(_LOG(x), _LOG(y))]))
    E.axioms.append(_LOG(1) == 0)


@model(np.exp, math.exp)
def _(E, v):
    v = E.resolve(v)
    if not is_sym(v):
        return NotImplemented
    explog_axioms(E)
    if isinstance(v, VList):
        return map1(E, v, lambda x: REGISTRY[id(np.exp)](E, [x], {}))
    t = E.num(v)
    return SNum(_EXP(z3.ToReal(t) if t.is_int() else t), True)


@model(np.log, math.log)
def _(E, v):
    v = E.resolve(v)
    if not is_sym(v):
        return NotImplemented
    explog_axioms(E)
    t = E.num(v)
    return SNum(_LOG(z3.ToReal(t) if t.is_int() else t), True)


@model(np.log1p, math.log1p)
def _(E, v):
    v = E.resolve(v)
    if not is_sym(v):
        return NotImplemented
    explog_axioms(E)
    t = E.num(v)
    return SNum(_LOG(1 + (z3.ToReal(t) if t.is_int() else t)), True)


@model(operator.itemgetter)
def _(E, k):
    return NativeSym(lambda a, kw: E.getitem(a[0], k), "itemgetter")


@model(operator.attrgetter)
def _(E, k):
    return NativeSym(lambda a, kw: E.getattr(a[0], k), "attrgetter")


def _tqdm_model():
    try:
        import tqdm as _t

        import tqdm.auto as _ta

        @model(_t.tqdm, _ta.tqdm)
        def _(E, it=None, *a, **k):
            return E.iterate(it) if it is not None else Opaque("tqdm")
    except ImportError:
        pass


_tqdm_model()


import typing as _typing  # noqa: E402


@model(_typing.cast)
def _(E, t, v):
    return v
