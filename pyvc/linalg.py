"""Matrices: lists of rows; linear algebra that only over-approximates (pseudo-inverse, rank) keeps shapes and nothing else."""
from __future__ import annotations

import ast
import itertools

import numpy as np
import z3

from . import models
from .interp import TRUE
from .models import ARR, REGISTRY, elementwise, is_arr, map1, meth, model
from .vals import *  # noqa: F403
from .vals import rename_seg


class OMat:
    """a matrix of known shape and unknown content; writing into it keeps it unknown"""

    @staticmethod
    def make(E, rows, cols):
        return VObj(OMat, {"rows": rows, "cols": cols}, E.tick())

    unknown_content = True


def is_omat(v):
    return isinstance(v, VObj) and v.cls is OMat


def rows_of(E, m):
    return m.attrs["rows"] if is_omat(m) else E.length(m)


def row0(E, m):
    for s in m.segs:
        if isinstance(s, Seg):
            return rename_seg(s)[2]
        if s.items:
            return s.items[0]
    raise Undecided("shape of an empty matrix")


def cols_of(E, m):
    return m.attrs["cols"] if is_omat(m) else E.length(row0(E, m))


@model(np.append)
def _(E, a, b, axis=None):
    a, b = E.resolve(a), E.resolve(b)
    if axis == 0:
        return OMat.make(E, E.binop(ast.Add, rows_of(E, a), rows_of(E, b)), cols_of(E, a))
    if axis is None and isinstance(a, VList) and isinstance(b, (SNum, int, float)) and not isinstance(b, bool):
        b = E.mk([b], "ndarray")
    if axis is None and isinstance(a, VList) and isinstance(b, VList):
        return VList(list(a.segs) + list(b.segs), "ndarray", E.tick(), a.unordered or b.unordered)
    raise Undecided("np.append")


@model(np.vstack)
def _(E, ms):
    ms = E.iterate(ms).items()
    r = rows_of(E, ms[0])
    for m in ms[1:]:
        r = E.binop(ast.Add, r, rows_of(E, m))
    return OMat.make(E, r, cols_of(E, ms[0]))


@model(np.linalg.matrix_rank)
def _(E, m, *a, **k):
    r = E.fresh("rank", z3.IntSort())
    E.define(r >= 0)
    return SNum(r)


@model(np.linalg.pinv)
def _(E, m, *a, **k):
    m = E.resolve(m)
    return OMat.make(E, cols_of(E, m), rows_of(E, m))


def column(E, n):
    f = z3.Function(fresh_name("vec"), z3.IntSort(), z3.RealSort())
    k = z3.Int(fresh_name("k"))
    return VList([Seg([(k, E.num(n))], TRUE, E.mk([SNum(f(k), True)], "ndarray"))], "ndarray", E.tick())


def flat_of(E, c):
    """n x 1 column (or flat vector) -> flat vector"""
    def one(x):
        x = E.resolve(x)
        if isinstance(x, VList):
            it = x.items()
            if len(it) != 1:
                raise Undecided("column vector expected")
            return it[0]
        return x
    return map1(E, c, one, "ndarray")


@model(np.matmul)
def _(E, a, b, *r, **k):
    a, b = E.resolve(a), E.resolve(b)
    if is_omat(a) and (is_omat(b) or isinstance(b, VList)):
        n = cols_of(E, b) if is_omat(b) or isinstance(row0(E, b), VList) else None
        if n == 1:
            return column(E, a.attrs["rows"])
        if n is None:
            return flat_of(E, column(E, a.attrs["rows"]))
        raise Undecided("product of unknown matrices")
    if isinstance(a, VList) and isinstance(b, VList):
        col = isinstance(row0(E, b), VList)
        v = flat_of(E, b)
        s = lambda row: REGISTRY[id(sum)](E, [elementwise(E, lambda x, y: E.binop(ast.Mult, x, y), row, v)], {})
        if not isinstance(row0(E, a), VList):
            return E.mk([s(a)], "ndarray") if col else s(a)
        return map1(E, a, (lambda row: E.mk([s(row)], "ndarray")) if col else s, "ndarray")
    raise Undecided("np.matmul")


@model(np.multiply)
def _(E, a, b):
    a, b = E.resolve(a), E.resolve(b)
    na, nb = isinstance(a, VList) and isinstance(row0(E, a), VList), isinstance(b, VList) and isinstance(row0(E, b), VList)
    mul = lambda x, y: E.binop(ast.Mult, x, y)
    if na and not nb:
        return map1(E, a, lambda r: elementwise(E, mul, r, b), "ndarray")
    if nb and not na:
        return map1(E, b, lambda r: elementwise(E, mul, a, r), "ndarray")
    return elementwise(E, mul, a, b)


@model(np.squeeze)
def _(E, a):
    a = E.resolve(a)
    if isinstance(a, VList):
        r = row0(E, a)
        if isinstance(r, VList) and r.concrete() and len(r.items()) == 1:
            return flat_of(E, a)  # (for more than one row; a single row would give a scalar)
        if not isinstance(r, VList):
            return a
    raise Undecided("np.squeeze")


def _flatten(E, o, a, k):
    r = row0(E, o)
    if isinstance(r, VList):
        return flat_of(E, o)
    return models.kindlist(E, o, "ndarray")


ARR["flatten"] = ARR["ravel"] = _flatten


def _T(E, m):
    r = row0(E, m)
    if not isinstance(r, VList):
        return m
    if r.concrete() and len(r.items()) == 1:
        return E.mk([flat_of(E, m)], "ndarray")
    if m.concrete() and len(m.items()) == 1:
        return map1(E, m.items()[0], lambda x: E.mk([x], "ndarray"), "ndarray")
    osegs = [s for s in m.segs if not (isinstance(s, Conc) and not s.items)]
    ref = [s for s in r.segs if not (isinstance(s, Conc) and not s.items)]
    if any(isinstance(s, Conc) for s in ref + osegs):
        raise Undecided("transpose of a mixed view")
    out = []
    for n, s in enumerate(ref):
        dims, g, _ = rename_seg(s)
        cols = []
        for o in osegs:
            od, og, row = rename_seg(o)
            row = [x for x in row.segs if not (isinstance(x, Conc) and not x.items)]
            if len(row) != len(ref):
                raise Undecided("transpose of a ragged view")
            d2, g2, e2 = rename_seg(row[n], [v for v, _ in dims])
            if not all(h1 is h2 or (h1 is not None and h2 is not None and h1.eq(h2)) for (_, h1), (_, h2) in zip(dims, d2)):
                raise Undecided("transpose of a ragged view")
            if not (z3.simplify(g).eq(z3.simplify(g2)) or E.entails(z3.ForAll([v for v, _ in dims], z3.Implies(dims_cond(dims), g == g2)))):
                raise Undecided("transpose of a ragged view")
            cols.append(Seg(od, og, e2))
        out.append(Seg(dims, g, VList(cols, "ndarray", 0)))
    return VList(out, "ndarray", E.tick(), r.unordered)


_T.isprop = True
ARR["T"] = _T
ARR["transpose"] = lambda E, o, a, k: _T(E, o)


def zero_array(v):
    if not isinstance(v, VList) or not v.segs:
        return False
    for s in v.segs:
        for x in s.items if isinstance(s, Conc) else [s.elem]:
            if isinstance(x, VList):
                if not zero_array(x):
                    return False
            elif isinstance(x, SNum):
                if not (z3.is_rational_value(x.t) and x.t.as_fraction() == 0 or z3.is_int_value(x.t) and x.t.as_long() == 0):
                    return False
            elif x != 0 or isinstance(x, Sym):
                return False
    return True


_allclose = REGISTRY[id(np.allclose)]


@model(np.allclose)
def _(E, a, b, *r, **k):
    a, b = E.resolve(a), E.resolve(b)
    if isinstance(a, VList) and zero_array(b):
        b = 0.0
    elif isinstance(b, VList) and zero_array(a):
        a = 0.0
    v = [x for x in (a, b) if isinstance(x, VList)]
    if len(v) == 1 and any(isinstance(s, Seg) or s.items for s in v[0].segs) and isinstance(row0(E, v[0]), VList):
        one = lambda row: _allclose(E, [row if x is v[0] else x for x in (a, b)] + list(r), k)
        return REGISTRY[id(all)](E, [map1(E, v[0], one, "list")], {})
    return _allclose(E, [a, b, *r], k)


_combinations = REGISTRY[id(itertools.combinations)]
COMB = Kind("Combination")


@model(itertools.combinations)
def _(E, it, r):
    r = E.resolve(r)
    if isinstance(r, SNum):
        it = E.iterate(it)
        sg = it.simple_seg()
        if sg is None:
            raise Undecided("combinations over complex view")
        hi = sg.dims[0][1]
        F = z3.Function(fresh_name("comb"), COMB.sort, z3.IntSort(), z3.IntSort())
        z = z3.Const(fresh_name("k"), COMB.sort)
        k = z3.Int(fresh_name("k"))
        j = z3.Int(fresh_name("k"))
        ok = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.t), z3.And(0 <= F(z, j), F(z, j) < hi)), patterns=[F(z, j)])
        elem = VList([Seg([(k, r.t)], TRUE, subst(sg.elem, [(sg.dims[0][0], F(z, k))]))], "tuple", 0)
        if E.branch(r.t < 0):
            raise VRaise(ValueError("r must be non-negative"))
        return VList([Seg([(z, None)], ok, elem)], "iter", E.tick(), True)
    return _combinations(E, [it, r], {})


_sum = REGISTRY[id(np.sum)]


@model(np.sum)
def _(E, a, axis=None, **k):
    a = E.resolve(a)
    if axis is None and isinstance(a, VList) and isinstance(row0(E, a), VList):
        return _sum(E, [map1(E, a, lambda row: _sum(E, [row], {}), "ndarray")], {})
    return _sum(E, [a], {"axis": axis} if axis is not None else {})
