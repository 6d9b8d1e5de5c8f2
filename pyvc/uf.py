"""Numbers with uncertainty (package `uncertainties`): nominal value and variance, independent variables.

Assumption recorded in the evidence: the variables that enter one sum are pairwise independent (each `ufloat(...)` call
creates its own variable) and propagation is linear."""
from __future__ import annotations

import ast

import numpy as np
import z3
from uncertainties import ufloat
from uncertainties.core import AffineScalarFunc

from . import models
from .interp import MERGEABLE, MISSING
from .models import SUMMERS, model
from .vals import SNum, SBool, Undecided, VObj, VRaise

SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())


class UF:
    @staticmethod
    def make(E, nom, var):
        return VObj(UF, {"nom": SNum(z3.simplify(nom)), "var": SNum(z3.simplify(var))}, E.tick())

    __lt__ = __le__ = __gt__ = __ge__ = lambda self, o: NotImplemented  # comparisons: see uf_cmp


MERGEABLE.add(UF)


def sqrt(E, t):
    r = SQRT(t)
    E.define(z3.Implies(t >= 0, z3.And(r >= 0, r * r == t)))
    return SNum(r, True)


@model(ufloat)
def _(E, nom, std_dev=None, tag=None):
    n, s = E.num(nom), E.num(std_dev)
    if E.branch(s < 0):
        raise VRaise(ValueError("negative standard deviation"))
    return UF.make(E, n, s * s)


def num(E, x):
    t = E.num(x)
    return z3.ToReal(t) if t.is_int() else t


def parts(E, x):
    if isinstance(x, VObj):
        return x.attrs["nom"].t, x.attrs["var"].t
    return num(E, x), z3.RealVal(0)


def uf_binop(E, op, a, b):
    (n1, v1), (n2, v2) = parts(E, a), parts(E, b)
    if op in (ast.Add, ast.Sub):
        if z3.is_rational_value(n1) and n1.as_fraction() == 0 and not isinstance(a, VObj) and op is ast.Add:
            return b
        return UF.make(E, n1 + n2 if op is ast.Add else n1 - n2, v1 + v2)
    if op is ast.Mult and not (isinstance(a, VObj) and isinstance(b, VObj)):
        c, (n, v) = (n1, (n2, v2)) if isinstance(b, VObj) else (n2, (n1, v1))
        return UF.make(E, c * n, c * c * v)
    if op is ast.Div and not isinstance(b, VObj):
        if E.branch(n2 == 0):
            raise VRaise(ZeroDivisionError("division by zero"))
        inv = E.divide(z3.RealVal(1), n2)
        return UF.make(E, n1 * inv, v1 * inv * inv)
    raise Undecided("arithmetic with uncertainties")


_old = models.binop


def _binop(E, op, a, b):
    if any(isinstance(x, VObj) and x.cls is UF for x in (a, b)):
        return uf_binop(E, op, a, b)
    return _old(E, op, a, b)


models.binop = _binop


def _sum(E, acc, dims, g, e):
    n, v = parts(E, e)
    n0, v0 = parts(E, acc)
    return UF.make(E, n0 + E.sigma(dims, g, n), v0 + E.sigma(dims, g, v))


SUMMERS[UF] = _sum


def uf_attr(E, o, name):
    if name in ("s", "std_dev"):
        return sqrt(E, o.attrs["var"].t)
    if name in ("n", "nominal_value"):
        return o.attrs["nom"]
    return MISSING


def uf_cmp(E, op, a, b):
    return E.compare(op, a.attrs["nom"] if isinstance(a, VObj) else a, b.attrs["nom"] if isinstance(b, VObj) else b)
