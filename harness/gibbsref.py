"""Independent reference for tabulated and estimated Gibbs energies."""
import json
import math
import os

import numpy as np
from pymatgen.core.periodic_table import Element

from rxn_network.data import G_ELEMS

GE = {float(t): v for t, v in G_ELEMS.items()}


def tab(table, T):
    """linear interpolation in {T: g}"""
    ts = sorted(map(float, table))
    t = {float(k): float(v) for k, v in table.items()}
    if float(T) in t:
        return t[float(T)]
    lo = max(x for x in ts if x <= T)
    hi = min(x for x in ts if x >= T)
    return t[lo] + (t[hi] - t[lo]) * (T - lo) / (hi - lo)


def gibbs_energy(comp, fe, vpa, T):
    """Bartel et al. (2018) estimate, eV per given composition"""
    am = comp.get_el_amt_dict()
    n = sum(am.values())
    if len(am) == 1:
        return fe * n
    red = comp.reduced_composition.get_el_amt_dict()
    els = list(red)
    m = 0.0
    for i in range(len(els)):
        for j in range(i + 1, len(els)):
            a, b = float(Element(els[i]).atomic_mass), float(Element(els[j]).atomic_mass)
            m += (red[els[i]] + red[els[j]]) * a * b / (a + b)
    m /= (len(els) - 1) * sum(red.values())
    gd = (-2.48e-4 * math.log(vpa) - 8.94e-5 * m / vpa) * T + 0.181 * math.log(T) - 0.882
    si = sum(k * tab({t: GE[t][e] for t in GE}, T) for e, k in am.items())
    return fe * n + n * gd - si
