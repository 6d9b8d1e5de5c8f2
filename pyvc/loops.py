"""Inductive rules for loops that the summaries cannot express."""
from __future__ import annotations

import ast
import math

import numpy as np
import z3

from .interp import BreakEx, ContinueEx, ReturnEx
from .vals import *  # noqa: F403
from .vals import fresh_name, rename_seg, subst, dims_cond


def havoc_value(E, v, name):
    """an arbitrary value of the same kind"""
    v = E.resolve(v)
    if isinstance(v, (bool, SBool, np.bool_)):
        return SBool(z3.Bool(fresh_name("h_" + name)))
    if isinstance(v, (float, np.floating)) and math.isinf(v):
        b = z3.Bool(fresh_name("h_" + name + "_inf"))
        i = z3.Int(fresh_name("h_" + name))
        return Choice([(b, v), (z3.Not(b), SNum(i))])
    if isinstance(v, SNum):
        return SNum(z3.Const(fresh_name("h_" + name), v.t.sort()), v.np)
    if isinstance(v, (int, np.integer)):
        return SNum(z3.Int(fresh_name("h_" + name)))
    if isinstance(v, (float, np.floating)):
        return SNum(z3.Real(fresh_name("h_" + name)), True)
    if isinstance(v, VList) and v.kind == "ndarray":
        from .linalg import column, flat_of
        n = E.length(v)
        return Choice([(b, x) for b, x in zip((lambda q: (q, z3.Not(q)))(z3.Bool(fresh_name("h_" + name))), (flat_of(E, column(E, n)), column(E, n)))])
    raise Undecided(f"arbitrary value of {v!r}")


def continuation_rule(func_node, post):
    """Loop rule with the weakest invariant `the rest of the function establishes post`:
    established by the current state (path without iterations), assumed for an arbitrary state, re-established after the body."""
    def hook(E, n, fr):
        if n not in func_node().body:
            return None
        rest = func_node().body[func_node().body.index(n) + 1:]

        def rule(E, n, fr, it, body, assigned):
            it = E.iterate(it)
            if it.concrete():
                return E.foreach(it, body, fr, assigned)
            segs = [s for s in it.segs if isinstance(s, Seg) or s.items]
            k = E.choose([(i, z3.BoolVal(True)) for i in range(len(segs) + 1)])
            if k == len(segs):
                return True
            clock = E.clock
            for nme in sorted(assigned):
                f = E.find_frame(fr, nme)
                if f is not None:
                    E.set_var_in(f, nme, havoc_value(E, f.vars[nme], nme))

            def tail():
                try:
                    E.block(n.orelse, fr)
                    E.block(rest, fr)
                    r = None
                except ReturnEx as e:
                    r = e.v
                except VRaise:
                    raise Undecided("the code after the loop may raise")
                return post(E, r)
            for br, f in E.explore(tail):
                E.assume(z3.Implies(z3.And(*br), f) if br else f)
            s = segs[k]
            if isinstance(s, Conc):
                j = E.choose([(i, z3.BoolVal(True)) for i in range(len(s.items))])
                elem = s.items[j]
            else:
                dims, g, elem = rename_seg(s, [z3.Const(fresh_name('it'), v.sort()) for v, _ in s.dims])
                for v, hi in dims:
                    if hi is not None:
                        E.assume(z3.And(v >= 0, v < hi))
                E.assume(g)
            mark = len(E.effects)
            try:
                body(elem)
            except ContinueEx:
                pass
            except BreakEx:
                return False
            finally:
                for e in E.effects[mark:]:
                    if getattr(e[1], "birth", 0) <= clock:
                        raise Undecided("loop body modifies an object created before the loop")
            return True
        return rule
    return hook


class Done:
    """the elements of a loop handled so far: a predicate over the variables of one segment"""

    def __init__(self, dims, guard, elem, pred, count=None):
        self.dims, self.guard, self.elem, self.pred, self.count = dims, guard, elem, pred, count

    def dom(self):
        return z3.And(dims_cond(self.dims), self.guard)

    def all(self, f):
        """f(element) for every element handled"""
        return z3.ForAll([v for v, _ in self.dims], z3.Implies(z3.And(self.dom(), self.pred([v for v, _ in self.dims])), f(self.elem)))

    def any(self, f):
        return z3.Exists([v for v, _ in self.dims], z3.And(self.dom(), self.pred([v for v, _ in self.dims]), f(self.elem)))


def havoc_set(E, o, kind, pred):
    """arbitrary content of a set object: the elements with pred"""
    x = z3.Const(fresh_name("x"), kind.sort)
    E.set_segs(o, [Seg([(x, None)], pred(x), SObj(kind, x))], distinct=True)
    o.unordered = True


def havoc_list(E, o, n, mk):
    """arbitrary content of a list object: n elements, the k-th is mk(k)"""
    k = z3.Int(fresh_name("k"))
    E.set_segs(o, [Seg([(k, n)], z3.BoolVal(True), mk(k))])


def havoc_dict(E, o, kkind, has, value):
    """arbitrary content of a dictionary object: keys with has, the value of key k is value(k)"""
    k = z3.Const(fresh_name("k"), kkind.sort)
    old = (o.pairs, o.meta)
    E.record(lambda: (setattr(o, "pairs", old[0]), setattr(o, "meta", old[1])))
    o.pairs = [Seg([(k, None)], has(k), E.tup(SObj(kkind, k), value(k)))]
    o.meta = {"distinct": True}


def invariant_rule(func_node, pick, havoc, inv, name="loop"):
    """Hoare rule for a loop over a symbolic collection.  pick(n): is this the loop; havoc(E, fr) -> objects made arbitrary;
    inv(E, fr, done) -> [(name, formula)]: proved before the loop (nothing handled), assumed for an arbitrary set of handled
    elements, proved again after the body for one more element, assumed after the loop for all elements."""
    def hook(E, n, fr):
        if not pick(E, n, fr):
            return None

        def rule(E, n, fr, it, body, assigned):
            it = E.iterate(it)
            segs = [s for s in it.segs if isinstance(s, Seg) or s.items]
            if len(segs) != 1 or isinstance(segs[0], Conc) or len(segs[0].dims) != 1:
                return E.foreach(it, body, fr, assigned)
            if it.kind in ("set", "frozenset") and not it.distinct:
                raise Undecided("loop over possible duplicates")
            s = segs[0]
            dims, g, elem = rename_seg(s)
            v, hi = dims[0]
            ordered = hi is not None and not it.unordered
            none = Done(dims, g, elem, lambda vs: z3.BoolVal(False), z3.IntVal(0) if ordered else None)
            for nm, f in inv(E, fr, none):
                E.prove(f"{name}: {nm} holds before the loop", f)
            step = E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
            clock = E.clock
            objs = havoc(E, fr)
            if ordered:
                i = E.fresh("at", z3.IntSort())
                E.assume(z3.And(i >= 0, i <= hi))
                pred = lambda vs: vs[0] < i
            else:
                P = z3.Function(fresh_name("handled"), v.sort(), z3.BoolSort())
                pred = lambda vs: P(vs[0])
            if not step:
                for nme in assigned:
                    f = E.find_frame(fr, nme)
                    if f is not None and not any(f.vars[nme] is o for o in objs):
                        E.set_var_in(f, nme, Poison(f"variable {nme} assigned in loop"))
                for nm, f in inv(E, fr, Done(dims, g, elem, lambda vs: z3.BoolVal(True), hi if ordered else None)):
                    E.assume(f)
                return True
            for nme in assigned:
                f = E.find_frame(fr, nme)
                if f is not None and nme in f.vars and not any(f.vars[nme] is o for o in objs):
                    E.set_var_in(f, nme, Poison(f"variable {nme} of an earlier iteration"))
            for nm, f in inv(E, fr, Done(dims, g, elem, pred, i if ordered else None)):
                E.assume(f)
            if ordered:
                w = i
                E.assume(i < hi)
                after = lambda vs: vs[0] <= i
            else:
                w = E.fresh("elem", v.sort())
                after = lambda vs: z3.Or(P(vs[0]), vs[0] == w)
                E.assume(z3.Not(P(w)))
            E.assume(z3.substitute(z3.And(dims_cond(dims), g), (v, w)))
            mark = len(E.effects)
            E.done_stack = [*getattr(E, "done_stack", []), Done(dims, g, elem, pred)]
            try:
                body(subst(elem, [(v, w)]))
            except ContinueEx:
                pass
            except BreakEx:
                return False
            finally:
                E.done_stack = E.done_stack[:-1]
                for e in E.effects[mark:]:
                    if getattr(e[1], "birth", 0) <= clock and not any(e[1] is o for o in objs):
                        raise Undecided("the loop modifies an object its invariant does not mention")
            for nm, f in inv(E, fr, Done(dims, g, elem, after, i + 1 if ordered else None)):
                E.prove(f"{name}: {nm} is kept by an iteration", f)
            raise Infeasible
        return rule
    return hook


def dict_view(E, d):
    """a dictionary as a predicate on keys and a function; later pairs win"""
    has, val = lambda t: z3.BoolVal(False), None
    for s in d.pairs:
        if isinstance(s, Conc):
            for p in s.items:
                k, v = [E.resolve(x) for x in p.items()]
                has = lambda t, h=has, k=k: z3.Or(t == k.t, h(t))
                val = lambda t, f=val, k=k, v=v: z3.If(t == k.t, v.t, f(t)) if f else v.t
        else:
            if val is not None or s.elem.items()[0].t.get_id() != s.dims[0][0].get_id():
                raise Undecided("form of the dictionary")
            sub = lambda f, t, s=s: z3.substitute(f, (s.dims[0][0], t))
            has = lambda t, s=s: sub(s.guard, t)
            val = lambda t, s=s: sub(s.elem.items()[1].t, t)
    return has, val or (lambda t: None)


def set_view(E, o):
    """a set of opaque values as a predicate"""
    parts = []
    for s in o.segs:
        if isinstance(s, Conc):
            parts += [lambda t, x=E.resolve(x): t == x.t for x in s.items]
        else:
            dims, g, e = s.dims, s.guard, s.elem
            if len(dims) == 1 and e.t.get_id() == dims[0][0].get_id():
                parts.append(lambda t, s=s: z3.substitute(z3.And(dims_cond(s.dims), s.guard), (s.dims[0][0], t)))
            else:
                parts.append(lambda t, s=s: z3.Exists([v for v, _ in s.dims], z3.And(dims_cond(s.dims), s.guard, s.elem.t == t)))
    return lambda t: z3.Or(*[p(t) for p in parts], z3.BoolVal(False))


def list_view(E, o, comp):
    """a list as (length, k -> term): comp(element) is the term of an element; without bounds obligations"""
    n, parts = z3.IntVal(0), []
    for s in o.segs:
        if isinstance(s, Conc):
            for x in s.items:
                parts.append((n, None, comp(E.resolve(x))))
                n = n + 1
        else:
            if not s.simple():
                raise Undecided("form of the list")
            (v, hi), = s.dims
            parts.append((n, (v, hi), comp(s.elem)))
            n = n + hi

    def at(k):
        r = None
        for off, d, t in reversed(parts):
            x = t if d is None else z3.substitute(t, (d[0], k - off))
            r = x if r is None else z3.If(k < (off + 1 if d is None else off + d[1]), x, r)
        return r

    return n, (at if parts else None)


def while_rule(pick, havoc, inv, variant=None, name="loop"):
    """Hoare rule for a while loop: havoc(E, fr) makes the variables arbitrary; inv(E, fr) -> [(name, formula)];
    variant(E, fr): an integer that is not negative and decreases with every iteration (termination)"""
    def hook(E, n, fr):
        if not isinstance(n, ast.While) or not pick(E, n, fr):
            return None

        def rule(E, n, fr):
            for nm, f in inv(E, fr):
                E.prove(f"{name}: {nm} holds before the loop", f)
            step = E.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))])
            havoc(E, fr)
            for nm, f in inv(E, fr):
                E.assume(f)
            c = E.zb(E.truth(E.ev(n.test, fr)))
            if z3.is_false(z3.simplify(c if step else z3.Not(c))):
                raise Infeasible
            E.assume(c if step else z3.Not(c))
            if not step:
                return True
            v0 = variant(E, fr) if variant else None
            try:
                E.block(n.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return False
            for nm, f in inv(E, fr):
                E.prove(f"{name}: {nm} is kept by an iteration", f)
            if variant:
                E.prove(f"{name}: terminates", z3.And(v0 >= 0, variant(E, fr) < v0))
            raise Infeasible
        return rule
    return hook
