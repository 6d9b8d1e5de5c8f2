"""Expression / statement evaluation, attribute access and calls."""
from __future__ import annotations

import ast
import functools
import inspect
import operator
import types

import z3

from .interp import *  # noqa: F403
from .interp import MISSING, TRUE, BreakEx, ContinueEx, Frame, Interp, ReturnEx, func_ast, stored_names, unwrap_native
from .vals import *  # noqa: F403

BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
    ast.MatMult: operator.matmul, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
DUNDER = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
    ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.MatMult: "matmul",
}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
CMPD = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"), ast.GtE: ("__ge__", "__le__")}


class PropAttr:
    pass


class Exec(Interp):
    MAXDEPTH = 60

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"expression {type(n).__name__}")
        return m(n, fr)

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        return self.get_var(fr, n.id)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def ev_JoinedStr(self, n, fr):
        parts = []
        sym = False
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                try:
                    v = self.ev(x.value, fr)
                except Undecided:
                    sym = True
                    continue
                if is_sym(v):
                    sym = True
                    parts.append(v)
                else:
                    v = to_native(v)
                    spec = ""
                    if x.format_spec is not None:
                        spec = self.ev(x.format_spec, fr)
                    if x.conversion == 114:
                        v = repr(v)
                    elif x.conversion == 115:
                        v = str(v)
                    parts.append(format(v, spec))
        if sym:
            return Opaque("formatted string")
        return "".join(parts)

    def ev_List(self, n, fr):
        return self.display(n.elts, fr, "list")

    def ev_Tuple(self, n, fr):
        return self.display(n.elts, fr, "tuple")

    def display(self, elts, fr, kind):
        out = VList([Conc([])], "list", self.tick())
        em = len(self.effects)
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.ev(e.value, fr))
                out.segs = out.segs + list(it.segs)
                out.unordered |= it.unordered
            else:
                v = self.ev(e, fr)
                if isinstance(out.segs[-1], Conc):
                    out.segs = out.segs[:-1] + [Conc(out.segs[-1].items + [v])]
                else:
                    out.segs = out.segs + [Conc([v])]
        if all(isinstance(s, Conc) for s in out.segs):
            out.segs = [Conc([x for s in out.segs for x in s.items])]
        out.kind = kind
        return out

    def ev_Set(self, n, fr):
        return self.to_set(self.display(n.elts, fr, "list"))

    def ev_Dict(self, n, fr):
        d = VDict([Conc([])], self.tick())
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.resolve(self.ev(v, fr))
                if not isinstance(o, VDict):
                    o = self.lift(o)
                for s in o.pairs:
                    if isinstance(s, Conc):
                        for p in s.items:
                            self.dict_set(d, *p.items())
                    else:
                        d.pairs = d.pairs + [s]
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def ev_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_BoolOp(self, n, fr):
        v = None
        for x in n.values:
            v = self.ev(x, fr)
            if x is n.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return False if isinstance(v, SBool) else v
            if isinstance(n.op, ast.Or) and t:
                return True if isinstance(v, SBool) else v
        return v

    def ev_UnaryOp(self, n, fr):
        v = self.resolve(self.ev(n.operand, fr))
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.simplify(z3.Not(v.t)))
            return not self.truth(v)
        if not isinstance(v, Sym):
            return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(n.op)](v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, SNum):
                return SNum(-v.t, v.np)
            return self.binop(ast.Mult, v, -1)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert) and isinstance(v, VList) and v.kind == "ndarray":
            return self.mdl.map1(self, v, lambda x: SBool(z3.simplify(z3.Not(self.zb(x)))))
        raise Undecided(f"unary {type(n.op).__name__} on {v!r}")

    def ev_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op), a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                return self.lift(BINOPS[op](a, b))
            except (Undecided, Infeasible):
                raise
            except Exception as e:
                raise VRaise(e)
        # strings
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            if op in (ast.Add, ast.Mod):
                return Opaque("string")
        if self.is_num(a) and self.is_num(b):
            return self.numop(op, a, b)
        r = self.mdl.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, VObj):
                nm = f"{pre}{DUNDER[op]}__"
                if self.class_lookup(x.cls, nm) is not MISSING:
                    r = self.call_method(x, nm, [y], {})
                    if r is not NotImplemented:
                        return r
        raise Undecided(f"operator {op.__name__} on {a!r}, {b!r}")

    def numop(self, op, a, b):
        import math
        import numpy as np

        for x, y in ((a, b), (b, a)):
            if isinstance(x, (float, np.floating)) and math.isinf(x):
                if op in (ast.Add,):
                    return x
                raise Undecided("arithmetic with inf")
        npf = getattr(a, "np", False) or getattr(b, "np", False) or isinstance(a, np.generic) or isinstance(b, np.generic)
        x, y = self.num(a), self.num(b)
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            f = {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op]
            return SBool(f(self.zb(a), self.zb(b)))
        if op is ast.Add:
            return SNum(x + y, npf)
        if op is ast.Sub:
            return SNum(x - y, npf)
        if op is ast.Mult:
            return SNum(x * y, npf)
        if op is ast.Div:
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
            if self.branch(y == 0):
                raise VRaise(ZeroDivisionError("division by zero"))
            return SNum(self.divide(x, y), npf)
        if op in (ast.FloorDiv, ast.Mod) and x.is_int() and y.is_int():
            if self.branch(y == 0):
                raise VRaise(ZeroDivisionError("division by zero"))
            if not self.branch(y > 0):
                raise Undecided("floor division by a negative number")
            return SNum(x / y if op is ast.FloorDiv else x % y)
        if op is ast.FloorDiv:
            x, y = (z3.ToReal(t) if t.is_int() else t for t in (x, y))
            if self.branch(y == 0):
                raise VRaise(ZeroDivisionError("division by zero"))
            if not self.branch(y > 0) or self.loopvars:
                raise Undecided("floor division")
            f = self.fresh("floor", z3.IntSort())
            self.define(z3.And(z3.ToReal(f) * y <= x, x < z3.ToReal(f + 1) * y, (x >= 0) == (f >= 0), (x >= y) == (f >= 1)))
            return SNum(z3.ToReal(f), npf)
        if op is ast.Pow and not isinstance(b, Sym) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.RealVal(1) if x.is_real() else z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return SNum(r, npf)
        raise Undecided(f"numeric operator {op.__name__}")

    def divide(self, x, y):
        """x / y; a divisor that does not depend on loop indices becomes multiplication by its (memoised) inverse"""
        y = z3.simplify(y)
        if z3.is_rational_value(y) or any(self._is_varlike(c) for c in free_consts(y).values()):
            return x / y
        key = y.sexpr()
        if key not in self.inverses:
            saved, self.loopvars = self.loopvars, []
            try:
                inv = z3.Real(fresh_name("inv"))
                self.define(z3.Implies(y != 0, inv * y == 1))
                self.define(z3.And(z3.Implies(y > 0, inv > 0), z3.Implies(y < 0, inv < 0)))
            finally:
                self.loopvars = saved
            self.inverses[key] = inv
        return x * self.inverses[key]

    inverses = {}

    def reset_path(self):
        self.inverses = {}
        self._explog = None

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            r = self.compare(type(op), left, right)
            if k == len(n.ops) - 1:
                if res is True:
                    return r
                return self.mkbool(self.and_([res, self.as_z3(r)]))
            res = self.and_([res, self.as_z3(r)])
            if res is False:
                return False
            left = right
        return r

    def mkbool(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, SBool):
            return x
        return SBool(x)

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op is ast.Is or op is ast.IsNot:
            r = self.is_(a, b)
            return r if op is ast.Is else not r
        for x in (a, b):
            hook = self.cmp_hooks.get(x.cls) if isinstance(x, VObj) else self.cmp_hooks.get(x.kind) if isinstance(x, SObj) else None
            if hook is not None and op not in (ast.In, ast.NotIn) and (op not in (ast.Eq, ast.NotEq) or getattr(hook, "handles_eq", False)):
                return hook(self, op, a, b)
        if op in (ast.Eq, ast.NotEq):
            if (isinstance(a, VList) and a.kind == "ndarray") or (isinstance(b, VList) and b.kind == "ndarray"):
                return self.mdl.elementwise(self, lambda p, q: self.compare(op, p, q), a, b)
            r = self.eq(a, b)
            if op is ast.NotEq:
                r = self.not_(r)
            return self.mkbool(r)
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if op is ast.NotIn:
                r = self.not_(r)
            return self.mkbool(r)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                return CMP[op](a, b)
            except Exception as e:
                raise VRaise(e)
        if self.is_num(a) and self.is_num(b):
            import math
            import numpy as np

            for x, y, flip in ((a, b, False), (b, a, True)):
                if isinstance(x, (float, np.floating)) and math.isinf(x):
                    # finite symbolic numbers
                    return CMP[op](x, 0.0) if not flip else CMP[op](0.0, x)
                if isinstance(x, (float, np.floating)) and math.isnan(x):
                    return False
            return SBool(z3.simplify(CMP[op](self.num(a), self.num(b))))
        if (isinstance(a, VList) and a.kind == "ndarray") or (isinstance(b, VList) and b.kind == "ndarray"):
            return self.mdl.elementwise(self, lambda p, q: self.compare(op, p, q), a, b)
        if isinstance(a, VList) and isinstance(b, VList) and a.kind in ("set", "frozenset", "dictkeys"):
            if op is ast.LtE:
                return self.mkbool(self.subset(a, b))
            if op is ast.GtE:
                return self.mkbool(self.subset(b, a))
        for x, y, nm in ((a, b, CMPD[op][0]), (b, a, CMPD[op][1])):
            if isinstance(x, VObj) and self.class_lookup(x.cls, nm) not in (MISSING, getattr(object, nm)):
                r = self.call_method(x, nm, [y], {})
                if r is not NotImplemented:
                    return r
            if isinstance(x, SObj) and nm in x.kind.methods:
                return x.kind.methods[nm](self, x, [y], {})
        raise Undecided(f"comparison {op.__name__} on {a!r}, {b!r}")

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, SBool) and isinstance(b, bool):
            return self.branch(a.t) == b
        if isinstance(b, SBool) and isinstance(a, bool):
            return self.branch(b.t) == a
        if isinstance(a, SObj) and isinstance(b, SObj) and a.kind is b.kind:
            if a.t.eq(b.t) or a.kind.name == "Elem":
                return self.branch(a.t == b.t)
            # equal values may be different objects
            same = z3.Function("same_object_" + a.kind.name, a.kind.sort, a.kind.sort, z3.BoolSort())(a.t, b.t)
            self.assume(z3.Implies(same, a.t == b.t))
            return self.branch(same)
        if isinstance(a, SObj) and b is None and a.kind.binop.get("is_none"):
            return self.truth(a.kind.binop["is_none"](self, a))
        return False

    def ev_Subscript(self, n, fr):
        o = self.resolve(self.ev(n.value, fr))
        i = self.ev(n.slice, fr)
        return self.getitem(o, i)

    def ev_Slice(self, n, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def getitem(self, o, i):
        o, i = self.resolve(o), self.resolve(i)
        if isinstance(o, VList):
            if isinstance(i, VList) and i.kind == "tuple":
                return self.mdl.multi_index(self, o, i.items())
            return self.index(o, i)
        if isinstance(o, VDict):
            r = self.dict_get(o, i)
            if r is MISSING:
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dict_set(o, i, v)
                    return v
                raise VRaise(KeyError(i if not isinstance(i, Sym) else "symbolic key"))
            return r
        if isinstance(o, SObj):
            if o.kind.getitem:
                return o.kind.getitem(self, o, i)
            raise Undecided(f"subscript of {o!r}")
        if isinstance(o, VObj):
            return self.call_method(o, "__getitem__", [i], {})
        if isinstance(o, Sym):
            raise Undecided(f"subscript of {o!r}")
        if not is_sym(i):
            try:
                return self.lift_ret(o[to_native(i)])
            except Exception as e:
                raise VRaise(e)
        if isinstance(o, (list, tuple)):
            return self.index(self.lift(list(o)), i)
        if isinstance(o, dict):
            return self.getitem(self.lift(dict(o)), i)
        h = self.mdl.GETITEM.get(type(o))
        if h:
            return h(self, o, i)
        raise Undecided(f"subscript of {type(o)} by symbolic value")

    def lift_ret(self, v):
        return v

    def ev_Starred(self, n, fr):
        raise Undecided("starred")

    def ev_Lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda>")

    def make_func(self, n, fr, name):
        d = [self.ev(x, fr) for x in n.args.defaults]
        kd = {a.arg: self.ev(x, fr) for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults) if x is not None}
        return VFunc(n, fr, fr.globs, name, fr.cls, d, kd)

    # comprehensions
    def comp(self, n, fr, sink):
        cf = Frame(fr, fr.globs, fr.cls, fr.func)
        cf.self_ = fr.self_

        def gen(k):
            if k == len(n.generators):
                sink(cf)
                return
            g = n.generators[k]
            it = self.ev(g.iter, cf if k else fr)

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                gen(k + 1)

            self.foreach(it, body, cf, ())

        gen(0)

    def ev_ListComp(self, n, fr, kind="list"):
        out = VList([Conc([])], "list", self.tick())
        self.comp(n, fr, lambda cf: self.append(out, self.ev(n.elt, cf)))
        if not out.segs:
            out.segs = [Conc([])]
        out.kind = kind
        return out

    def ev_GeneratorExp(self, n, fr):
        return self.ev_ListComp(n, fr, "gen")

    def ev_SetComp(self, n, fr):
        return self.to_set(self.ev_ListComp(n, fr))

    def ev_DictComp(self, n, fr):
        d = VDict([Conc([])], self.tick())
        self.comp(n, fr, lambda cf: self.dict_set(d, self.ev(n.key, cf), self.ev(n.value, cf)))
        return d

    # ------------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def class_lookup_def(self, cls, name, after=None):
        mro = list(cls.__mro__)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                return c.__dict__[name], c
        return MISSING, None

    def ev_Attribute(self, n, fr):
        o = self.resolve(self.ev(n.value, fr))
        return self.getattr(o, self.mangle(n.attr, fr))

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return f"_{fr.cls.__name__.lstrip('_')}{name}"
        return name

    def getattr(self, o, name, default=MISSING):
        o = self.resolve(o)
        r = self._getattr(o, name)
        if r is MISSING:
            if default is not MISSING:
                return default
            if hasattr(o, "state"):  # a stand-in which has only what its contract gives it
                raise Undecided(f"{o!r} is given without {name}")
            raise VRaise(AttributeError(f"{o!r} has no attribute {name}"))
        return r

    def _getattr(self, o, name):
        if isinstance(o, VObj):
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.mdl.InstDict(o)
            cv, cdef = self.class_lookup_def(o.cls, name)
            if isinstance(cv, property):
                return self.call_prop(o, cv.fget, cdef, name)
            if name in o.attrs:
                return o.attrs[name]
            if cv is not MISSING:
                if isinstance(cv, functools.cached_property) or type(cv).__name__ in ("cached_property",):
                    f = getattr(cv, "func", None)
                    v = self.call_prop(o, f, cdef, name)
                    # caching is idempotent: store without logging an effect
                    old_has = name in o.attrs
                    self.record(lambda: o.attrs.pop(name, None))
                    o.attrs[name] = v
                    return v
                return self.bind(cv, o, o.cls, cdef)
            h = self.attr_hooks.get(o.cls)
            if h:
                r = h(self, o, name)
                if r is not MISSING:
                    return r
            if o.default_attr:
                return o.default_attr(self, o, name)
            ga, gd = self.class_lookup_def(o.cls, "__getattr__")
            if ga is not MISSING:
                return self.call(BoundMethod(ga, o, gd), [name], {})
            return MISSING
        if isinstance(o, SObj):
            if name == "__class__":
                return o.kind.pycls or MISSING
            if name in o.kind.attrs:
                return o.kind.attrs[name](self, o)
            if name in o.kind.methods:
                f = o.kind.methods[name]
                return self.mdl.NativeSym(lambda args, kw: f(self, o, args, kw), f"{o.kind.name}.{name}")
            if o.kind.binop.get("noattr"):
                return MISSING
            if o.kind.pycls is not None and not hasattr(o.kind.pycls, name):
                if o.kind.binop.get("closed"):
                    return MISSING
            raise Undecided(f"attribute {name} of {o.kind.name}")
        if isinstance(o, (VList, VDict, SNum, SBool, Opaque, VFunc, BoundMethod, Partial)) or isinstance(o, Sym):
            return self.mdl.sym_attr(self, o, name)
        if isinstance(o, type):
            cv, cdef = self.class_lookup_def(o, name)
            if cv is not MISSING and isinstance(cv, (classmethod, staticmethod, types.FunctionType)):
                return self.bind(cv, None, o, cdef)
            if cv is MISSING:
                mm, md = self.class_lookup_def(type(o), name)
                if mm is MISSING:
                    return MISSING
        try:
            return getattr(o, name)
        except AttributeError:
            return MISSING

    def call_prop(self, o, f, cdef, name):
        hook = self.contracts.get((cdef, name))
        if hook:
            return hook(self, [o], {})
        return self.call(BoundMethod(f, o, cdef), [], {})

    def bind(self, cv, o, cls, cdef):
        if isinstance(cv, staticmethod):
            return BoundMethod(cv.__func__, MISSING, cdef)
        if isinstance(cv, classmethod):
            return BoundMethod(cv.__func__, cls, cdef)
        f = cv
        if isinstance(f, types.FunctionType) or (callable(f) and hasattr(f, "__wrapped__")):
            if o is None:
                return BoundMethod(f, MISSING, cdef)
            return BoundMethod(f, o, cdef)
        return cv

    # ------------------------------------------------------------------ calls
    def ev_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and self.find_frame(fr, "super") is None:
            f = fr
            while f is not None and f.self_ is None:
                f = f.parent
            if n.args:
                return self.mdl.SuperProxy(self.ev(n.args[0], fr), self.ev(n.args[1], fr))
            return self.mdl.SuperProxy(f.cls, f.self_)
        fn = self.resolve(self.ev(n.func, fr))
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, fr))
                if it.concrete():
                    args.extend(it.items())
                else:
                    args.append(self.mdl.StarArg(it))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                v = self.resolve(v)
                if not isinstance(v, VDict):
                    v = self.lift(v)
                for s in v.pairs:
                    if not isinstance(s, Conc):
                        raise Undecided("symbolic **kwargs")
                    for p in s.items:
                        kw[p.items()[0]] = p.items()[1]
            else:
                kw[k.arg] = v
        if isinstance(fn, types.BuiltinFunctionType) and fn is locals_builtin:
            raise Undecided("locals()")
        return self.call(fn, args, kw)

    def call_method(self, o, name, args, kw):
        return self.call(self.getattr(o, name), args, kw)

    def call(self, fn, args, kw):
        self.check_budget()
        fn = self.resolve(fn)
        if isinstance(fn, self.mdl.NativeSym):
            return fn.f(args, kw)
        if isinstance(fn, BoundMethod):
            a = args if fn.self_ is MISSING else [fn.self_] + list(args)
            f = fn.func
            c = self.contract_for(f, fn.cls)
            if c:
                return c(self, a, kw)
            m = self.models.get(id(unwrap_native(f))) or self.models.get(id(f))
            if m:
                return m(self, a, kw)
            f2 = unwrap_native(f)
            if isinstance(f2, types.FunctionType) and self.inlinable(f2):
                return self.call_native_func(f2, a, kw, fn.cls)
            if not any(is_sym(x) for x in a) and not any(is_sym(x) for x in kw.values()):
                return self.native(f, a, kw)
            raise Undecided(f"call of {getattr(f, '__qualname__', f)} on symbolic arguments")
        if isinstance(fn, VFunc):
            return self.call_vfunc(fn, args, kw)
        if isinstance(fn, Partial):
            return self.call(fn.func, list(fn.args) + list(args), {**fn.kwargs, **kw})
        if isinstance(fn, VObj):
            return self.call_method(fn, "__call__", args, kw)
        if isinstance(fn, SObj):
            if "__call__" in fn.kind.methods:
                return fn.kind.methods["__call__"](self, fn, args, kw)
            raise Undecided(f"call of {fn!r}")
        if isinstance(fn, Sym):
            raise Undecided(f"call of {fn!r}")
        c = self.contract_for(fn, None)
        if c:
            return c(self, args, kw)
        m = self.models.get(id(fn)) or self.models.get(id(unwrap_native(fn)))
        if m is None and isinstance(fn, types.MethodType):
            m0 = self.models.get(id(unwrap_native(fn.__func__)))
            if m0:
                return m0(self, [fn.__self__] + list(args), kw)
        if m:
            r = m(self, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(fn, types.BuiltinMethodType) and m is None:
            # builtin methods of types are created afresh on each access
            for k in self.mdl._KEEP:
                if isinstance(k, types.BuiltinMethodType) and k.__name__ == fn.__name__ and k.__self__ is fn.__self__:
                    r = self.models[id(k)](self, args, kw)
                    if r is not NotImplemented:
                        return r
        if isinstance(fn, types.BuiltinMethodType) and not isinstance(fn.__self__, types.ModuleType) and fn.__self__ is not None:
            m = self.mdl.native_method(self, fn.__self__, fn.__name__, args, kw)
            if m is not NotImplemented:
                return m
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, types.MethodType):
            f = unwrap_native(fn.__func__)
            if isinstance(f, types.FunctionType) and self.inlinable(f):
                return self.call_native_func(f, [fn.__self__] + list(args), kw, None)
        f = unwrap_native(fn)
        if isinstance(f, types.FunctionType) and self.inlinable(f):
            return self.call_native_func(f, args, kw, None)
        if not any(is_sym(x) for x in args) and not any(is_sym(x) for x in kw.values()):
            return self.native(fn, args, kw)
        raise Undecided(f"call of external {getattr(fn, '__qualname__', fn)} on symbolic arguments")

    def contract_for(self, f, cls):
        if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, type)) and f in self.contracts:
            return self.contracts[f]
        f = unwrap_native(f)
        if isinstance(f, types.MethodType):
            f = f.__func__
        return self.contracts.get(f) if isinstance(f, types.FunctionType) else None

    def inlinable(self, f):
        mod = f.__module__ or ""
        if mod.startswith(self.INLINE_PREFIX):
            return True
        return any(mod == m or f"{mod}.{f.__qualname__}".startswith(m) for m in self.INLINE_EXTRA)

    def native(self, fn, args, kw):
        try:
            a = [to_native(x) for x in args]
            k = {n: to_native(x) for n, x in kw.items()}
            r = fn(*a, **k)
        except (Undecided, Infeasible):
            raise
        except Exception as e:
            raise VRaise(e)
        if isinstance(r, (list, dict, set, tuple)) and type(r) in (list, dict, set, tuple):
            return self.lift(r)
        import numpy as np

        if isinstance(r, np.ndarray) and r.ndim == 1 and r.dtype.kind in "fiub":
            return VList([Conc([x.item() if r.dtype.kind in "iu" else x.item() for x in r])], "ndarray", self.tick())
        return r

    def call_native_func(self, f, args, kw, cls):
        node = func_ast(f)
        self.inlined.add(f"{f.__module__}.{f.__qualname__}")
        fr = Frame(None, f.__globals__, cls, f)
        if cls is None and f.__closure__ and "__class__" in f.__code__.co_freevars:
            cls = f.__closure__[f.__code__.co_freevars.index("__class__")].cell_contents
            fr.cls = cls
        if f.__closure__:
            outer = Frame(None, f.__globals__, cls, f)
            for nme, cell in zip(f.__code__.co_freevars, f.__closure__):
                if nme != "__class__":
                    try:
                        outer.vars[nme] = cell.cell_contents
                    except ValueError:
                        pass
            fr.parent = outer
        return self.run_func(node, fr, list(f.__defaults__ or ()), f.__kwdefaults__ or {}, args, kw, f.__name__)

    def call_vfunc(self, fn, args, kw):
        fr = Frame(fn.frame, fn.globs, fn.cls, fn)
        return self.run_func(fn.node, fr, fn.defaults, fn.kwdefaults, args, kw, fn.name)

    def run_func(self, node, fr, defaults, kwdefaults, args, kw, name):
        if self.depth > self.MAXDEPTH:
            raise Undecided("recursion depth")
        self.bind_args(node.args, fr, defaults, kwdefaults, args, kw, name)
        if args:
            fr.self_ = args[0]
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            isgen = is_generator(node)
            if isgen:
                fr.yields = VList([Conc([])], "list", self.tick())
            try:
                self.block(node.body, fr)
                r = None
            except ReturnEx as e:
                r = e.v
            if isgen:
                if not fr.yields.segs:
                    fr.yields.segs = [Conc([])]
                fr.yields.kind = "iter"
                return fr.yields
            return r
        finally:
            self.depth -= 1

    def bind_args(self, a, fr, defaults, kwdefaults, args, kw, name):
        kw = dict(kw)
        pos = [x.arg for x in a.posonlyargs + a.args]
        if any(isinstance(x, self.mdl.StarArg) for x in args):
            if a.vararg and not pos and len(args) == 1:
                fr.vars[a.vararg.arg] = args[0].it
                args = []
            else:
                raise Undecided("symbolic *args")
        nd = len(defaults)
        for n, p in enumerate(pos):
            if n < len(args):
                fr.vars[p] = args[n]
                if p in kw:
                    raise VRaise(TypeError(f"{name}() got multiple values for argument '{p}'"))
            elif p in kw:
                fr.vars[p] = kw.pop(p)
            elif n >= len(pos) - nd:
                fr.vars[p] = self.lift(defaults[n - (len(pos) - nd)]) if not isinstance(defaults[n - (len(pos) - nd)], Sym) else defaults[n - (len(pos) - nd)]
            else:
                raise VRaise(TypeError(f"{name}() missing argument '{p}'"))
        if len(args) > len(pos):
            if a.vararg:
                fr.vars[a.vararg.arg] = self.mk(list(args[len(pos):]), "tuple")
            else:
                raise VRaise(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        elif a.vararg and a.vararg.arg not in fr.vars:
            fr.vars[a.vararg.arg] = self.mk([], "tuple")
        for k in a.kwonlyargs:
            if k.arg in kw:
                fr.vars[k.arg] = kw.pop(k.arg)
            elif k.arg in kwdefaults:
                fr.vars[k.arg] = kwdefaults[k.arg]
            else:
                raise VRaise(TypeError(f"{name}() missing keyword argument '{k.arg}'"))
        if a.kwarg:
            fr.vars[a.kwarg.arg] = VDict([Conc([self.tup(k, v) for k, v in kw.items()])], self.tick())
        elif kw:
            raise VRaise(TypeError(f"{name}() got an unexpected keyword argument {list(kw)}"))

    def instantiate(self, cls, args, kw):
        if issubclass(cls, BaseException):
            try:
                return cls(*[a if not isinstance(a, Sym) else "<symbolic>" for a in args])
            except Exception:
                return cls("<symbolic>")
        c = self.contracts.get((cls, "__call__"))
        if c:
            return c(self, args, kw)
        mod = cls.__module__ or ""
        if mod.startswith(self.INLINE_PREFIX) or any(f"{mod}.{cls.__qualname__}" == m for m in self.INLINE_EXTRA):
            init, idef = self.class_lookup_def(cls, "__init__")
            new, ndef = self.class_lookup_def(cls, "__new__")
            o = VObj(cls, {}, self.tick())
            if ndef is not object and new is not MISSING:
                raise Undecided(f"__new__ of {cls}")
            if init is not MISSING and idef is not object:
                f = unwrap_native(init)
                if hasattr(cls, "__dataclass_fields__") and getattr(f, "__code__", None) is not None and f.__code__.co_filename == "<string>":
                    self.dataclass_init(cls, o, args, kw)
                else:
                    self.call(BoundMethod(init, o, idef), args, kw)
            return o
        if not any(is_sym(x) for x in args) and not any(is_sym(x) for x in kw.values()):
            return self.native(cls, args, kw)
        raise Undecided(f"instantiation of external class {cls.__qualname__} with symbolic arguments")

    def dataclass_init(self, cls, o, args, kw):
        import dataclasses

        fields = [f for f in dataclasses.fields(cls) if f.init]
        kw = dict(kw)
        for n, f in enumerate(fields):
            if n < len(args):
                v = args[n]
            elif f.name in kw:
                v = kw.pop(f.name)
            elif f.default is not dataclasses.MISSING:
                v = self.lift(f.default)
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory, [], {})
            else:
                raise VRaise(TypeError(f"missing {f.name}"))
            o.attrs[f.name] = v
        if kw:
            raise VRaise(TypeError(f"unexpected {list(kw)}"))
        if hasattr(cls, "__post_init__"):
            self.call_method(o, "__post_init__", [], {})

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, n, fr):
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Undecided(f"statement {type(n).__name__}")
        return m(n, fr)

    def st_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return self.ev(n.value, fr)
        self.ev(n.value, fr)

    def ev_Yield(self, n, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        self.append(f.yields, self.ev(n.value, fr) if n.value else None)

    def ev_YieldFrom(self, n, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        self.extend(f.yields, self.ev(n.value, fr))

    def st_Pass(self, n, fr):
        pass

    def st_Return(self, n, fr):
        raise ReturnEx(self.ev(n.value, fr) if n.value is not None else None)

    def st_Break(self, n, fr):
        raise BreakEx

    def st_Continue(self, n, fr):
        raise ContinueEx

    def st_Assert(self, n, fr):
        if not self.truth(self.ev(n.test, fr)):
            raise VRaise(AssertionError())

    def st_Global(self, n, fr):
        fr.globaldecl.update(n.names)

    def st_Nonlocal(self, n, fr):
        fr.nonlocals.update(n.names)

    def st_Import(self, n, fr):
        import importlib

        for a in n.names:
            m = importlib.import_module(a.name)
            self.set_var(fr, a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))

    def st_ImportFrom(self, n, fr):
        import importlib

        m = importlib.import_module(n.module)
        for a in n.names:
            self.set_var(fr, a.asname or a.name, getattr(m, a.name))

    def st_FunctionDef(self, n, fr):
        f = self.make_func(n, fr, n.name)
        for d in reversed(n.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.set_var(fr, n.name, f)

    def st_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def st_AugAssign(self, n, fr):
        op = type(n.op)
        if isinstance(n.target, ast.Name):
            old = self.resolve(self.get_var(fr, n.target.id))
        elif isinstance(n.target, ast.Attribute):
            o = self.resolve(self.ev(n.target.value, fr))
            old = self.getattr(o, self.mangle(n.target.attr, fr))
        else:
            o = self.resolve(self.ev(n.target.value, fr))
            i = self.ev(n.target.slice, fr)
            old = self.getitem(o, i)
        v = self.ev(n.value, fr)
        old = self.resolve(old)
        # in-place semantics
        if isinstance(old, VList) and old.kind == "list" and op is ast.Add:
            self.extend(old, v)
            return
        if isinstance(old, VList) and old.kind == "ndarray":
            new = self.binop(op, old, v)
            self.set_segs(old, new.segs)
            return
        if isinstance(old, VList) and old.kind == "set" and op in (ast.BitOr, ast.Sub, ast.BitAnd):
            new = self.binop(op, old, v)
            self.set_segs(old, new.segs, distinct=new.distinct)
            return
        if isinstance(old, VDict) and op is ast.BitOr:
            self.mdl.dict_update(self, old, [v], {})
            return
        if isinstance(old, VObj):
            nm = f"__i{DUNDER[op]}__"
            if self.class_lookup(old.cls, nm) is not MISSING:
                new = self.call_method(old, nm, [v], {})
            else:
                new = self.binop(op, old, v)
        else:
            new = self.binop(op, old, v)
        if isinstance(n.target, ast.Name):
            self.set_var(fr, n.target.id, new)
        elif isinstance(n.target, ast.Attribute):
            self.setattr(o, self.mangle(n.target.attr, fr), new)
        else:
            self.setitem(o, i, new)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_var(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.resolve(self.ev(t.value, fr)), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.resolve(self.ev(t.value, fr)), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if not isinstance(v, VList):
                v = self.iterate(v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if v.concrete():
                items = v.items()
                if star:
                    k = star[0]
                    after = len(t.elts) - k - 1
                    if len(items) < len(t.elts) - 1:
                        raise VRaise(ValueError("not enough values to unpack"))
                    for e, x in zip(t.elts[:k], items[:k]):
                        self.assign(e, x, fr)
                    self.assign(t.elts[k].value, self.mk(items[k:len(items) - after]), fr)
                    for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                        self.assign(e, x, fr)
                    return
                if len(items) != len(t.elts):
                    raise VRaise(ValueError("wrong number of values to unpack"))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
                return
            if star:
                raise Undecided("starred unpack of symbolic sequence")
            n = self.length(v)
            if not self.branch(self.zb(self.eq(n, len(t.elts)))):
                raise VRaise(ValueError("wrong number of values to unpack"))
            for k, e in enumerate(t.elts):
                self.assign(e, self.index(v, k), fr)
        elif isinstance(t, ast.Starred):
            raise Undecided("starred assign")
        else:
            raise Undecided("assignment target")

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            cv, cdef = self.class_lookup_def(o.cls, name)
            if isinstance(cv, property):
                if cv.fset is None:
                    raise VRaise(AttributeError(f"property '{name}' has no setter"))
                self.call(BoundMethod(cv.fset, o, cdef), [v], {})
                return
            sa, sd = self.class_lookup_def(o.cls, "__setattr__")
            if sd is not object:
                raise Undecided("custom __setattr__")
            self.set_attr_raw(o, name, v)
            return
        raise Undecided(f"attribute assignment on {o!r}")

    def setitem(self, o, i, v):
        o = self.resolve(o)
        if isinstance(o, VDict):
            self.dict_set(o, i, v)
            return
        if isinstance(o, VList) and o.kind in ("list", "ndarray"):
            return self.mdl.list_setitem(self, o, self.resolve(i), v)
        if isinstance(o, VObj):
            if getattr(o.cls, "unknown_content", False):
                return
            self.call_method(o, "__setitem__", [i, v], {})
            return
        if isinstance(o, self.mdl.InstDict):
            return self.set_attr_raw(o.o, i, v)
        if isinstance(o, SObj) and "__setitem__" in o.kind.methods:
            o.kind.methods["__setitem__"](self, o, [i, v], {})
            return
        raise Undecided(f"item assignment on {o!r}")

    def st_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                f = self.find_frame(fr, t.id)
                old = f.vars[t.id]
                self.record(lambda: f.vars.__setitem__(t.id, old))
                del f.vars[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.resolve(self.ev(t.value, fr))
                if not isinstance(o, VObj):
                    raise Undecided("del attribute")
                self.del_attr_raw(o, self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                o = self.resolve(self.ev(t.value, fr))
                i = self.ev(t.slice, fr)
                self.mdl.del_item(self, o, i)
            else:
                raise Undecided("del")

    def st_If(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            self.block(n.body, fr)
        else:
            self.block(n.orelse, fr)

    def st_For(self, n, fr):
        it = self.ev(n.iter, fr)
        assigned = stored_names(n.body) | stored_names([n.target])

        def body(v):
            self.assign(n.target, v, fr)
            self.block(n.body, fr)

        inv = self.loop_hook(n, fr)
        if inv:
            done = inv(self, n, fr, it, body, assigned)
        else:
            done = self.foreach(it, body, fr, assigned)
        if done:
            self.block(n.orelse, fr)

    loop_hooks = None

    def loop_hook(self, n, fr):
        for h in self.loop_hooks or []:
            r = h(self, n, fr)
            if r:
                return r
        return None

    def st_While(self, n, fr):
        inv = self.loop_hook(n, fr)
        if inv:
            done = inv(self, n, fr)
            if done:
                self.block(n.orelse, fr)
            return
        # bounded unrolling only when the condition is concrete
        k = 0
        while True:
            c = self.resolve(self.ev(n.test, fr))
            if is_sym(c) and not isinstance(c, (VList, VDict)):
                raise Undecided("while loop without invariant")
            if not self.truth(c):
                break
            k += 1
            if k > 2000:
                raise Undecided("while loop: too many concrete iterations")
            try:
                self.block(n.body, fr)
            except ContinueEx:
                continue
            except BreakEx:
                return
        self.block(n.orelse, fr)

    def st_Raise(self, n, fr):
        if n.exc is None:
            f = fr
            while f is not None:
                if "__exc__" in f.vars:
                    raise VRaise(f.vars["__exc__"])
                f = f.parent
            raise Undecided("bare raise")
        e = self.resolve(self.ev(n.exc, fr))
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if isinstance(e, BaseException):
            raise VRaise(e)
        if isinstance(e, VObj):
            raise Undecided("custom exception object")
        raise Undecided("raise")

    def st_Try(self, n, fr):
        try:
            try:
                self.block(n.body, fr)
            except VRaise as r:
                for h in n.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t.items() if isinstance(t, VList) else (t if isinstance(t, tuple) else [t])
                        match = isinstance(r.exc, tuple(ts))
                    if match:
                        if h.name:
                            self.set_var(fr, h.name, r.exc)
                        self.set_var(fr, "__exc__", r.exc)
                        self.block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.block(n.orelse, fr)
        except (VRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(n.finalbody, fr)
            raise
        self.block(n.finalbody, fr)

    def st_With(self, n, fr):
        h = self.mdl.with_(self, n, fr)
        self.block(n.body, fr)


def locals_builtin():
    pass


_GEN = {}


def is_generator(node):
    k = id(node)
    if k not in _GEN:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        _GEN[k] = (node, r)
    return _GEN[k][1]
