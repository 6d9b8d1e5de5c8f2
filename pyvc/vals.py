"""Symbolic value domain of pyvc.

Numbers are mathematical: Python/numpy floats are z3 Reals, ints are z3 Ints (listed as an assumption in
every evidence file).  Unbounded collections are lists of *segments*; a segment is a template
``elem`` over bound index variables ``dims`` (0 <= var < hi) restricted by ``guard``.
"""
from __future__ import annotations

import itertools

import z3


class Undecided(Exception):
    """The verifier cannot handle a construct (never mapped to a violation)."""


class Infeasible(Exception):
    """Current path is infeasible - drop it."""


class VRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc  # a native exception instance


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return f"{p}!{_ctr[0]}"


def counter_value():
    return _ctr[0]


def set_counter(v):
    _ctr[0] = v


class Sym:
    """Base of all symbolic values (never hash/compare natively)."""

    __slots__ = ()

    def __bool__(self):
        raise Undecided(f"native truth test on symbolic value {type(self).__name__}")

    __hash__ = object.__hash__


class SNum(Sym):
    __slots__ = ("t", "np")

    def __init__(self, t, np=False):
        self.t = t
        self.np = np

    def __repr__(self):
        return f"SNum({self.t})"

    @property
    def is_int(self):
        return self.t.is_int()


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class Kind:
    """Type specification of opaque objects: z3 sort + python class + attribute table.

    attrs: name -> (engine, obj) -> value ; methods: name -> (engine, obj, args, kwargs) -> value
    """

    def __init__(self, name, pycls=None, eq=True):
        self.name = name
        self.sort = z3.DeclareSort(name)
        self.pycls = pycls
        self.attrs = {}
        self.methods = {}
        self.getitem = None
        self.truth = None
        self.iter = None
        self.contains = None
        self.binop = {}
        self.symattr = None  # (has(E, o, name), get(E, o, name)) for attributes named by a symbolic string

    def const(self, name):
        return SObj(self, z3.Const(name, self.sort))

    def fn(self, name, *argsorts):
        return z3.Function(name, *argsorts, self.sort)

    def attr_fn(self, name, sort):
        """declare attribute `name` as uninterpreted function of the object"""
        f = z3.Function(f"{self.name}.{name}", self.sort, sort)
        return f


class SObj(Sym):
    __slots__ = ("kind", "t")

    def __init__(self, kind, t):
        self.kind = kind
        self.t = t

    def __repr__(self):
        return f"{self.kind.name}({self.t})"


class Choice(Sym):
    """Value that depends on conditions: [(z3cond, value), ...] (conds exhaustive & exclusive)."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"Choice({self.alts})"


class Poison(Sym):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class Opaque(Sym):
    """An unknown value that may be passed around but not inspected (e.g. formatted strings)."""

    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why


class Conc:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class Seg:
    __slots__ = ("dims", "guard", "elem")

    def __init__(self, dims, guard, elem):
        self.dims = list(dims)  # [(z3 Int const, hi term)]
        self.guard = guard  # z3 Bool
        self.elem = elem  # template value

    def simple(self):
        return len(self.dims) == 1 and z3.is_true(self.guard)


class VList(Sym):
    """list / tuple / ndarray / generator / set, by .kind"""

    __slots__ = ("segs", "kind", "birth", "unordered", "distinct", "meta", "lazy", "shared")

    def __init__(self, segs=None, kind="list", birth=0, unordered=False, distinct=False):
        self.segs = segs if segs is not None else []
        self.kind = kind
        self.birth = birth
        self.unordered = unordered
        self.distinct = distinct
        self.meta = {}
        self.shared = False

    def concrete(self):
        return all(isinstance(s, Conc) for s in self.segs)

    def items(self):
        out = []
        for s in self.segs:
            if not isinstance(s, Conc):
                raise Undecided("symbolic segment where concrete items needed")
            out.extend(s.items)
        return out

    def simple_seg(self):
        segs = [s for s in self.segs if not (isinstance(s, Conc) and not s.items)]
        if len(segs) == 1 and isinstance(segs[0], Seg) and segs[0].simple():
            return segs[0]
        return None

    def __repr__(self):
        return f"V{self.kind}({[s.items if isinstance(s, Conc) else ('Seg', s.dims, s.guard, s.elem) for s in self.segs]})"


class VDict(Sym):
    """pairs: VList of 2-tuples in insertion order; later keys override only when `distinct` not known"""

    __slots__ = ("pairs", "birth", "default", "meta", "shared")

    def __init__(self, pairs=None, birth=0, default=None):
        self.pairs = pairs if pairs is not None else []  # list of Conc/Seg of pair VList(tuple)
        self.birth = birth
        self.default = default
        self.meta = {}
        self.shared = False

    def concrete(self):
        return all(isinstance(s, Conc) for s in self.pairs)

    def __repr__(self):
        return f"VDict({self.pairs})"


class VObj(Sym):
    """Instance of a repository (or interpretable) class with engine-managed attributes."""

    __slots__ = ("cls", "attrs", "birth", "tag", "default_attr", "shared")

    def __init__(self, cls, attrs=None, birth=0, tag=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.birth = birth
        self.tag = tag
        self.default_attr = None
        self.shared = False

    def __repr__(self):
        return f"<{self.cls.__name__} {self.tag or ''} {list(self.attrs)}>"


class BoundMethod(Sym):
    __slots__ = ("func", "self_", "cls")

    def __init__(self, func, self_, cls=None):
        self.func = func
        self.self_ = self_
        self.cls = cls


class VFunc(Sym):
    """Interpreted function/lambda closure"""

    __slots__ = ("node", "frame", "globs", "name", "cls", "defaults", "kwdefaults", "native")

    def __init__(self, node, frame, globs, name, cls=None, defaults=(), kwdefaults=None, native=None):
        self.node, self.frame, self.globs, self.name, self.cls = node, frame, globs, name, cls
        self.defaults, self.kwdefaults, self.native = defaults, kwdefaults or {}, native


class Partial(Sym):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


# ---------------------------------------------------------------------------------------------
def subst(v, pairs):
    """Deep substitution of z3 constants in a (template) value."""
    if not pairs:
        return v
    if isinstance(v, SNum):
        return SNum(z3.substitute(v.t, *pairs), v.np)
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, *pairs))
    if isinstance(v, SObj):
        return SObj(v.kind, z3.substitute(v.t, *pairs))
    if isinstance(v, Choice):
        return Choice([(z3.substitute(c, *pairs), subst(x, pairs)) for c, x in v.alts])
    if isinstance(v, VList):
        n = VList([subst_seg(s, pairs) for s in v.segs], v.kind, v.birth, v.unordered, v.distinct)
        n.meta = {k: (z3.substitute(x, *pairs) if z3.is_expr(x) else subst(x, pairs) if isinstance(x, Sym) else x) for k, x in v.meta.items()}
        n.shared = v.shared
        return n
    if isinstance(v, VDict):
        n = VDict([subst_seg(s, pairs) for s in v.pairs], v.birth, v.default)
        n.meta = dict(v.meta)
        n.shared = v.shared
        return n
    if isinstance(v, VObj):
        n = VObj(v.cls, {k: subst(x, pairs) for k, x in v.attrs.items()}, v.birth, v.tag)
        n.default_attr = v.default_attr
        n.shared = v.shared
        return n
    if isinstance(v, BoundMethod):
        return BoundMethod(v.func, subst(v.self_, pairs), v.cls)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, slice):
        return slice(*(subst(x, pairs) for x in (v.start, v.stop, v.step)))
    return v


def subst_seg(s, pairs):
    if isinstance(s, Conc):
        return Conc([subst(x, pairs) for x in s.items])
    bound = {d[0].get_id() for d in s.dims}
    ps = [p for p in pairs if p[0].get_id() not in bound]
    if not ps:
        return s
    # alpha-rename to avoid capture
    ren = []
    dims = []
    for var, hi in s.dims:
        nv = z3.Const(fresh_name("k"), var.sort())
        dims.append((nv, None if hi is None else z3.substitute(z3.substitute(hi, *ren) if ren else hi, *ps)))
        ren.append((var, nv))
    guard = z3.substitute(z3.substitute(s.guard, *ren), *ps)
    elem = subst(subst(s.elem, ren), ps)
    return Seg(dims, guard, elem)


def rename_seg(s, to=None):
    """Fresh copy of the bound variables; returns (dims, guard, elem)."""
    ren = []
    dims = []
    for n, (var, hi) in enumerate(s.dims):
        nv = (to[n] if to else None)
        if nv is None:
            nv = z3.Const(fresh_name("k"), var.sort())
        dims.append((nv, z3.substitute(hi, *ren) if (ren and hi is not None) else hi))
        ren.append((var, nv))
    return dims, z3.substitute(s.guard, *ren), (mark_shared(subst(s.elem, ren)) if ren else s.elem)


def mark_shared(v):
    """an instance of an element template: a mutation of it would not reach the collection it came from"""
    if isinstance(v, VList):
        if v.kind not in ("tuple",):
            v.shared = True
        for s in v.segs:
            if isinstance(s, Conc):
                for x in s.items:
                    mark_shared(x)
            else:
                mark_shared(s.elem)
    elif isinstance(v, VDict):
        v.shared = True
        for s in v.pairs:
            for x in s.items if isinstance(s, Conc) else [s.elem]:
                mark_shared(x)
    elif isinstance(v, VObj):
        if not v.shared:
            v.shared = True
            for x in v.attrs.values():
                mark_shared(x)
    elif isinstance(v, Choice):
        for _, x in v.alts:
            mark_shared(x)
    return v


class Effects(list):
    """log of mutations; mutating an element instance of a symbolic collection is outside the supported fragment"""

    def append(self, e):
        if getattr(e[1], "shared", False):
            raise Undecided("mutation of an element of a symbolic collection")
        list.append(self, e)


def snap(v, clock, memo=None):
    """value as it is now: containers created after `clock` are copied (their later undo must not reach the copy)"""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
        return type(v)(snap(x, clock, memo) for x in v)
    if type(v) is dict:
        return {k: snap(x, clock, memo) for k, x in v.items()}
    if isinstance(v, Choice):
        return Choice([(c, snap(x, clock, memo)) for c, x in v.alts])
    if isinstance(v, BoundMethod):
        return BoundMethod(v.func, snap(v.self_, clock, memo), v.cls)
    if not isinstance(v, (VList, VDict, VObj)) or not (v.birth > clock or (v.birth == 0 and isinstance(v, VList) and v.kind == "tuple")):
        return v
    if isinstance(v, VObj):
        n = VObj(v.cls, None, v.birth, v.tag)
        memo[id(v)] = n
        n.attrs = {k: snap(x, clock, memo) for k, x in v.attrs.items()}
        n.default_attr = v.default_attr
    elif isinstance(v, VDict):
        n = VDict(None, v.birth, v.default)
        memo[id(v)] = n
        n.pairs = [snap_seg(s, clock, memo) for s in v.pairs]
        n.meta = dict(v.meta)
    else:
        segs = [snap_seg(s, clock, memo) for s in v.segs]
        if v.birth == 0 and all(a is b for a, b in zip(segs, v.segs)):
            return v
        n = VList(segs, v.kind, v.birth, v.unordered, v.distinct)
        memo[id(v)] = n
        n.meta = dict(v.meta)
    n.shared = v.shared
    memo[("keep", id(v))] = v
    return n


def snap_seg(s, clock, memo):
    if isinstance(s, Conc):
        it = [snap(x, clock, memo) for x in s.items]
        return s if all(a is b for a, b in zip(it, s.items)) else Conc(it)
    e = snap(s.elem, clock, memo)
    return s if e is s.elem else Seg(s.dims, s.guard, e)


def dims_cond(dims):
    cs = [z3.And(v >= 0, v < hi) for v, hi in dims if hi is not None]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def free_consts(t, acc=None):
    """uninterpreted constants (arity 0) in z3 term"""
    if acc is None:
        acc = {}
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.get_id()] = x
            stack.extend(x.children())
    return acc


def value_terms(v, out=None):
    """all z3 terms occurring in a value"""
    if out is None:
        out = []
    if isinstance(v, (SNum, SBool, SObj)):
        out.append(v.t)
    elif isinstance(v, Choice):
        for c, x in v.alts:
            out.append(c)
            value_terms(x, out)
    elif isinstance(v, VList):
        for s in v.segs:
            if isinstance(s, Conc):
                for x in s.items:
                    value_terms(x, out)
            else:
                out.append(s.guard)
                out.extend(h for _, h in s.dims if h is not None)
                value_terms(s.elem, out)
    elif isinstance(v, VDict):
        value_terms(VList(v.pairs), out)
    elif isinstance(v, VObj):
        for x in v.attrs.values():
            value_terms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            value_terms(x, out)
    elif isinstance(v, slice):
        value_terms((v.start, v.stop, v.step), out)
    return out


def is_sym(v, depth=0):
    """does v contain anything symbolic?"""
    if isinstance(v, VList):
        return any(isinstance(s, Seg) or any(is_sym(x) for x in s.items) for s in v.segs)
    if isinstance(v, VDict):
        return any(isinstance(s, Seg) or any(is_sym(x) for x in s.items) for s in v.pairs)
    if isinstance(v, Sym):
        return True
    if isinstance(v, (list, tuple, set, frozenset)) and depth < 4:
        return any(is_sym(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 4:
        return any(is_sym(x, depth + 1) for x in v.values()) or any(is_sym(x, depth + 1) for x in v.keys())
    if isinstance(v, slice):
        return any(isinstance(x, Sym) for x in (v.start, v.stop, v.step))
    return False


def to_native(v):
    if isinstance(v, VList):
        items = [to_native(x) for x in v.items()]
        if v.kind == "tuple":
            return tuple(items)
        if v.kind == "set":
            return set(items)
        if v.kind == "frozenset":
            return frozenset(items)
        if v.kind == "ndarray":
            import numpy as np

            return np.array(items)
        if v.kind in ("gen", "iter"):
            return iter(items)
        return items
    if isinstance(v, VDict):
        return {to_native(p.items()[0]): to_native(p.items()[1]) for s in v.pairs for p in s.items}
    if isinstance(v, Sym):
        raise Undecided(f"symbolic value {v!r} passed to native code")
    if isinstance(v, tuple):
        return tuple(to_native(x) for x in v)
    return v
