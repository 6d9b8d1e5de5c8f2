"""Replace products of non-constant terms by an uninterpreted function: a weaker, linear query (unsat carries over)."""
import z3

_R = z3.RealSort()
_I = z3.IntSort()
MULR = z3.Function("mul!r", _R, _R, _R)
MULI = z3.Function("mul!i", _I, _I, _I)
DIVR = z3.Function("div!r", _R, _R, _R)


def _num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t) or (z3.is_app_of(t, z3.Z3_OP_UMINUS) and _num(t.arg(0))) or (z3.is_app_of(t, z3.Z3_OP_TO_REAL) and _num(t.arg(0)))


_MEMO = {}


class Lin:
    def __init__(self):
        if len(_MEMO) > 400_000:
            _MEMO.clear()
        self.memo = _MEMO

    def __call__(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = self.go(t)
        self.memo[k] = (t, r)
        return r

    def go(self, t):
        if z3.is_quantifier(t):
            if t.is_lambda():
                return t
            vs = [z3.Const(f"lv!{t.var_name(n)}!{n}!{t.get_id()}", t.var_sort(n)) for n in range(t.num_vars())]
            b = self(z3.substitute_vars(t.body(), *reversed(vs)))
            pats = []
            for n in range(t.num_patterns()):
                p = t.pattern(n)
                pats.append(z3.MultiPattern(*[self(z3.substitute_vars(c, *reversed(vs))) for c in p.children()]))
            return (z3.ForAll if t.is_forall() else z3.Exists)(vs, b, patterns=pats)
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        cs = [self(c) for c in t.children()]
        kd = t.decl().kind()
        if kd == z3.Z3_OP_MUL:
            nums = [c for c in cs if _num(c)]
            rest = sorted((c for c in cs if not _num(c)), key=lambda c: c.get_id())
            if len(rest) > 1:
                f = MULR if z3.is_real(t) else MULI
                acc = rest[0]
                for c in rest[1:]:
                    acc = f(acc, c)
                for c in nums:
                    acc = c * acc
                return acc
        elif kd == z3.Z3_OP_DIV and not _num(cs[1]):
            return DIVR(cs[0], cs[1])
        if all(a.eq(b) for a, b in zip(cs, t.children())):
            return t
        if kd == z3.Z3_OP_AND:
            return z3.And(*cs)
        if kd == z3.Z3_OP_OR:
            return z3.Or(*cs)
        if kd == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        if kd == z3.Z3_OP_MUL:
            return z3.Product(cs)
        if kd == z3.Z3_OP_SUB and len(cs) > 2:
            r = cs[0]
            for c in cs[1:]:
                r = r - c
            return r
        if kd == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*cs)
        return t.decl()(*cs)


_HQ = {}


def has_quant(f):
    k = f.get_id()
    if k in _HQ and _HQ[k][0].eq(f):
        return _HQ[k][1]
    seen, stack, r = set(), [f], False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    if len(_HQ) > 20000:
        _HQ.clear()
    _HQ[k] = (f, r)
    return r
