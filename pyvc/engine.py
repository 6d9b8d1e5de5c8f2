"""Path exploration, obligations, big-operator lemmas, solvers."""
from __future__ import annotations

import subprocess
import itertools
import tempfile
import time

import z3

from . import vals
from .linabs import Lin, has_quant
from .vals import *  # noqa: F403
from .vals import Effects, Conc, Seg, SNum, SBool, SObj, VList, VDict, VObj, Undecided, Infeasible, VRaise, fresh_name, free_consts, dims_cond

import os
FEAS_MS = int(os.environ.get("PYVC_FEAS_MS", "400"))
# solver effort is bounded by z3's deterministic resource counter (rlimit); the wall-clock timeout is only a
# generous backstop, so that verdicts do not depend on how fast (or how loaded) the machine is
FEAS_RL = 100_000
PROVE_RL = 40_000_000
PROVE_MS = int(os.environ.get("PYVC_PROVE_MS", "10000"))


class Ctx:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pending = []


class Obligation:
    def __init__(self, name, status, detail="", backend="z3", t=0.0, model=None):
        self.name, self.status, self.detail, self.backend, self.time, self.model = name, status, detail, backend, t, model


class Stop(Exception):
    """budget exhausted"""


class Engine:
    def __init__(self, budget=120.0):
        self.pc = []  # (formula, is_fact)
        self.axioms = []
        self.ctxs = []
        self.journal = []
        self.effects = Effects()
        self.reads = []
        self.clock = 1
        self.loopvars = []
        self.obligations = []
        self.sig = {}  # function name -> (decl, params, dims, guard, mono)
        self.sig_keys = {}
        self.trusted = set()
        self.inlined = set()
        self.used_contracts = set()
        self.t_end = time.time() + budget
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.covers = {}
        self.in_prove = False
        self.feas_memo = {}
        self.hint_idx = []
        self.pass_of = {}

    # ---------------------------------------------------------------- fresh symbols
    def fresh(self, name, sort):
        nm = fresh_name(name)
        if self.loopvars:
            f = z3.Function(nm, *[v.sort() for v in self.loopvars], sort)
            return f(*self.loopvars)
        return z3.Const(nm, sort)

    def real(self, name):
        return SNum(self.fresh(name, z3.RealSort()))

    def int(self, name):
        return SNum(self.fresh(name, z3.IntSort()))

    def bool(self, name):
        return SBool(self.fresh(name, z3.BoolSort()))

    def obj(self, kind, name):
        return SObj(kind, self.fresh(name, kind.sort))

    def tick(self):
        self.clock += 1
        return self.clock

    # ---------------------------------------------------------------- path condition
    def pcf(self):
        return [f for f, _ in self.pc]

    def assume(self, f):
        """precondition / branch fact"""
        f = f.t if isinstance(f, SBool) else f
        if isinstance(f, bool):
            if not f:
                raise Infeasible
            return
        self.pc.append((f, True))
        if self.loopvars:
            self._close_fact(f)

    def _close_fact(self, f):
        br = [g for g, fact in self.pc[self.loop_pc_mark:] if not fact]
        body = z3.Implies(z3.And(*br), f) if br else f
        vs = [v for v in self.loopvars if v.get_id() in free_consts(body)]
        self.axioms.append(z3.ForAll(vs, body) if vs else body)

    loop_pc_mark = 0

    def define(self, f):
        """definitional axiom for a freshly introduced symbol (closed over enclosing loop variables)"""
        vs = [v for v in self.loopvars if v.get_id() in free_consts(f)]
        self.axioms.append(z3.ForAll(vs, f) if vs else f)
        if vs:
            self.pc.append((f, True))

    def prof(self):
        return {"paths": self.paths, "queries": self.queries, "solver_s": round(self.solver_time, 1), "obligations": len(self.obligations)}

    def check_budget(self):
        if time.time() > self.t_end:
            raise Stop("time budget of the function exhausted")

    def reset_path(self):
        pass

    def feasible(self, extra):
        self.check_budget()
        ast = [*self.axioms, *self.pcf(), *extra]
        key = tuple(a.get_id() for a in ast)
        hit = self.feas_memo.get(key)
        if hit is not None:
            return hit[0]
        r = self._feasible(extra)
        self.feas_memo[key] = (r, ast)
        return r

    def _feasible(self, extra):
        s = z3.Solver()
        s.set("timeout", FEAS_MS * 5)
        s.set("rlimit", FEAS_RL)
        fs = self.axioms + self.pcf() + list(extra)
        s.add(*fs)
        s.add(*self.sigma_lemmas(fs, light=True))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r != z3.unsat

    def choose(self, options):
        """options: list of (value, z3cond).  Returns value of the taken option (forks the path)."""
        ctx = self.ctxs[-1]
        if ctx.pos < len(ctx.prefix):
            k = ctx.prefix[ctx.pos]
        else:
            feas = []
            for n, (_, c) in enumerate(options):
                c = z3.simplify(c)
                if z3.is_false(c):
                    continue
                if n == len(options) - 1 and not feas and len(options) > 1 and getattr(self, "_exh", False):
                    feas.append(n)
                    continue
                if z3.is_true(c) or self.feasible([c]):
                    feas.append(n)
            if not feas:
                raise Infeasible
            k = feas[0]
            if len(feas) == 1 and getattr(self, "_exh", False):
                k = -1 - k  # the other outcome is impossible here: a consequence, not a branch condition
            base = ctx.prefix[: ctx.pos]
            for o in feas[1:]:
                ctx.pending.append(base + [o])
            ctx.prefix = base + [k]
        ctx.pos += 1
        derived = k < 0
        val, c = options[-1 - k if derived else k]
        c = z3.simplify(c)
        if not z3.is_true(c):
            self.pc.append((c, derived))
        return val

    def branch(self, cond):
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._exh = True
        try:
            return self.choose([(True, cond), (False, z3.Not(cond))])
        finally:
            self._exh = False

    def explore(self, fn, on_path=None, limit=4000):
        """Run fn over all feasible paths (nested).  Returns [(branch conds, result)]"""
        pending = [[]]
        results = []
        top = not self.ctxs
        clock0 = self.clock
        if top:
            # every path re-executes from the same symbol counter, so that the common prefix of two paths builds
            # identical terms (memoised feasibility) and facts assumed on one path never reach another
            base = (len(self.axioms), dict(self.sig), dict(self.sig_keys), list(self.hint_idx), self.clock, vals.counter_value())
        while pending:
            self.check_budget()
            if top:
                del self.axioms[base[0]:]
                self.sig, self.sig_keys, self.hint_idx, self.clock = dict(base[1]), dict(base[2]), list(base[3]), base[4]
                vals.set_counter(base[5])
                self.reset_path()
            prefix = pending.pop()
            ctx = Ctx(prefix)
            self.ctxs.append(ctx)
            jm, pm, em = len(self.journal), len(self.pc), len(self.effects)
            ok = True
            try:
                r = fn()
                if not top:
                    r = vals.snap(r, clock0)
            except Infeasible:
                ok = False
            finally:
                self.ctxs.pop()
                br = [f for f, fact in self.pc[pm:] if not fact]
                self.undo(jm)
                del self.pc[pm:]
                del self.effects[em:]
            if ok:
                results.append((br, r))
                if len(results) > limit:
                    raise Undecided("too many paths")
            pending.extend(ctx.pending)
        return results

    # ---------------------------------------------------------------- state journal
    def undo(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    def record(self, undo):
        self.journal.append(undo)

    # ---------------------------------------------------------------- sigma terms
    VARLIKE = ("k!", "EL!")

    def _is_varlike(self, c):
        n = c.decl().name()
        return n.startswith(self.VARLIKE) or any(c.get_id() == v.get_id() for v in self.loopvars)

    def sigma(self, dims, guard, body):
        """Sum of If(guard, body, 0) over the index domain, normalised to a linear combination of atoms."""
        ids = {v.get_id() for v, _ in dims}

        def dep(t):
            return any(i in ids for i in free_consts(t))

        def prod(fs):
            fs = [f for f in fs if not (z3.is_rational_value(f) and f.as_fraction() == 1)]
            if not fs:
                return z3.RealVal(1)
            r = fs[0]
            for f in fs[1:]:
                r = r * f
            return r

        def factors(t):
            """flatten product into list of factors; x/y -> x, 1/y"""
            if z3.is_mul(t):
                out = []
                for c in t.children():
                    out += factors(c)
                return out
            if z3.is_div(t):
                a, b = t.children()
                out = factors(a)
                if z3.is_rational_value(b) and b.as_fraction() != 0:
                    return out + [z3.RealVal(1 / b.as_fraction())]
                for f in factors(b):
                    out.append(z3.RealVal(1) / f)
                return out
            if t.decl().kind() == z3.Z3_OP_UMINUS:
                return [z3.RealVal(-1)] + factors(t.children()[0])
            if t.decl().kind() == z3.Z3_OP_TO_REAL and not dep(t) and not z3.is_rational_value(t):
                return [t]
            return [t]

        total = []

        def add(coef, guard, t):
            t = t if t.is_real() else z3.ToReal(t)
            k = t.decl().kind()
            if z3.is_rational_value(t) and t.as_fraction() == 0:
                return
            if z3.is_add(t):
                for c in t.children():
                    add(coef, guard, c)
                return
            if k == z3.Z3_OP_SUB:
                ch = t.children()
                add(coef, guard, ch[0])
                for c in ch[1:]:
                    add(coef * -1, guard, c)
                return
            if k == z3.Z3_OP_TO_REAL and z3.is_app_of(t.children()[0], z3.Z3_OP_ITE):
                c, a, b = t.children()[0].children()
                return add(coef, guard, z3.If(c, z3.ToReal(a), z3.ToReal(b)))
            if k == z3.Z3_OP_ITE:
                c, a, b = t.children()
                add(coef, z3.And(guard, c), a)
                add(coef, z3.And(guard, z3.Not(c)), b)
                return
            fs = factors(t)
            if len(fs) > 1 or fs[0].get_id() != t.get_id():
                # an additive or ITE factor that depends on the index must be distributed
                for n, f in enumerate(fs):
                    if not dep(f):
                        continue
                    fk = f.decl().kind()
                    if fk == z3.Z3_OP_ITE:
                        c, a, b = f.children()
                        rest = prod(fs[:n] + fs[n + 1:])
                        add(coef, z3.And(guard, c), rest * a)
                        add(coef, z3.And(guard, z3.Not(c)), rest * b)
                        return
                    if z3.is_add(f) or fk == z3.Z3_OP_SUB:
                        rest = fs[:n] + fs[n + 1:]
                        ch = f.children()
                        for m, c in enumerate(ch):
                            s = -1 if (fk == z3.Z3_OP_SUB and m > 0) else 1
                            add(coef * s, guard, prod(rest + [c]))
                        return
            ind = [f for f in fs if not dep(f)]
            dp = [f for f in fs if dep(f)]
            dp.sort(key=lambda f: f.sexpr())
            total.append(coef * prod(ind) * self._sigma_atom(dims, z3.simplify(guard), prod(dp)))

        add(z3.RealVal(1), guard, body)
        if not total:
            return z3.RealVal(0)
        r = total[0]
        for x in total[1:]:
            r = r + x
        return z3.simplify(r)

    def _sigma_atom(self, dims, guard, mono):
        if z3.is_false(guard):
            return z3.RealVal(0)
        # strip guard parts that are independent of dims and constant handled by extensionality
        canon = []
        for n, (v, _) in enumerate(dims):
            canon.append((v, z3.Const(f"cv!{n}!{v.sort()}", v.sort())))
        his = [z3.substitute(h, *canon) if h is not None else None for _, h in dims]
        g = z3.substitute(guard, *canon)
        m = z3.substitute(mono, *canon)
        terms = [g, m] + [h for h in his if h is not None]
        fc = {}
        for t in terms:
            free_consts(t, fc)
        params = [c for c in fc.values() if self._is_varlike(c)]
        params.sort(key=lambda c: c.decl().name())
        pc = [(p, z3.Const(f"pv!{n}!{p.sort()}", p.sort())) for n, p in enumerate(params)]
        g2, m2 = (z3.substitute(g, *pc), z3.substitute(m, *pc)) if pc else (g, m)
        h2 = [z3.substitute(h, *pc) if (h is not None and pc) else h for h in his]
        key = (tuple(str(v.sort()) for v, _ in dims), tuple(h.sexpr() if h is not None else None for h in h2), g2.sexpr(), m2.sexpr())
        if key not in self.sig_keys:
            nm = fresh_name("Sigma")
            sorts = [p.sort() for p in params]
            decl = z3.Function(nm, *sorts, z3.RealSort()) if sorts else z3.Const(nm, z3.RealSort())
            self.sig_keys[key] = nm
            self.sig[nm] = (decl, [p for _, p in pc], [(c, h) for (_, c), h in zip(canon, h2)], g2, m2)
        nm = self.sig_keys[key]
        decl = self.sig[nm][0]
        return decl(*params) if params else decl

    def _sigma_apps(self, fs):
        """applications of sum symbols (memoised per formula)"""
        apps = {}
        for f in fs:
            k = f.get_id()
            hit = _APPS.get(k)
            if hit is None or not hit[0].eq(f):
                hit = (f, _collect_apps(f))
                if len(_APPS) > 50000:
                    _APPS.clear()
                _APPS[k] = hit
            for x in hit[1]:
                if x.decl().name() in self.sig:
                    apps[x.get_id()] = x
        return list(apps.values())

    def _sigma_inst(self, a):
        decl, params, dims, guard, mono = self.sig[a.decl().name()]
        sub = [(p, a.arg(n)) for n, p in enumerate(params)]
        sk = [(v, z3.Const(fresh_name("sk"), v.sort())) for v, _ in dims]
        S = lambda t: z3.substitute(t, *(sub + sk)) if sub + sk else t
        rng = [c for (v, h), (_, kv) in zip(dims, sk) if h is not None for c in (kv >= 0, kv < S(h))]
        hs = [z3.substitute(h, *sub) if (h is not None and sub) else h for _, h in dims]
        return (a, [kv for _, kv in sk], hs, z3.And(*rng) if rng else z3.BoolVal(True), S(guard), S(mono), dims, sub, guard, mono)

    def _pair_lemmas(self, a, b, out):
        """two sums over the same index sorts: equal, opposite or ordered unless their terms differ at a witness"""
        if [str(k.sort()) for k in a[1]] != [str(k.sort()) for k in b[1]]:
            return []
        sub = [(kb, ka) for ka, kb in zip(a[1], b[1])]
        rb, gb, mb = (z3.substitute(t, *sub) for t in b[3:6])
        rest = []

        def at():
            w = [(k, z3.Const(fresh_name("sk"), k.sort())) for k in a[1]]
            W = lambda t: z3.substitute(t, *w)
            f = [z3.If(z3.And(W(a[3]), W(a[4])), W(a[5]), z3.RealVal(0)), z3.If(z3.And(W(rb), W(gb)), W(mb), z3.RealVal(0))]
            rest.extend(f)
            return f

        # one witness serves the first three: a > b needs a term with fa > fb (hence fa != fb), a < b one with fa < fb
        fa, fb = at()
        out.append(z3.Or(fa != fb, a[0] == b[0]))
        out.append(z3.Or(fa > fb, a[0] <= b[0]))
        out.append(z3.Or(fa < fb, a[0] >= b[0]))
        fa, fb = at()
        out.append(z3.Or(fa != -fb, a[0] == -b[0]))
        return rest

    def sigma_lemmas(self, fs, light=False):
        if not self.sig:
            return []
        out = []
        apps = self._sigma_apps(fs)
        if not apps:
            return []
        known = {a.get_id() for a in apps}
        work = list(apps)
        inst = []
        rounds = 0
        while work and rounds < 3:
            rounds += 1
            new = []
            for a in work:
                decl, params, dims, guard, mono = self.sig[a.decl().name()]
                sub = [(p, a.arg(n)) for n, p in enumerate(params)]
                sk = []
                d2 = []
                for v, h in dims:
                    kv = z3.Const(fresh_name("sk"), v.sort())
                    sk.append((v, kv))
                g = z3.substitute(guard, *(sub + sk)) if sub + sk else guard
                m = z3.substitute(mono, *(sub + sk)) if sub + sk else mono
                rng = []
                for (v, h), (_, kv) in zip(dims, sk):
                    if h is not None:
                        hh = z3.substitute(h, *(sub + sk)) if sub + sk else h
                        rng.append(kv >= 0)
                        rng.append(kv < hh)
                rngc = z3.And(*rng) if rng else z3.BoolVal(True)
                hs = [z3.substitute(h, *sub) if (h is not None and sub) else h for _, h in dims]
                # sign lemmas
                out.append(z3.Or(z3.And(rngc, g, m < 0), a >= 0))
                out.append(z3.Or(z3.And(rngc, g, m > 0), a <= 0))
                # emptiness and strict positivity with existing members
                inst.append((a, [kv for _, kv in sk], hs, rngc, g, m, dims, sub, guard, mono))
                for x in self._sigma_apps([g, m]):
                    if x.get_id() not in known:
                        known.add(x.get_id())
                        new.append(x)
            work = new
        if not light:
            fresh_pairs = []
            for x in range(len(inst)):
                for y in range(x + 1, len(inst)):
                    fresh_pairs += self._pair_lemmas(inst[x], inst[y], out)
            # inner sums that only occur inside the pair lemmas (at their witnesses): one further round, argument by argument
            inner = {}
            for p in self._sigma_apps(fresh_pairs):
                if p.get_id() not in known:
                    known.add(p.get_id())
                    inner.setdefault(tuple(c.get_id() for c in p.children()), []).append(self._sigma_inst(p))
            for grp in inner.values():
                for x in range(len(grp)):
                    for y in range(x + 1, len(grp)):
                        self._pair_lemmas(grp[x], grp[y], out)
        # the same sum written with a parameter or with the constant itself
        same = {}
        for a, sk, hs, rngc, g, m, dims, sub, guard, mono in inst:
            S = lambda t: z3.simplify(z3.substitute(t, *sub)) if sub else z3.simplify(t)
            k = (tuple(str(v.sort()) for v, _ in dims), tuple(S(h).sexpr() if h is not None else None for h in hs), S(guard).sexpr(), S(mono).sexpr())
            if k in same:
                out.append(a == same[k])
            else:
                same[k] = a
        # member lemmas: sum of nonneg >= member
        for a, sk, hs, rngc, g, m, dims, sub, guard, mono in inst:
            if len(dims) != 1:
                continue
            for ix in [*self.hint_idx, *self.loopvars]:
                if ix.sort() == dims[0][0].sort():
                    s2 = sub + [(dims[0][0], ix)]
                    gi, mi = z3.substitute(guard, *s2), z3.substitute(mono, *s2)
                    r = []
                    if hs[0] is not None:
                        r = [ix >= 0, ix < hs[0]]
                    at = z3.If(z3.And(*r, gi), mi, z3.RealVal(0))
                    w = z3.Const(fresh_name("sk"), sk[0].sort())
                    s3 = [(sk[0], w)]
                    out.append(z3.Or(z3.And(z3.substitute(rngc, *s3), z3.substitute(g, *s3), z3.substitute(m, *s3) < 0), a >= at))
                    w = z3.Const(fresh_name("sk"), sk[0].sort())
                    s3 = [(sk[0], w)]
                    out.append(z3.Or(z3.And(z3.substitute(rngc, *s3), z3.substitute(g, *s3), z3.substitute(m, *s3) > 0), a <= at))
        return out

    hint_idx = []

    def _many_sums(self, fs):
        return len(self._sigma_apps(fs)) > 2

    def goal_lemmas(self, goal):
        """linear combinations of sums that a goal compares: if the combined term vanishes (is nowhere positive, negative)
        at an arbitrary index then so does the combination of the sums"""
        if not self.sig:
            return []
        out, seen, stack = [], set(), [goal]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT) and x.num_args() == 2 and z3.is_real(x.arg(0)):
                d = z3.simplify(x.arg(0) - x.arg(1), som=True)
                groups = {}
                for mono in d.children() if z3.is_add(d) else [d]:
                    fs = mono.children() if z3.is_mul(mono) else [mono]
                    fs = [g for f in fs for g in (f.children() if z3.is_mul(f) else [f])]
                    sg = [n for n, f in enumerate(fs) if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.decl().name() in self.sig]
                    if len(sg) != 1:
                        continue
                    a = self._sigma_inst(fs[sg[0]])
                    c = z3.RealVal(1)
                    for n, f in enumerate(fs):
                        if n != sg[0]:
                            c = c * f
                    groups.setdefault(tuple(str(k.sort()) for k in a[1]), []).append((c, a))
                for grp in groups.values():
                    if len(grp) < 2:
                        continue
                    w = [z3.Const(fresh_name("sk"), k.sort()) for k in grp[0][1][1]]
                    F = z3.RealVal(0)
                    S = z3.RealVal(0)
                    for c, a in grp:
                        W = lambda t: z3.substitute(t, *zip(a[1], w))
                        F = F + z3.If(z3.And(W(a[3]), W(a[4])), c * W(a[5]), z3.RealVal(0))
                        S = S + c * a[0]
                    out += [z3.Or(F != 0, S == 0), z3.Or(F > 0, S <= 0), z3.Or(F < 0, S >= 0)]
            stack.extend(x.children())
        return out

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, timeout=None):
        """Discharge PC & axioms => goal."""
        self.check_budget()
        if isinstance(goal, SBool):
            goal = goal.t
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        fs = self.axioms + self.pcf() + [z3.Not(goal)]
        backend = "z3"
        dt = 0.0
        comb = self.goal_lemmas(goal)
        r = None
        # weaker queries first (dropping facts and abstracting products keeps unsat sound): ground and linear; few sum lemmas; everything
        inst = self.instances(fs, goal)
        top = lambda f: z3.is_quantifier(f.arg(0) if z3.is_not(f) else f)
        na = len(self.axioms)
        gfs = [f for n, f in enumerate(fs[:-1]) if not has_quant(f) or (n >= na and not top(f))] + inst + fs[-1:]
        lemmas = {}

        def lemma(ground, few):
            k = (ground, few)
            if k not in lemmas:
                base = gfs if ground else fs
                lemmas[k] = comb + (self.sigma_lemmas(base + comb, light=few) if self.sig else [])
            return lemmas[k]
        passes = [(True, True, True, PROVE_RL // 40), (True, False, False, PROVE_RL // 20), (False, False, True, PROVE_RL // 3), (False, False, False, PROVE_RL)]
        first, wasted = self.pass_of.get(name, (None, 0.0))
        if first and wasted > 0.4:
            # the query that settled the same obligation on another path goes first
            passes.remove(first)
            passes.insert(0, first)
        whole = None
        for ps in passes:
            ground, lin, few, rl = ps
            if not ground and few and not comb or ground and not few and len(lemma(True, True)) == len(lemma(True, False)):
                continue
            q = (gfs if ground else fs + self.shifted) + lemma(ground, few)
            if lin:
                L = Lin()
                q = [L(f) for f in q]
            s = z3.Solver()
            s.set("timeout", 2000 if ground else (timeout or PROVE_MS) * 6)
            s.set("rlimit", rl)
            s.add(*q)
            t = time.time()
            r = s.check()
            t = time.time() - t
            dt += t
            self.solver_time += t
            self.queries += 1
            if r == z3.unsat:
                self.pass_of[name] = (ps, dt - t)
            if not ground and not lin and not few:
                whole = (r, s)
            if r == z3.unsat or r == z3.sat and not ground and not lin and not self.sig:
                break
        if r != z3.unsat and whole:
            r, s = whole
        if r == z3.unknown:
            r2, b2, d2 = self._cvc5(s)
            self.solver_time += d2
            dt += d2
            if r2 is not None:
                r, backend = r2, b2
        if r == z3.unsat:
            o = Obligation(name, "discharged", backend=backend, t=dt)
        elif r == z3.sat:
            try:
                m = s.model()
                det = str(m)[:3000]
            except z3.Z3Exception:
                det = "(cvc5 sat)"
            o = Obligation(name, "refuted", detail=det, backend=backend, t=dt)
        else:
            o = Obligation(name, "unknown", detail=s.reason_unknown() if backend == "z3" else "", backend=backend, t=dt)
        o.goal = str(z3.simplify(goal))[:600]
        self.obligations.append(o)
        return o.status == "discharged"

    def lemma(self, name, f):
        """an intermediate fact, used when it can be proved; its failure is not an alarm"""
        ok = self.prove(name, f)
        if ok:
            self.define(f)
        else:
            self.obligations.pop()
        return ok

    def instances(self, fs, goal):
        """universally quantified facts at the constants a goal mentions"""
        self.shifted = []  # instances at shifted positions, which no trigger finds
        by = {}
        consts = dict(free_consts(goal))
        for a in self._sigma_apps([goal]):
            _, params, dims, g, m = self.sig[a.decl().name()]
            skip = {p.get_id() for p in params} | {v.get_id() for v, _ in dims}
            for t in (g, m):
                consts.update({k: c for k, c in free_consts(t).items() if k not in skip})
        consts = {k: c for k, c in consts.items() if not (z3.is_app(c) and c.decl().name() in self.sig)}
        for c in consts.values():
            by.setdefault(str(c.sort()), []).append(c)
        for h in self.hint_idx:
            by.setdefault(str(h.sort()), []).append(h)
        out = []
        univ = []
        for f in fs:
            neg = z3.is_not(f)
            g = f.arg(0) if neg else f
            if not z3.is_quantifier(g) or g.is_lambda():
                continue
            if g.is_forall() != neg:
                univ.append((g, neg))
                continue
            # an existential fact: name its witness
            w = []
            for n in range(g.num_vars()):
                c = z3.Const(fresh_name("wit"), g.var_sort(n))
                w.append(c)
                by.setdefault(str(c.sort()), []).append(c)
            b = z3.substitute_vars(g.body(), *reversed(w))
            out.append(z3.Not(b) if neg else b)
        for srt, cs in by.items():
            by[srt] = list({c.get_id(): c for c in cs}.values())
        for f, neg in univ:
            if True:
                opts = [by.get(str(f.var_sort(n)), []) for n in range(f.num_vars())]
                if f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
                    offs = _offsets(f.body())
                    if 0 < len(offs) <= 2 and len(opts[0]) <= 6:
                        new = [z3.simplify(t - o) for t in opts[0] for o in offs]
                        for t in new:
                            b = z3.substitute_vars(f.body(), t)
                            self.shifted.append(z3.Not(b) if neg else b)
                        opts[0] = opts[0] + new
                tot = 1
                for o in opts:
                    tot *= len(o)
                if 0 < tot <= (9 if f.num_vars() > 1 else 18):
                    for t in itertools.product(*opts):
                        b = z3.substitute_vars(f.body(), *reversed(t))
                        out.append(z3.Not(b) if neg else b)
        return out

    def _cvc5(self, s):
        smt = "(set-logic ALL)\n" + s.to_smt2()
        smt = smt.replace("(set-info :status unknown)", "")
        t = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
            f.write(smt)
            f.flush()
            try:
                p = subprocess.run(["cvc5", "--rlimit=2000000", "--tlimit=60000", f.name], capture_output=True, text=True, timeout=70)
                o = p.stdout.strip().splitlines()
            except (subprocess.TimeoutExpired, FileNotFoundError):
                o = []
        dt = time.time() - t
        if o and o[0] == "unsat":
            return z3.unsat, "cvc5", dt
        return None, None, dt

    def cover(self, name):
        """Reachability (vacuity guard): record that the current path condition is not contradictory."""
        had = self.covers.get(name, [])
        if "sat" in had or len(had) > 4:
            return
        s = z3.Solver()
        s.set("timeout", 5000)
        s.set("rlimit", 5_000_000)
        s.add(*self.axioms)
        s.add(*self.pcf())
        r = s.check()
        self.covers.setdefault(name, []).append(str(r))

    def fail(self, name, detail=""):
        self.prove(name, z3.BoolVal(False))
        if detail:
            self.obligations[-1].detail = detail + "\n" + self.obligations[-1].detail


_APPS = {}


def _offsets(body):
    """terms c for which the body applies a function at (bound variable + c)"""
    out, seen, stack = {}, set(), [body]
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_add(t.arg(0)):
                ch = t.arg(0).children()
                rest = [c for c in ch if not z3.is_var(c)]
                if len(rest) == len(ch) - 1 and not any(_has_var(c) for c in rest):
                    c = z3.simplify(z3.Sum(*rest))
                    if not z3.is_int_value(c):
                        out[c.get_id()] = c
            stack += t.children()
    return list(out.values())


def _collect_apps(f):
    out, seen, stack = [], set(), [f]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            n = x.num_args()
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name().startswith("Sigma") and not _has_var(x):
                out.append(x)
            if n:
                stack.extend(x.children())
    return out


def _has_var(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            stack.extend(x.children())
    return False
