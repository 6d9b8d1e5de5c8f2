"""Shared machinery of the checks: registration of contracts and bounded cases, job runner, evidence."""
from __future__ import annotations

import contextlib
import importlib
import io
import json
import os
import pickle
import random
import re
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

CONTRACTS = []
CASES = []


class Skip(Exception):
    """case generated a trivial input"""


class Violation(AssertionError):
    pass


class Contract:
    def __init__(self, name, fn, targets, budget, tier, kind):
        self.name, self.fn, self.targets, self.budget, self.tier, self.kind = name, fn, targets, budget, tier, kind


class Case:
    def __init__(self, name, fn, quick, thorough, bound, timeout):
        self.name, self.fn, self.quick, self.thorough, self.bound, self.timeout = name, fn, quick, thorough, bound, timeout


def contract(name, targets=(), budget=100.0, tier="quick", kind="contract"):
    """register a contract: fn(E) builds the symbolic precondition, runs the real code and proves postconditions"""

    def deco(fn):
        CONTRACTS.append(Contract(name, fn, list(targets), budget, tier, kind))
        return fn

    return deco


def case(name, quick, thorough=None, bound="", timeout=100.0):
    """register a bounded case: fn(rng) runs the real code on a generated input and raises on a wrong result;
    returns a short description of the input (or raises Skip)"""

    def deco(fn):
        CASES.append(Case(name, fn, quick, thorough or quick * 8, bound, timeout))
        return fn

    return deco


def check(cond, msg="", *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def load(pid):
    CONTRACTS.clear()
    CASES.clear()
    found = False
    for pkg in ("specs", "harness"):
        if os.path.exists(os.path.join(VERIF, pkg, pid.lower() + ".py")):
            importlib.import_module(f"{pkg}.{pid.lower()}")
            found = True
    if not found:
        raise SystemExit(f"unknown property {pid}")
    mine = {f"{pkg}.{pid.lower()}" for pkg in ("specs", "harness")}
    CONTRACTS[:] = [c for c in CONTRACTS if c.fn.__module__ in mine]
    CASES[:] = [c for c in CASES if c.fn.__module__ in mine]


# ------------------------------------------------------------------------------------ jobs in child processes
def run_jobs(jobs, nproc=8):
    """jobs: list of (key, fn, timeout) -> {key: result or ('lost', why)}"""
    res = {}
    queue = list(jobs)
    running = {}
    tmp = tempfile.mkdtemp(prefix="verif_jobs_")
    try:
        while queue or running:
            while queue and len(running) < nproc:
                key, fn, timeout = queue.pop(0)
                path = os.path.join(tmp, f"{len(res)}_{len(running)}_{len(queue)}.pkl")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        devnull = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(devnull, 1)
                        if not os.environ.get("VERIF_DEBUG"):
                            os.dup2(devnull, 2)
                        import resource

                        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                        r = fn()
                        with open(path + ".part", "wb") as f:
                            pickle.dump(r, f)
                        os.rename(path + ".part", path)
                    except BaseException:  # noqa: BLE001
                        with contextlib.suppress(Exception), open(path + ".err", "w") as f:
                            f.write(traceback.format_exc())
                        code = 1
                    finally:
                        os._exit(code)
                running[pid] = (key, path, time.time() + timeout, timeout)
            time.sleep(0.02)
            for pid in list(running):
                key, path, end, timeout = running[pid]
                w, st = os.waitpid(pid, os.WNOHANG)
                if w == 0 and time.time() > end:
                    with contextlib.suppress(ProcessLookupError):
                        os.killpg(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    del running[pid]
                    res[key] = ("lost", f"time limit {timeout:.0f} s")
                elif w != 0:
                    del running[pid]
                    if os.path.exists(path):
                        with open(path, "rb") as f:
                            res[key] = pickle.load(f)
                    else:
                        why = f"exit status {st}"
                        with contextlib.suppress(FileNotFoundError), open(path + ".err") as f:
                            why += "\n" + f.read()[-3000:]
                        res[key] = ("lost", why)
    finally:
        for pid in running:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(pid, signal.SIGKILL)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return res


# ------------------------------------------------------------------------------------ proofs
def resolve_target(t):
    mod, _, qual = t.partition(":")
    o = importlib.import_module(mod)
    for p in qual.split("."):
        if isinstance(o, type):
            for k in o.__mro__:
                if p in k.__dict__:
                    o = k.__dict__[p]
                    break
            else:
                raise AttributeError(f"{t}: {p}")
        else:
            o = getattr(o, p)
    return o


def run_contract(c):
    from pyvc import vals
    from pyvc.domain import RxnExec
    from pyvc.engine import Stop

    t0 = time.time()
    E = RxnExec(budget=c.budget)
    out = {"name": c.name, "status": "ok", "detail": "", "targets": c.targets, "kind": c.kind}
    try:
        for t in c.targets:
            resolve_target(t)
        paths = [0]

        def spec():
            try:
                c.fn(E)
            except vals.VRaise as e:
                E.fail("no-exception", f"the code raises {e.exc!r} on this path")
            paths[0] += 1

        E.explore(spec)
        out["paths"] = paths[0]
    except (AttributeError, ImportError) as e:
        out["status"], out["detail"] = "undecided", f"target missing or changed: {e!r}"
        if os.environ.get("VERIF_DEBUG"):
            out["detail"] += " | " + " <- ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in reversed(traceback.extract_tb(sys.exc_info()[2])[-9:]))
    except vals.Undecided as e:
        out["status"], out["detail"] = "undecided", f"outside the verifier's subset: {e}"
        if os.environ.get("VERIF_DEBUG"):
            out["detail"] += " | " + " <- ".join(f"{os.path.basename(t.filename)}:{t.lineno}" for t in reversed(traceback.extract_tb(sys.exc_info()[2])[-9:]))
    except Stop as e:
        out["status"], out["detail"] = "undecided", str(e) + " " + str(E.prof())
    except Exception as e:  # noqa: BLE001
        out["status"], out["detail"] = "undecided", f"engine: {type(e).__name__}: {e} " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-8:])) + "\n" + "".join(traceback.format_exception(e))[-2500:]
    out["obligations"] = [
        {"name": f"{c.name} :: {o.name}", "status": o.status, "backend": o.backend, "time": o.time, "goal": getattr(o, "goal", ""), "detail": o.detail[:4000]}
        for o in E.obligations
    ]
    vac = [k for k, v in E.covers.items() if all(x == "unsat" for x in v)]
    if vac and out["status"] == "ok":
        out["status"], out["detail"] = "undecided", f"vacuous: {vac}"
    if out["status"] == "ok" and not E.obligations:
        out["status"], out["detail"] = "undecided", "no obligation generated"
    out.update(trusted=sorted(map(str, E.trusted)), inlined=sorted(map(str, E.inlined)), contracts=sorted(map(str, E.used_contracts)),
               solver_time=E.solver_time, queries=E.queries, wall=time.time() - t0, covers=E.covers)
    return out


# ------------------------------------------------------------------------------------ bounded cases
def is_compat_error(e):
    """the harness itself no longer fits the (renamed / re-signatured) API: not a verdict"""
    tb = traceback.extract_tb(e.__traceback__)
    if not tb:
        return False
    inner = tb[-1].filename
    if not inner.startswith(VERIF):
        return False
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        m = getattr(o, "__module__", None) or getattr(type(o), "__module__", "") or ""
        if type(o).__name__ == "module":
            m = o.__name__
        return str(m).startswith("rxn_network")
    if isinstance(e, TypeError):
        return bool(re.search(r"unexpected keyword argument|positional argument", str(e)))
    return False


def run_one(c, seed, i):
    rng = random.Random(f"{seed}/{c.name}/{i}")
    import numpy as np

    np.random.seed(rng.randrange(2**31))
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            s = c.fn(rng)
        return ("ok", str(s))
    except Skip:
        return ("skip", "")
    except Violation as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("violation", f"{e}\n(at {', '.join(f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb[-4:])})")
    except Exception as e:  # noqa: BLE001
        kind = "compat" if is_compat_error(e) else "violation"
        return (kind, f"unexpected {type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e))[-2500:])


def run_cases(c, seed, idx, t_end):
    out = {"n": 0, "skip": 0, "samples": [], "digests": set(), "violations": [], "compat": []}
    for i in idx:
        if time.time() > t_end:
            out["cut"] = True
            break
        kind, s = run_one(c, seed, i)
        out["n"] += 1
        if kind == "ok":
            out["digests"].add(hash_s(s))
            if len(out["samples"]) < 2:
                out["samples"].append(f"{c.name}[{i}]: {s[:300]}")
        elif kind == "skip":
            out["skip"] += 1
        elif kind == "compat":
            out["compat"].append(s)
            if len(out["compat"]) > 2:
                break
        else:
            out["violations"].append((i, s))
            if len(out["violations"]) >= 2:
                break
    return out


def hash_s(s):
    import hashlib

    return hashlib.md5(s.encode()).hexdigest()[:12]
