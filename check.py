#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] | check.py --replay FILE

1. generates and discharges the obligations of every contract of the property from /repo's current source (pyvc);
2. runs the bounded cases of the property on the real code (labelled bounded; also the counterexample replay);
3. writes /verif/evidence/<property>.json.
"""
import json
import logging
import os
import sys
import time
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/verif_numba_cache")
os.environ.setdefault("PMG_SUPPRESS", "1")
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(REPO, "src"), VERIF]
import vlib  # noqa: E402

sys.path.append(vlib.SITE)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    if args and args[0] == "--setup":
        import rxn_network, z3  # noqa: F401, E401

        print("setup ok", z3v())
        return 0
    pid = args[0]
    tier = "thorough" if "--tier" in args and args[args.index("--tier") + 1] == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = args[args.index("--only") + 1] if "--only" in args else None
    t0 = time.time()
    vlib.load(pid)
    import rxn_network

    assert os.path.abspath(rxn_network.__file__).startswith(os.path.join(REPO, "src")), rxn_network.__file__
    contracts = [c for c in vlib.CONTRACTS if tier == "thorough" or c.tier == "quick"]
    cases = list(vlib.CASES)
    if only:
        contracts = [c for c in contracts if only in c.name]
        cases = [c for c in cases if only in c.name]
    jobs = []
    for c in contracts:
        b = c.budget * (2 if tier == "thorough" else 1)
        c.budget = b
        jobs.append((("c", c.name), (lambda c=c: vlib.run_contract(c)), b * 1.3 + 30))
    NCH = 4
    for c in cases:
        n = c.quick if tier == "quick" else c.thorough
        lim = c.timeout * (1 if tier == "quick" else 5)
        for k in range(min(NCH, n)):
            idx = list(range(k, n, NCH))
            jobs.append((("b", c.name, k), (lambda c=c, idx=idx, lim=lim: vlib.run_cases(c, seed, idx, time.time() + lim)), lim + 60))
    jobs.sort(key=lambda j: -j[2])
    res = vlib.run_jobs(jobs)
    # ------------------------------------------------------------------ collect
    obl, undecided, funcs, inl, trusted, used = [], [], [], set(), set(), set()
    st = 0.0
    for c in contracts:
        r = res[("c", c.name)]
        if isinstance(r, tuple):
            undecided.append(f"{c.name}: {r[1]}")
            continue
        obl += r["obligations"]
        if r["status"] != "ok":
            undecided.append(f"{c.name}: {r['detail']}")
        funcs.append({"contract": c.name, "targets": c.targets, "kind": c.kind, "status": r["status"], "paths": r.get("paths", 0), "obligations": len(r["obligations"]),
                      "discharged": sum(o["status"] == "discharged" for o in r["obligations"]), "solver_s": round(r["solver_time"], 2), "queries": r["queries"], "covers": {k: v[:3] for k, v in r["covers"].items()}})
        inl |= set(r["inlined"])
        trusted |= set(r["trusted"])
        used |= set(r["contracts"])
        st += r["solver_time"]
    failed = [o for o in obl if o["status"] != "discharged"]
    viol, compat, samples, digests = [], [], [], set()
    nev = nskip = 0
    bounded = []
    for c in cases:
        n = s = 0
        cut = False
        dg = set()
        for key, r in res.items():
            if key[0] == "b" and key[1] == c.name:
                if isinstance(r, tuple):
                    undecided.append(f"bounded case {c.name}: {r[1]}")
                    continue
                n += r["n"]
                s += r["skip"]
                cut |= bool(r.get("cut"))
                dg |= r["digests"]
                samples += r["samples"][:1]
                viol += [(c.name, i, m) for i, m in r["violations"]]
                compat += [f"{c.name}: {x}" for x in r["compat"]]
        nev += n
        nskip += s
        digests |= dg
        bounded.append({"case": c.name, "bound": c.bound, "executions": n, "distinct": len(dg), "trivial": s, "cut_short": cut})
    wall = time.time() - t0
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    level = next((c["level"] for c in man["checks"] if c["property"] == pid), "other")
    disch = sum(o["status"] == "discharged" for o in obl)
    backends = {}
    for o in obl:
        if o["status"] == "discharged":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    nonover = next((c.get("level_note", "") for c in man["checks"] if c["property"] == pid), "")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len(obl), "discharged": disch,
            "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier}",
            "trusted_base": ["pyvc (the VC generator in /verif/pyvc)", "z3 " + z3v(), "cvc5 (fallback)"] + sorted(trusted),
            "explanation": f"{disch} of {len(obl)} obligations generated from the current source of {len(funcs)} contracts discharged ({backends}); in addition {nev} bounded executions of the real code (not counted as proved). {nonover}",
            "functions_under_contract": funcs, "functions_inlined_by_the_proofs": sorted(inl), "callee_contracts_used": sorted(used),
            "obligation_backends": backends, "solver_s": round(st, 2), "obligation_list": [o["name"] + " = " + o["status"] for o in obl][:400],
            "undecided": undecided, "harness_incompatible": compat[:5],
            "evaluations": nev, "distinct_nontrivial": len(digests),
            "rule": "bounded part: inputs generated from VERIF_SEED by the cases listed under 'bounded'; a case is non-trivial when its generator did not skip it, distinct by its printed description",
            "samples": samples[:12] or ["(no bounded case)"], "bounded": bounded,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(viol) + (1 if failed and not viol else 0),
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1)
    for k in known(pid):
        print(k)
    if os.environ.get("VERIF_DEBUG"):
        for f in funcs:
            r = res[("c", f["contract"])]
            print(f"   {f['contract']:50s} {f['status']:9s} paths {f['paths']:3d} obl {f['discharged']}/{f['obligations']} solver {f['solver_s']} wall {r['wall']:.1f} q {f['queries']} slow {sorted(((round(o['time'],1), o['name'][-40:]) for o in r['obligations']), reverse=True)[:2]}")
    for u in undecided + compat[:3]:
        print("UNDECIDED:", u[:1500].replace("\n", "\n    "))
    print(f"{pid}: obligations {disch}/{len(obl)} discharged, {len(undecided)} undecided items, {nev} bounded executions ({len(digests)} distinct), {wall:.1f} s")
    rc = 0
    rdir = os.path.join(EVID, "replay")
    if viol or failed:
        os.makedirs(rdir, exist_ok=True)
        for o in failed[:5]:
            print(f"  failed obligation {o['name']} ({o['status']}, {o['backend']}): {o['goal'][:300]}")
    if viol:
        viol.sort(key=lambda v: (v[0], v[1]))
        path = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "seed": seed, "cases": [{"case": n, "index": i, "what": m} for n, i, m in viol], "failed_obligations": failed}, open(path, "w"), indent=1)
        for n, i, m in viol[:3]:
            print(f"  {n}[{i}]: {m[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif failed:
        path = os.path.join(rdir, f"{pid}.json")
        json.dump({"property": pid, "seed": seed, "cases": [], "failed_obligations": failed}, open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        rc = 1
    return rc


def known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"finding: property={pid} "):
                out.append("KNOWN-FINDING: " + l.strip()[len("finding: "):])
    return out


def z3v():
    import z3

    return z3.get_version_string()


ASSUMPTIONS = [
    "proofs: Python/numpy floating point numbers are mathematical reals and integers are unbounded (rounding, overflow, nan and inf are not modelled)",
    "proofs: the pyvc engine (symbolic execution of the functions' current ASTs, loop summarisation rule) and its models of builtins, numpy, itertools and pymatgen listed in trusted_base are trusted",
    "proofs: pymatgen Composition is an opaque value with a non-negative amount per element, a reduced composition and a positive reduction factor",
    "bounded part: only the inputs executed are covered",
]


def replay(path):
    d = json.load(open(path))
    vlib.load(d["property"])
    rc = 0
    for c in d["cases"]:
        case = next(x for x in vlib.CASES if x.name == c["case"])
        kind, s = vlib.run_one(case, d["seed"], c["index"])
        print(c["case"], c["index"], kind, s)
        rc |= kind == "violation"
    for o in d["failed_obligations"]:
        print("failed obligation:", o["name"], o["status"], o["goal"], o["detail"][:1500])
    return int(rc)


if __name__ == "__main__":
    sys.exit(main())
