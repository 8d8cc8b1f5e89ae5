"""Driver: python -m symx.run ID [quick|thorough] | --replay FILE"""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOEPY_REPO", "/repo")
for p in (ROOT, REPO):
    if p not in sys.path:
        sys.path.insert(0, p)
os.environ.setdefault("JAX_PLATFORMS", "cpu")


def load(pid):
    return importlib.import_module("checks." + pid.lower())


def known_entries(pid):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return {}
    es = json.load(open(f))["findings"]
    return {e["id"]: e for e in es if e["property"] == pid and e["status"] == "known"}


def _init():
    import warnings

    warnings.filterwarnings("ignore")
    import soepy  # noqa: F401
    import jax

    jax.config.update("jax_enable_x64", True)


def worker(a):
    pid, name, tier, seed, budget, end = a
    _init()
    from . import harness, jaxpr, smt

    for k in smt.STATS:
        smt.STATS[k] = 0.0 if k == "solver_s" else 0
    smt.CROSS["cvc5"] = tier == "thorough"
    jaxpr.TRACED.clear()
    mod = load(pid)
    case = next(c for c in mod.CASES if c.name == name)
    known = tuple(known_entries(pid))
    try:
        res = harness.run_case(case, known=known, seed=seed, deadline=min(time.time() + budget, end))
    except Exception:  # noqa: BLE001
        import traceback

        res = harness.Result(name)
        res.interface = "engine: " + traceback.format_exc()[-1500:]
    return res, dict(smt.STATS), dict(jaxpr.TRACED), dict(jaxpr.STATS)


def replay(pid, name, values, known=()):
    """Run one case concretely on the unpatched code (meant for a fresh process)."""
    _init()
    from . import harness

    mod = load(pid)
    case = next(c for c in mod.CASES if c.name == name)
    return harness.run_concrete(case, values, known)


def replay_proc(a):
    pid, name, values = a
    st, ctx, det = replay(pid, name, values, tuple(known_entries(pid)))
    return st, det


def main(argv):
    if argv[0] == "--replay":
        d = json.load(open(argv[1]))
        st, ctx, det = replay(d["property"], d["case"], d["values"])
        print("replay of %s case %s: %s" % (d["property"], d["case"], st))
        for x in det:
            print("   ", x if isinstance(x, str) else "%s: %s" % (x[0], x[1]))
        return 1 if st in ("violated", "raised") else 0
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2:]  # case names (debugging)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod_cases = _cases(pid)
    todo = [n for n, t, _ in mod_cases if (t == "quick" or tier == "thorough") and (not only or n in only)]
    w = {n: b for n, t, b in mod_cases}
    todo.sort(key=lambda n: -w.get(n, 0))
    budget = 240 if tier == "quick" else 1500
    end = t0 + (480 if tier == "quick" else 6000)
    jobs = [(pid, n, tier, seed, budget, end) for n in todo]
    ctx = mp.get_context("spawn")
    nproc = max(1, min(int(os.environ.get("VERIF_PROCS", "8")), len(jobs)))
    with ctx.Pool(nproc) as pool:
        results = pool.map(worker, jobs, chunksize=1)
    known = known_entries(pid)
    # replay of every candidate in a fresh process on unpatched code
    violations, unrepro, knowns = [], [], {}
    cand = []
    for res, _, _, _ in results:
        seen = set()
        for lab, vals, det in res.candidates:
            if lab not in seen:
                seen.add(lab)
                cand.append((res.case, lab, vals, det))
        for k, (lab, vals, det) in res.known.items():
            knowns.setdefault(k, (res.case, lab, vals, det))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    if cand:
        with ctx.Pool(min(8, len(cand))) as pool:
            outs = pool.map(replay_proc, [(pid, c[0], c[2]) for c in cand[:24]], chunksize=1)
        for (case, lab, vals, det), (st, d) in zip(cand[:24], outs):
            bad = st == "raised" or (st == "violated" and any(x[2] is None for x in d))
            if bad:
                new = [x for x in d if not isinstance(x, str) and x[2] is None]
                hit = [x for x in new if x[0] == lab] or new
                lab2, txt = (hit[0][0], hit[0][1]) if hit else (lab, d[0])
                f = os.path.join(ROOT, "replays", "%s-%s-%d.json" % (pid, case.replace("/", "_"), len(violations)))
                json.dump({"property": pid, "case": case, "label": lab2, "detail": txt, "values": vals}, open(f, "w"), indent=1)
                violations.append((case, lab2, txt, f))
            else:
                unrepro.append((case, lab, det))
    interface = [(r.case, r.interface) for r, _, _, _ in results if r.interface]
    reduced = [(r.case, x) for r, _, _, _ in results for x in r.reduced]
    mism = [(r.case, x) for r, _, _, _ in results for x in r.validation_mismatch]
    stats, traced, jst = {}, {}, {}
    for _, s, t, j in results:
        for k, v in s.items():
            stats[k] = stats.get(k, 0) + v
        traced.update(t)
        for k, v in j.items():
            jst[k] = jst.get(k, 0) + v
    missing = _cover_missing(pid, results, todo) if not only else []
    vac = [r.case for r, _, _, _ in results if r.paths and not r.witnesses and not r.error and not r.candidates]
    bounds = _bounds(pid, todo)
    tot = lambda a: sum(getattr(r, a) for r, _, _, _ in results)  # noqa: E731
    tot2 = lambda a: sum(len(set(getattr(r, a))) for r, _, _, _ in results)  # noqa: E731
    undecided = len(reduced)
    cov = {
        "explanation": (
            "Symbolic execution of the real code (jaxprs traced from /repo's current source; NumPy/pandas code run on "
            "symbolic arrays with exhaustive path exploration); obligations decided by normalisation to canonical form "
            "and by z3 (%s). Each case holds for all real inputs in its bounds over exact real arithmetic."
            % ("cross-checked with cvc5" if tier == "thorough" else "z3 only")),
        "cases": len(todo), "paths": tot("paths"), "paths_pruned_infeasible": tot("pruned"),
        "obligations": tot("obligations"), "discharged_canonical_form": tot("canonical"),
        "discharged_solver": tot("solver"), "canonical_obligations_in_batched_queries": stats.get("batched", 0), "discharged_within_1e-7": tot("within_slack"),
        "undecided_or_reduced": undecided,
        "reduced_details": [{"case": c, "label": x[0], "why": str(x[1])[:300], "slices": x[2]} for c, x in reduced[:30]],
        "reachability_witnesses": tot("witnesses"), "encoding_values_compared_with_real_code": tot("validated"),
        "encoding_mismatches": len(mism),
        "queries": stats.get("queries", 0), "queries_unsat": stats.get("unsat", 0), "queries_sat": stats.get("sat", 0),
        "queries_unknown": stats.get("unknown", 0), "solver_seconds": round(stats.get("solver_s", 0.0), 2),
        "feasibility_queries": stats.get("feasibility_queries", 0), "sweep_queries": stats.get("sweep_queries", 0),
        "cvc5_queries": stats.get("cvc5_queries", 0), "cvc5_unsat": stats.get("cvc5_unsat", 0),
        "functions_encoded": {k: v for k, v in sorted(traced.items())[:80]},
        "jax_traces": jst.get("traces", 0), "jaxpr_equations_executed": jst.get("eqns", 0),
        "bounds": bounds,
        "case_results": [
            {"case": r.case, "paths": r.paths, "obligations": r.obligations, "canonical": r.canonical,
             "solver": r.solver, "terms": r.maxterm, "seconds": round(r.wall, 1)} for r, _, _, _ in results],
        "samples": [{"case": r.case, "inputs": r.sample} for r, _, _, _ in results if r.sample][:3],
        "unreproduced_candidates": len(unrepro),
        "float_deviations_explained_by_rounding": tot2("rounding"),
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(violations),
          "assumptions": list(_module(pid).ASSUMPTIONS) + [
              "Real arithmetic: float rounding (and overflow) is outside the claim; constants equal up to relative 1e-12 are identified.",
              "exp, log and general powers are uninterpreted apart from the algebraic laws listed in DESIGN.md."]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d paths, %d obligations (%d canonical, %d solver), %d queries, %.1fs solver, %.1fs wall" % (
        pid, tier, len(todo), cov["paths"], cov["obligations"], cov["discharged_canonical_form"],
        cov["discharged_solver"], cov["queries"], cov["solver_seconds"], time.time() - t0))
    for k, (case, lab, vals, det) in knowns.items():
        print("KNOWN-FINDING: property=%s %s (%s; case %s, %s: %s)" % (pid, known[k]["what"], k, case, lab, det))
    for c, x in reduced[:10]:
        print("REDUCED-BOUND case=%s obligation=%s: %s; %d slices decided" % (c, x[0], str(x[1])[:300], x[2]))
    for c, x in mism[:5]:
        print("ENCODING-MISMATCH case=%s %s" % (c, x))
    if only or os.environ.get("VERIF_DEBUG"):
        for r, _, _, _ in results:
            print("   case %s: %d paths %d obligations %d canonical %d solver %d terms %.1fs (exec %.1fs)" % (
                r.case, r.paths, r.obligations, r.canonical, r.solver, r.maxterm, r.wall, r.exec_s))
            if getattr(r, "tb", None):
                print(r.tb)
    if violations:
        for case, lab, txt, f in violations[:10]:
            print("  case %s, obligation %s: %s" % (case, lab, txt))
        case, lab, txt, f = violations[0]
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    bad = []
    if interface:
        bad += ["case %s: %s" % x for x in interface]
    if unrepro:
        bad += ["counterexample did not reproduce: case %s %s %s" % x for x in unrepro]
    if mism:
        bad += ["encoding mismatch: %s %s" % x for x in mism[:3]]
    if vac:
        bad += ["vacuous case: " + x for x in vac]
    if missing:
        bad += ["cover point not reached: " + x for x in missing]
    if bad:
        for b in bad:
            print("ERROR " + b)
        return 2
    return 0


def _module(pid):
    _init()
    return load(pid)


def _cases(pid):
    m = _module(pid)
    return [(c.name, c.tier, c.budget) for c in m.CASES]


def _bounds(pid, todo):
    m = _module(pid)
    return {c.name: c.bounds for c in m.CASES if c.name in todo}


def _cover_missing(pid, results, todo):
    want = getattr(_module(pid), "COVERS", {})
    got = {r.case: r.covers for r, _, _, _ in results}
    out = []
    for case, labs in want.items():
        if case in got:
            out += ["%s/%s" % (case, x) for x in labs if x not in got[case]]
    return out


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
