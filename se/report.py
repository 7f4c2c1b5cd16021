"""Verdict, evidence file and VIOLATION / KNOWN-FINDING lines of one check."""
from __future__ import annotations

import hashlib
import json
import os
import sys

from . import explore as X

QUICK_BUDGET = 120.0
THOROUGH_BUDGET = 600.0


def check(prop, tier, seed, budget, jobs, only, verbose, keep_going):
    if budget is None:
        budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    r = X.explore(prop, tier, seed, budget, jobs, only, verbose, not keep_going)
    st = r["stats"]
    real, known = [], {}
    for v in r["violations"]:
        k = X.is_known(v)
        if k:
            known[k["id"]] = k
        elif v.get("confirmed") or X.confirm(v):
            real.append(v)
    per = r["scenarios"]
    complete = [n for n, d in per.items() if d.get("left", 0) == 0 and d.get("cut", 0) == 0]
    samples = []
    for n, d in per.items():
        samples.extend(d["samples"][:2])
    cov = {
        "states": sum(d.get("paths", 0) for d in per.values()),
        "transitions": sum(d.get("decisions", 0) for d in per.values()),
        "traces_validated_against_impl": sum(d.get("replays", 0) for d in per.values()),
        "samples": samples[:12] or [{"note": "no completed path"}],
        "what_states_mean": "states = symbolic paths executed through the instrumented code (each stands for "
                            "every input satisfying its path condition); transitions = branch decisions on "
                            "those paths; traces_validated = native replays of solver models",
        "functions_encoded": [f"{f}:{q}" for f, q in r["functions"]],
        "verdict_queries": st.verdict_queries,
        "verdicts_discharged": st.verdict_discharged,
        "z3_queries": st.z3_queries,
        "z3_unknown": st.z3_unknown,
        "solver_seconds": round(st.z3_time, 3),
        "interval_domain_decisions": st.domain_decisions,
        "forks": st.forks,
        "encoding_mismatches": sum(d.get("mismatch", 0) for d in per.values()),
        "spurious_counterexamples": sum(d.get("spurious", 0) for d in per.values()),
        "scenarios_total": len(r["specs"]),
        "scenarios_exhausted_within_bounds": len(complete),
        "scenarios": {
            n: {
                "paths": d.get("paths", 0), "ended_ok": d.get("ok", 0), "infeasible": d.get("infeasible", 0),
                "cut": d.get("cut", 0), "cut_reasons": d.get("cutreasons", {}),
                "max_decisions": d.get("maxdec", 0), "frontier_left": d.get("left", 0),
                "native_replays": d.get("replays", 0), "mismatches": d.get("mismatch", 0),
                "exhausted": n in complete,
                "covers": r["specs"][n].doc[:400] if n in r["specs"] else "",
            } for n, d in sorted(per.items())
        },
        "inconclusive": [e for d in per.values() for e in d["errors"]][:20],
        "crashes": r["crashes"],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": ASSUMPTIONS, "wall_s": round(r["wall"], 2), "violations": len(real),
    }
    os.makedirs(os.path.join(X.VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(X.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {cov['states']} paths, {cov['transitions']} decisions, "
          f"{st.verdict_queries} verdict queries ({st.verdict_discharged} discharged), "
          f"{st.z3_queries} z3 queries in {st.z3_time:.1f}s, {len(complete)}/{len(r['specs'])} scenarios exhausted, "
          f"{cov['traces_validated_against_impl']} native replays, {cov['encoding_mismatches']} mismatches, "
          f"{cov['spurious_counterexamples']} spurious, {r['wall']:.1f}s")
    if verbose:
        for n, d in sorted(per.items()):
            print(f"  {n:40s} paths={d.get('paths',0):6d} ok={d.get('ok',0):6d} inf={d.get('infeasible',0):5d} cut={d.get('cut',0):4d} "
                  f"exc={d.get('exc',0)} fail={d.get('failed',0)} left={d.get('left',0)} mm={d.get('mismatch',0)} sp={d.get('spurious',0)} "
                  f"t={d.get('time',0):.1f} {d.get('cutreasons') or ''}")
            for e in d["errors"][:3]:
                print("      ", str(e)[:600])
        for k, n in r["seenv"].items():
            print("  viol", n, k)
    for c in r["crashes"]:
        print("INCONCLUSIVE worker:", c)
    for d in [e for p in per.values() for e in p["errors"]][:3]:
        print("INCONCLUSIVE:", str(d)[:300])
    for k in X.known_findings():
        if k["property"] == prop and k.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if real:
        rd = os.path.join(X.VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in real[:20] if keep_going else real[:5]:
            h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(rd, f"{prop}-{h}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"  {v['scenario']}: {v['label']} [{v['how']}]")
            print(f"    inputs: {json.dumps(v['inputs'], default=str)[:700]}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    return 0


ASSUMPTIONS = [
    "symbolic characters range over U+0000-017F, U+0660-0669, U+2028-2029, U+3000, U+FEFF, U+FF10-FF19, U+1F600-1F60F "
    "(scenarios may narrow this or add lone surrogates)",
    "floats are multiples of 1/4; NaN and infinities only where a scenario says so",
    "string, list and dict sizes, document depth and query shapes are bounded per scenario",
    "models of re, json, codecs, copy, itertools, functools and str/int/list/dict methods are validated by native "
    "replay of every path's witness",
]
