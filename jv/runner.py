"""One property check: verify the contracts it rests on against /repo's current source, then its lemmas."""
from __future__ import annotations
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(pid, tier):
    t0 = time.time()
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from . import boot
    obls, facts = [], {}
    try:
        boot.load()
    except Exception as e:      # the package does not even import: nothing holds
        return finish(pid, tier, seed, t0, [], {}, None,
                      fatal={"obligation": "import astrodynx", "why": f"{type(e).__name__}: {e}",
                             "witness": {"kind": "import", "error": repr(e)}})
    sys.path.insert(0, VERIF)
    from . import contract as ct, smt
    import contracts      # noqa: F401  (fills the registry)
    import plan
    P = plan.PLAN[pid]
    S = ct.Session()
    S.fail_fast = True
    S.tier = tier
    budget = 600 if tier == "quick" else 6000
    done, todo = {}, [(n, False) for n in P.get("contracts", [])]
    watchdog(780 if tier == "quick" else 6 * 3600, pid, tier, seed, t0, obls, done, S)
    extra = list(P.get("extra", []))
    lemmas = list(P.get("lemmas", []))
    stop = False

    def failing():
        return [o for o in obls if o.status != "proved"]

    def over():
        return time.time() - t0 > budget

    while todo and not stop:
        n, callee = todo.pop(0)
        if n in done:
            continue
        c = ct.REGISTRY[n]
        tt = time.time()
        try:
            ob = c.verify(S, callee=callee)
        except Exception as e:
            o = ct.Obl(n, "-", "verify", "internal")
            o.status, o.why = "failed", f"verifier could not process the function: {type(e).__name__}: {str(e)[:500]}\n" + \
                traceback.format_exc(limit=-6)[-1500:]
            ob = [o]
        done[n] = (len(ob), time.time() - tt, callee)
        obls.extend(ob)
        todo.extend((x, True) for x in sorted(S.calls.get(n, ())) if x not in done)
        if any(o.witness for o in failing()) or (failing() and over()):
            stop = True
    for x in extra + lemmas:
        if stop:
            break
        tt = time.time()
        try:
            ob = list(x(S))
        except Exception as e:
            o = ct.Obl(getattr(x, "__name__", "lemma"), "-", "verify", "internal")
            o.status, o.why = "failed", f"{type(e).__name__}: {str(e)[:500]}\n" + traceback.format_exc(limit=-6)[-1500:]
            ob = [o]
        obls.extend(ob)
        done[getattr(x, "__name__", "lemma")] = (len(ob), time.time() - tt, False)
        for n, (k, dt) in getattr(S, "units", {}).items():
            done[n] = (k, dt, False)
        if any(o.witness for o in failing()):
            stop = True
    return finish(pid, tier, seed, t0, obls, done, S)


def watchdog(seconds, pid, tier, seed, t0, obls, done, S):
    """last resort: when real code under analysis never returns (or the verifier stalls), what is undecided is reported as such"""
    def late():
        try:
            finish(pid, tier, seed, t0, list(obls), dict(done), S,
                   fatal={"obligation": "time", "why": f"not decided within {seconds} s", "witness": None})
            sys.stdout.flush()
            for p in multiprocessing.active_children():
                p.kill()
        finally:
            os._exit(1)
    t = threading.Timer(seconds, late)
    t.daemon = True
    t.start()


TRUSTED = [
    "jax.make_jaxpr (the traced program is what eager and compiled jax execute) and XLA's translation of it",
    "the meaning given to each jax primitive in jv/extract.py",
    "jv/ring.py normal forms, jv/solve.py case splitting, jv/terms.py",
    "z3 (sign and entailment queries)",
    "sympy polynomial factorisation is used for hints only; every factorisation is re-multiplied",
]
ASSUMED = [
    "machine arithmetic treated as mathematical: float64 operations are the real operations they denote (rounding, overflow and cancellation are not modelled)",
    "float literals denote the nearest simple real constant (2 ulp)",
    "array shapes: the result is proved for the listed batch shapes; element-wise independence carries it to other sizes",
]


def finish(pid, tier, seed, t0, obls, done, S, fatal=None):
    from . import smt
    import plan
    P = plan.PLAN[pid]
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    bad = [o for o in obls if o.status != "proved"]
    if fatal and any(o.witness for o in bad):
        fatal = None
    viol = fatal is not None or bool(bad)
    backends = {}
    for o in obls:
        if o.status == "proved":
            backends[o.backend] = backends.get(o.backend, 0) + 1
    st = getattr(smt, "STATS", {})
    rt = [o for o in obls if o.kind == "runtime"]
    bnd = [o for o in obls if o.status == "proved" and str(o.backend).startswith("bounded")]
    proof = [o for o in obls if o.kind not in ("runtime", "vacuity") and o not in bnd]
    cov = {
        "obligations": len(proof),
        "discharged": len([o for o in proof if o.status == "proved"]),
        "checker_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier}",
        "trusted_base": TRUSTED + P.get("trusted", []),
        "functions_under_contract": sorted(n for n in done),
        "per_unit": {n: {"obligations": v[0], "seconds": round(v[1], 2), "role": "callee" if v[2] else "subject"}
                     for n, v in done.items()},
        "discharged_by": backends,
        "by_kind": {k: len([o for o in obls if o.kind == k]) for k in sorted({o.kind for o in obls})},
        "case_splits": S.cases if S else 0,
        "solver": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in dict(st).items()},
        "guards": {"runtime_conformance_points": sum(getattr(o, "count", 0) for o in rt),
                   "vacuity_guards": len([o for o in obls if o.kind == "vacuity"])},
        "bounded": P.get("bounded", []) + (S.bounded if S else []),
        "bounded_obligations": {"count": len(bnd), "names": [o.name for o in bnd][:60], "note": "checked on stated bounds only, not in `discharged`"},
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
           "assumptions": ASSUMED + P.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
           "violations": (1 if fatal else 0) + len(bad)}
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    for line in known(pid):
        print(line)
    if not viol:
        print(f"OK property={pid} obligations={cov['obligations']} discharged={cov['discharged']} "
              f"wall={doc['wall_s']}s")
        return 0
    if fatal is None:
        w = [o for o in bad if o.witness]
        o = (w or bad)[0]
        fatal = {"obligation": o.name, "why": o.why, "witness": o.witness}
        others = [x.name for x in bad if x is not o][:40]
    else:
        others = []
    path = os.path.join(ev, "replay", f"{pid}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "failed_obligation": fatal["obligation"], "verifier_output": fatal["why"],
                   "failing_input": fatal["witness"], "also_failed": others,
                   "how_to_replay": f"/opt/venv/bin/python {VERIF}/check.py {pid}"}, f, indent=1, default=str)
    print(f"failed obligation: {fatal['obligation']}: {str(fatal['why'])[:600]}")
    if fatal["witness"]:
        print("failing input:", json.dumps(fatal["witness"], default=str)[:800])
    print(f"VIOLATION property={pid} replay={path}" + ("" if fatal["witness"] else " no-failing-input-found"))
    return 1


def known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and f"property={pid} " in line:
                out.append("KNOWN-FINDING:" + line[len("finding:"):])
    return out
