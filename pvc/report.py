"""Verdict, replay files and evidence."""
import json
import os
import re

TRUSTED = [
    "pvc: the symbolic tensor semantics (stensor.py, shim.py), differentiation and normalisation rules (nf.py), harness",
    "z3 (SMT back end for index arithmetic, orderings and side conditions)",
    "floating-point arithmetic treated as exact real arithmetic; integers as mathematical integers",
    "laws of exp/log/pow/sqrt/tanh on their domains; linearity of finite sums",
    "torch operators and CPython behave as modelled (cross-checked by evaluating every contract on real torch)",
]


def known_findings(here):
    p = os.path.join(here, "known-findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def cname(r):
    c = ",".join(f"{k}={v}" for k, v in r["config"].items())
    return r["contract"] + (f" [{c}]" if c else "")


def report(a, seed, res, wall, here):
    prop = a.prop
    errors, viol, known, bounded, gone = [], [], [], [], []
    nobl = ndis = 0
    kf = [k for k in known_findings(here) if k["property"] == prop]
    backends = {}
    for r in res:
        nm = cname(r)
        if r.get("error"):
            errors.append((nm, r["error"]))
            continue
        bad = [o for o in r["obligations"] if not o["ok"]]
        good = [o for o in r["obligations"] if o["ok"]]
        cf = r["con"]["failures"] if r["con"] else []
        nobl += len(r["obligations"])
        ndis += len(good)
        for o in good:
            backends[o["backend"] or "nf"] = backends.get(o["backend"] or "nf", 0) + 1
        if r.get("gone"):
            gone.append({"contract": nm, "reason": r["unsupported"]})
            continue
        if r["unsupported"]:
            bounded.append({"contract": nm, "reason": r["unsupported"],
                            "bound": f"{r['con']['samples'] if r['con'] else 0} sampled executions"})
        k = next((k for k in kf if k["contract"] == r["contract"] and k.get("config") in (None, r["config"])), None)
        if k is not None:
            names = set(k["obligations"])
            f2 = [f for f in cf if f[1] not in names]
            b2 = [o for o in bad if o["name"] not in names]
            if (len(f2) < len(cf)) or (len(b2) < len(bad)):
                known.append((nm, k["what"]))
            cf, bad = f2, b2
        if bad or cf:
            viol.append((r, nm, bad, cf))
        elif not r["unsupported"] and not r["obligations"]:
            errors.append((nm, "no obligations generated (vacuous contract)"))
        elif not r["unsupported"] and r["paths"] == 0:
            errors.append((nm, "no feasible path (vacuous preconditions)"))
        elif r["con"] and r["con"]["samples"] == 0 and a.mode != "sym":
            errors.append((nm, f"no admissible concrete sample ({r['con']['rejected']} rejected)"))
    if a.v:
        for r in res:
            nm = cname(r)
            print(f"== {nm}: paths={r['paths']} obl={len(r['obligations'])} sym={r['sym_time']:.2f}s "
                  f"unsupported={r['unsupported']} con={(r['con'] or {}).get('samples')} "
                  f"{(r['con'] or {}).get('time', 0):.2f}s")
            for o in r["obligations"]:
                if not o["ok"] or a.v > 1:
                    print("   ", "ok " if o["ok"] else "BAD", o["name"], o["why"][:int(os.environ.get("PVC_WHY", "600"))])
            if r["con"]:
                for f in r["con"]["failures"]:
                    print("    CON", f[0], f[1], f[2])
            if r.get("error"):
                print(r["error"])
    for nm, w in known:
        print(f"KNOWN-FINDING: property={prop} {nm}: {w}")
    rc = 0
    vio_out = []
    here = os.environ.get("PVC_OUT", here)
    os.makedirs(os.path.join(here, "replay"), exist_ok=True)
    for n, (r, nm, bad, cf) in enumerate(viol):
        fn = re.sub(r"[^A-Za-z0-9]+", "_", f"{prop}_{nm}")[:100] + ".json"
        path = os.path.join("replay", fn)
        d = {"property": prop, "contract": r["contract"], "config": r["config"],
             "failed_obligations": [{"name": o["name"], "verifier_output": o["why"], "backend": o["backend"]} for o in bad],
             "concrete_failures": [{"seed": f[0], "obligation": f[1], "observed": f[2], "inputs": f[3]} for f in cf],
             "replay_cmd": f"/verif/replay_one {path}"}
        json.dump(d, open(os.path.join(here, path), "w"), indent=1, default=str)
        # an input on which a function behind the interface breaks its contract is none that fails the property itself
        found = bool(cf) and not r.get("internal")
        what = cf[0][1] + ": " + cf[0][2] if cf else bad[0]["name"]
        print(f"  {nm}: {what}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if found else " no-failing-input-found"))
        vio_out.append({"contract": nm, "replay": path, "failing_input": found})
        rc = 1
    if errors and rc == 0:
        for nm, e in errors:
            print(f"ERROR {nm}: {e}")
        rc = 2
    elif errors:
        for nm, e in errors:
            print(f"(error) {nm}: {e}")
    funcs = sorted(set(f for r in res for f in r["functions"]))
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof",
          "coverage": {
              "obligations": nobl, "discharged": ndis,
              "checker_cmd": f"/verif/run {prop} {a.tier}",
              "trusted_base": TRUSTED,
              "contracts": len(set(r["contract"] for r in res)), "contract_configurations": len(res),
              "functions_under_contract": funcs,
              "paths": sum(r["paths"] for r in res),
              "discharged_by": backends,
              "case_splits": sum(r["stats"].get("case_splits", 0) for r in res),
              "solver": {"z3_queries": sum(r["stats"].get("z3_queries", 0) for r in res),
                         "z3_time_s": round(sum(r["stats"].get("z3_time", 0) for r in res), 3),
                         "normaliser_time_s": round(sum(r["stats"].get("nf_time", 0) for r in res), 3)},
              "bounded_stand_ins": bounded, "contracts_without_subject": gone,
              "replay_executions_on_real_torch": sum((r["con"] or {}).get("samples", 0) for r in res),
              "replay_checks": sum((r["con"] or {}).get("checked", 0) for r in res),
          },
          "assumptions": sorted(set(x for r in res for x in r["assumptions"])) + TRUSTED,
          "wall_s": round(wall, 2), "violations": vio_out}
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(here, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {ndis}/{nobl} obligations discharged over {len(res)} contract configurations, "
          f"{len(funcs)} functions, {len(bounded)} bounded, " + (f"{len(gone)} without subject, " if gone else "") + f"{wall:.1f}s -> exit {rc}")
    return rc
