"""Driver: run all contracts of one property, in parallel, and report."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import time
import traceback

from . import engine as E
from . import ctx as cx, nf

# whole integrations need not converge for extreme inputs
NOEXTREME = {"C06", "C10", "C14", "C15", "C19"}
# plain functions with hard nonlinear goals: used in another configuration before on the real package only
NOPRIOR = {"C16"}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_contracts(prop=None):
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "c[0-9]*.py"))):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])


def work(arg):
    i, k, tier, seed, mode, end = arg
    c = E.REG[i]
    cfg = c.configs[k]
    out = {"contract": c.name, "config": cfg, "obligations": [], "paths": 0, "infeasible": 0,
           "unsupported": None, "functions": [], "sym_time": 0, "assumptions": [], "con": None}
    for d in (cx.STATS, nf.STATS):
        for q in d:
            d[q] = 0
    try:
        gone = E.absent(c.internal)
        if gone:
            out["unsupported"], out["gone"] = gone + ": no subject for the contract", True
            out["stats"] = {**cx.STATS, **nf.STATS}
            return out
        out["internal"] = bool(c.internal)
        if mode == "skip" or c.sym and mode != "con" and time.time() > end - 5:
            out["unsupported"] = "time budget of the check exhausted"
        elif c.sym and mode != "con":
            r = E.run_sym(c.fn, cfg, deadline=min(time.time() + (150 if tier == "quick" else 900), end),
                          prior=None if c.prop in NOPRIOR else c.prior(cfg))
            out.update(paths=r.paths, infeasible=r.infeasible, unsupported=r.unsupported,
                       functions=sorted(r.functions), sym_time=r.time, assumptions=r.assumptions,
                       timeout=getattr(r, "timeout", False))
            out["obligations"] = [dict(name=o.name, ok=o.ok, why=o.why, backend=o.backend, cases=o.cases,
                                       time=round(o.time, 4)) for o in r.obls]
        elif not c.sym:
            out["unsupported"] = "bounded by design: " + (c.expect or "")
        if mode != "sym":
            n = c.samples
            bad = [o for o in out["obligations"] if not o["ok"]]
            base = seed * 100000 + k * 1000
            if bad or (out["unsupported"] and c.sym):
                n = max(n * 8, 120)
            if tier == "thorough":
                n *= 5
            con = E.run_con(c.fn, cfg, range(base, base + n), limit=60 if tier == "quick" else 300, internal=bool(c.internal), prior=c.prior(cfg))
            if bad and not con["failures"] and not con.get("other") and not out["unsupported"] and c.sym and c.prop not in NOEXTREME:
                far = E.run_con(c.fn, cfg, range(E.EXTREME + base, E.EXTREME + base + 40), limit=30, internal=bool(c.internal), prior=c.prior(cfg))
                con["failures"] = far["failures"]
            if con.get("other"):
                out["unsupported"], out["gone"], out["obligations"] = con["other"] + ": no subject for the contract", True, []
            out["con"] = con
    except Exception:
        out["error"] = traceback.format_exc()
    out["stats"] = {**cx.STATS, **nf.STATS}
    return out


def _child(job, conn):
    try:
        conn.send(work(job))
    finally:
        conn.close()


def run_jobs(jobs, width, limit):
    """One process per job; a job that does not answer in time (or dies) is redone with sampling only."""
    ctxm = mp.get_context("fork")
    from multiprocessing.connection import wait
    todo = list(range(len(jobs)))[::-1]
    res, live, again = [None] * len(jobs), {}, set()
    while todo or live:
        while todo and len(live) < width:
            k = todo.pop()
            rd, wr = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(jobs[k], wr))
            p.start()
            wr.close()
            live[rd] = (k, p, time.time())
        for rd in wait(list(live), timeout=1.0):
            k, p, _ = live.pop(rd)
            try:
                res[k] = rd.recv()
            except (EOFError, OSError):
                res[k] = None
            p.join()
            if res[k] is None:
                _redo(jobs, res, k, again, todo, "the verifier process died")
        for rd in [r for r, (k, p, t) in live.items() if time.time() - t > limit]:
            k, p, _ = live.pop(rd)
            p.kill()
            p.join()
            _redo(jobs, res, k, again, todo, "time budget exhausted")
    return res


def _redo(jobs, res, k, again, todo, why):
    i, q, tier, seed, mode, end = jobs[k]
    if k in again or mode == "sym":
        c = E.REG[i]
        res[k] = {"contract": c.name, "config": c.configs[q], "obligations": [], "paths": 0, "infeasible": 0,
                  "unsupported": why, "functions": [], "sym_time": 0, "assumptions": [], "con": None,
                  "stats": {}, **({"error": why} if mode != "sym" else {})}
        return
    again.add(k)
    jobs[k] = (i, q, tier, seed, "skip", end)
    todo.append(k)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--mode", default="both")
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    load_contracts()
    if a.mode != "sym":
        E.con_modules()
    end = t0 + float(os.environ.get("PVC_BUDGET", 480 if a.tier == "quick" else 7200))
    jobs = [(i, k, a.tier, seed, a.mode, end) for i, c in enumerate(E.REG) if c.prop == a.prop and
            True for k in range(len(c.configs))
            if a.only is None or a.only in c.name + " [" + ",".join(f"{q}={v}" for q, v in c.configs[k].items()) + "]"]
    if not jobs:
        print("no contracts for", a.prop)
        return 2
    if a.j == 1:
        res = [work(j) for j in jobs]
    else:
        res = run_jobs(jobs, a.j, 230 if a.tier == "quick" else 1300)
    from . import report
    return report.report(a, seed, res, time.time() - t0, HERE)


if __name__ == "__main__":
    sys.exit(main())
