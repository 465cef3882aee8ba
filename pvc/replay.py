"""Re-run one replay file: the failing seeds on the real package, then the failed obligations."""
import json
import sys

from . import main as M
from . import engine as E


def main():
    d = json.load(open(sys.argv[1]))
    M.load_contracts()
    c = next(c for c in E.REG if c.prop == d["property"] and c.name == d["contract"])
    bad = 0
    for f in d["concrete_failures"]:
        r = E.run_con(c.fn, d["config"], [f["seed"]], prior=c.prior(d["config"]))
        for x in r["failures"]:
            print("REAL CODE:", x[1], "|", x[2], "| inputs", str(x[3])[:2000])
            bad = 1
    if c.sym:
        r = E.run_sym(c.fn, d["config"], prior=None if c.prop in M.NOPRIOR else c.prior(d["config"]))
        for o in r.obls:
            if not o.ok:
                print("FAILED OBLIGATION:", o.name, "|", o.why[:2000])
                bad = 1
    if not bad:
        print("does not reproduce on the current tree")
    return bad


if __name__ == "__main__":
    sys.exit(main())
