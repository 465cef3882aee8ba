"""Verification context: declarations, hypotheses, and the SMT back end."""
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import T, Unsupported

STATS = {"z3_queries": 0, "z3_time": 0.0, "z3_cached": 0}


class Ctx:
    """One symbolic execution path."""

    def __init__(self):
        self.decl = {}       # app name -> dict(facts=callable(term)->[T], pos=bool,...)
        self.varfacts = {}   # iv -> list of T
        self.pairfacts = []  # (name, fn(t1,t2)->[T])
        self.hyps = []
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.decisions = []
        self.cache = {}
        self.log = []
        self.guards = []     # loop bodies being verified: (storage serial, covered storages)
        self.loops = {}      # site -> loop contract

    # -- declarations
    warm = None      # decisions left for an earlier call (history.py)
    depth = 0        # nesting of method calls

    def new_var(self, prefix, n=None, lo=0):
        v = tm.fresh_ivar(prefix)
        if n is not None:
            self.varfacts[v] = [tm.ile(tm.I(lo), v), tm.ilt(v, n)]
        return v

    def assume(self, t):
        if t is tm.TRUE:
            return
        if t.op == "and":
            for x in t.args:
                self.assume(x)
            return
        if t not in self.hyps:
            self.hyps.append(t)
            self.cache = {}
            if t.op == "ieq0":
                pass

    # -- queries
    def implied(self, c, extra=()):
        """True / False / None.  Is c (or its negation) entailed?"""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        key = (c, tuple(extra))
        if key in self.cache:
            STATS["z3_cached"] += 1
            return self.cache[key]
        r = None
        if self.check([tm.bnot(c), *extra]) == "unsat":
            r = True
        elif self.check([c, *extra]) == "unsat":
            r = False
        self.cache[key] = r
        return r

    def entails(self, c, extra=(), timeout=3000):
        if c is tm.TRUE:
            return True
        key = ("e", c, tuple(extra))
        if key in self.cache:
            return self.cache[key]
        r = self.check([tm.bnot(c), *extra], timeout) == "unsat"
        self.cache[key] = r
        return r

    def check(self, conds, timeout=3000, model=False):
        enc = Enc(self)
        s = z3.Solver()
        s.set("rlimit", timeout * 20000)      # deterministic; the wall clock is only a backstop
        s.set("timeout", timeout * 8)
        cs = list(self.hyps) + [c for c in conds]
        # relevance: only int hyps when the query is purely integer
        onlyint = all(_pure_int(c) for c in conds)
        for c in cs:
            if onlyint and not _pure_int(c):
                continue
            s.add(enc.b(c))
        enc.flush(s)
        t0 = time.time()
        r = s.check()
        STATS["z3_queries"] += 1
        STATS["z3_time"] += time.time() - t0
        rs = str(r)
        if model:
            return rs, (s.model() if rs == "sat" else None), enc
        return rs

    # -- forking
    def choose(self, label):
        """Both outcomes are explored, on separate paths."""
        if self.warm is not None:
            return True
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.pending.append(self.decisions + [False])
        self.pos += 1
        self.decisions = self.decisions + [v]
        self.log.append((label, v))
        return v

    def decide(self, c):
        """Truth value of c on this path; forks when undetermined."""
        if self.warm is not None:
            self.warm -= 1
            if self.warm < 0:
                from .history import Enough
                raise Enough()
        r = self.implied(c)
        if r is not None:
            return r
        if self.warm is not None:
            self.assume(c)
            return True
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.pending.append(self.decisions + [False])
        self.pos += 1
        self.decisions = self.decisions + [v]
        self.assume(c if v else tm.bnot(c))
        self.log.append((c, v))
        return v


_pi_cache = {}


def _pure_int(t):
    r = _pi_cache.get(t)
    if r is None:
        if t.sort == "R" or t.op in ("rgt0", "req0"):
            r = False
        else:
            r = all(_pure_int(c) for c in tm.children(t))
        _pi_cache[t] = r
    return r


class Enc:
    """Encoder of terms into z3, with axioms for the encountered terms."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cache = {}
        self.ax = []
        self.factq = []
        self.seenfact = set()
        self.apps = {}
        self.n = 0
        self.logs, self.exps, self.logm = [], [], []
        self.pows = {}

    def fresh(self, sort):
        self.n += 1
        return (z3.Real if sort == "R" else z3.Int if sort == "I" else z3.Bool)(f"aux!{self.n}")

    def flush(self, s):
        """Add axioms and facts for everything seen (to a fixpoint, depth-limited)."""
        rounds = 0
        while (self.ax or self.factq) and rounds < 6:
            ax, self.ax = self.ax, []
            for a in ax:
                s.add(a)
            fq, self.factq = self.factq, []
            for f in fq:
                if f not in self.seenfact:
                    self.seenfact.add(f)
                    s.add(self.b(f))
            rounds += 1
        for a in self.ax:
            s.add(a)

    def pw(self, e, k):
        """2 ** (e - k)."""
        f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        x = self.i(e)
        r = f(x)
        if e not in self.pows:
            self.pows[e] = (x, r)
            self.ax.append(z3.Implies(x >= 0, r >= x + 1))
            self.ax.append(z3.Implies(x == 0, r == 1))
            self.ax.append(z3.Implies(x >= 1, r == 2 * f(x - 1)))
            self.ax.append(z3.Implies(x >= 0, f(x + 1) == 2 * r))
            es = list(self.pows)
            for e1 in es:
                for e2 in es:
                    d = tm.isub(e1, e2)
                    if d in self.pows and e in (e1, e2, d):
                        y, z = self.pows[e2], self.pows[d]
                        self.ax.append(z3.Implies(z3.And(y[0] >= 0, z[0] >= 0), self.pows[e1][1] == y[1] * z[1]))
        for q in range(1, k + 1):
            self.ax.append(z3.Implies(x >= q, f(x - q + 1) == 2 * f(x - q)))
        return f(x - k) if k else r

    def b(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o == "true":
            r = z3.BoolVal(True)
        elif o == "false":
            r = z3.BoolVal(False)
        elif o == "ilt0":
            r = self.i(a[0]) < 0
        elif o == "ieq0":
            r = self.i(a[0]) == 0
        elif o == "rgt0":
            r = self.r(a[0]) > 0
            self.loglin(a[0])
        elif o == "req0":
            r = self.r(a[0]) == 0
        elif o == "not":
            r = z3.Not(self.b(a[0]))
        elif o == "and":
            r = z3.And(*[self.b(x) for x in a])
        elif o == "or":
            r = z3.Or(*[self.b(x) for x in a])
        elif o == "bu":
            f = z3.Function("b_" + a[0], *([z3.IntSort()] * len(a[1])), z3.BoolSort())
            r = f(*[self.i(x) for x in a[1]]) if a[1] else z3.Bool("b_" + a[0])
        elif o == "forall":
            # quantified, with the real z3 quantifier
            l, n, body = a
            v = tm.ivar(f"q!{t.id}")
            bd = tm.subst(body, {tm.bv(l): v})
            sub = Enc(self.ctx)
            zb = sub.b(bd)
            ax = [zb_ for zb_ in sub.ax]
            if ax or any(tm.fv(f) & {v} for f in sub.factq):
                # axioms mentioning the bound variable: keep them inside (sound: they are
                # valid facts, so conjoining them under the quantifier as hypotheses)
                facts = [sub.b(f) for f in sub.factq]
                zv = z3.Int(str(v.args[0]))
                r = z3.ForAll([zv], z3.Implies(z3.And(0 <= zv, zv < self.i(n), *ax, *facts), zb))
                if ax:
                    # fresh aux constants cannot be used under a quantifier
                    r = self.fresh("B")
            else:
                zv = z3.Int(str(v.args[0]))
                r = z3.ForAll([zv], z3.Implies(z3.And(0 <= zv, zv < self.i(n)), zb))
        else:
            raise Unsupported(f"encode bool {o}")
        self.cache[t] = r
        return r

    def i(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o in ("iv", "bv"):
            r = z3.Int(str(a[0]) if o == "iv" else f"κ{a[0]}")
            for f in self.ctx.varfacts.get(t, ()):
                self.factq.append(f)
        elif o == "ip":
            r = z3.IntVal(a[0])
            for m, c in a[1]:
                if isinstance(c, Fraction) and c.denominator != 1:
                    # fraction times a power of two: lower the exponent
                    k = c.denominator.bit_length() - 1
                    x = z3.IntVal(c.numerator)
                    for at in m:
                        if k and at.op == "ipow2":
                            x = x * self.pw(at.args[0], k)
                            k = 0
                        else:
                            x = x * self.i(at)
                    if k:
                        raise Unsupported("fractional integer")
                else:
                    x = z3.IntVal(int(c))
                    for at in m:
                        x = x * self.i(at)
                r = r + x
        elif o == "ipow2":
            r = self.pw(a[0], 0)
        elif o in ("idiv", "imod"):
            x, d = self.i(a[0]), self.i(a[1])
            k = ("dm", a[0], a[1])
            if k not in self.cache:
                q, m = self.fresh("I"), self.fresh("I")
                self.ax.append(z3.Implies(d > 0, z3.And(x == d * q + m, 0 <= m, m < d)))
                self.cache[k] = (q, m)
            r = self.cache[k][0 if o == "idiv" else 1]
        elif o == "iite":
            r = z3.If(self.b(a[0]), self.i(a[1]), self.i(a[2]))
        elif o == "iu":
            f = z3.Function("i_" + a[0], *([z3.IntSort()] * len(a[1])), z3.IntSort())
            r = f(*[self.i(x) for x in a[1]]) if a[1] else z3.Int("i_" + a[0])
            d = self.ctx.decl.get(a[0])
            if d and d.get("facts"):
                self.factq.extend(d["facts"](t))
        elif o == "isum":
            r = self.fresh("I")
            l, n, body = a
            if body.op == "iite" and tm.iconst(body.args[1]) == 1 and tm.iconst(body.args[2]) == 0:
                self.ax.append(z3.And(r >= 0, r <= self.i(n)))
            hook = self.ctx.decl.get("#isum")
            if hook:
                self.factq.extend(hook(t))
        elif o == "floor":
            x = self.r(a[0])
            r = z3.ToInt(x)
        else:
            raise Unsupported(f"encode int {o}")
        self.cache[t] = r
        return r

    def loglin(self, p):
        """A comparison of two products of powers: the logarithms compare the same way."""
        if p.op != "add" or len(p.args) != 2:
            return
        ts = []
        for x in p.args:
            c, fs = Fraction(1), []
            for f in (x.args if x.op == "mul" else (x,)):
                k = tm.rconst(f)
                if k is not None:
                    c *= k
                else:
                    fs.append(f)
            ts.append((c, fs))
        (c1, f1), (c2, f2) = ts
        if c1 < 0:
            c1, f1, c2, f2 = c2, f2, c1, f1
        if not (c1 > 0 > c2) or not any(f.op in ("pow", "exp") for f in f1 + f2):
            return
        g = []
        l1 = self.lgsum([tm.R(c1)] + f1, g)
        l2 = self.lgsum([tm.R(-c2)] + f2, g)
        self.ax.append(z3.Implies(z3.And(*g), z3.And((self.r(p) > 0) == (l1 > l2), (self.r(p) == 0) == (l1 == l2))))

    def lgsum(self, fs, g):
        r = z3.RealVal(0)
        for f in fs:
            r = r + self.lg(f, g)
        return r

    def lg(self, t, g):
        """log t, expanded over products, powers and exponentials; positivity needed goes to g."""
        o, a = t.op, t.args
        if o == "exp":
            return self.r(a[0])
        if o == "mul":
            return self.lgsum(a, g)
        if o == "div":
            return self.lg(a[0], g) - self.lg(a[1], g)
        if o == "pow":
            return self.r(a[1]) * self.lg(a[0], g)
        if t is tm.ONE:
            return z3.RealVal(0)
        g.append(self.r(t) > 0)
        return self.lgatom(t)

    def lgatom(self, t):
        k = ("lg", t)
        if k in self.cache:
            return self.cache[k]
        x, r = self.r(t), self.fresh("R")
        self.ax.append(z3.Implies(x > 1, r > 0))
        self.ax.append(z3.Implies(z3.And(x > 0, x < 1), r < 0))
        self.ax.append(z3.Implies(x == 1, r == 0))
        for x2, r2 in self.logs:
            self.ax.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And((x < x2) == (r < r2), (x == x2) == (r == r2))))
        self.logs.append((x, r))
        self.cache[k] = r
        return r

    def r(self, t):
        r = self.cache.get(t)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o == "rc":
            r = z3.RealVal(f"{a[0].numerator}/{a[0].denominator}")
        elif o == "fromint":
            r = z3.ToReal(self.i(a[0]))
        elif o == "u":
            name, idx, args = a
            sorts = [z3.IntSort()] * len(idx) + [z3.RealSort()] * len(args)
            if sorts:
                f = z3.Function(name, *sorts, z3.RealSort())
                r = f(*[self.i(x) for x in idx], *[self.r(x) for x in args])
            else:
                r = z3.Real(name)
            d = self.ctx.decl.get(name)
            if d:
                if d.get("facts"):
                    self.factq.extend(d["facts"](t))
                if d.get("pair"):
                    for o2 in self.apps.get(name, ()):
                        self.factq.extend(d["pair"](t, o2))
                    self.apps.setdefault(name, []).append(t)
        elif o == "add":
            r = z3.Sum([self.r(x) for x in a])
        elif o == "mul":
            r = self.r(a[0])
            for x in a[1:]:
                r = r * self.r(x)
        elif o == "div":
            p, q = self.r(a[0]), self.r(a[1])
            r = self.fresh("R")
            self.ax.append(z3.Implies(q != 0, r * q == p))
            # sign consequences, so the solver needs no nonlinear search
            self.ax.append(z3.Implies(z3.And(q > 0, p > 0), r > 0))
            self.ax.append(z3.Implies(z3.And(q > 0, p >= 0), r >= 0))
            self.ax.append(z3.Implies(z3.And(q > 0, p < 0), r < 0))
            self.ax.append(z3.Implies(z3.And(q < 0, p > 0), r < 0))
            self.ax.append(z3.Implies(z3.And(q < 0, p < 0), r > 0))
        elif o == "pow":
            bb, e = self.r(a[0]), self.r(a[1])
            k = tm.rconst(a[1])
            r = self.fresh("R")
            if k is not None and k.denominator == 1 and 0 < k <= 8:
                x = bb
                for _ in range(int(k) - 1):
                    x = x * bb
                self.ax.append(r == x)
            else:
                self.ax.append(z3.Implies(bb > 0, r > 0))
                self.ax.append(z3.Implies(bb >= 0, r >= 0))
                self.ax.append(z3.Implies(z3.And(bb > 1, e > 0), r > 1))
                self.ax.append(z3.Implies(z3.And(bb > 0, bb < 1, e > 0), r < 1))
                self.ax.append(z3.Implies(z3.And(bb > 1, e < 0), r < 1))
                self.ax.append(z3.Implies(z3.And(bb > 0, bb < 1, e < 0), r > 1))
                self.ax.append(z3.Implies(z3.And(bb == 0, e > 0), r == 0))
                self.ax.append(z3.Implies(e == 0, r == 1))
                self.ax.append(z3.Implies(bb == 1, r == 1))
                kb = tm.rconst(a[0])
                if kb is not None and kb > 1 and kb.denominator == 1:
                    # strictly increasing in the exponent: compared at whole exponents
                    for q in range(-12, 13):
                        v = Fraction(kb) ** q
                        v = z3.RealVal(f"{v.numerator}/{v.denominator}")
                        self.ax.append(z3.And(z3.Implies(e >= q, r >= v), z3.Implies(e <= q, r <= v)))
        elif o == "exp":
            x = self.r(a[0])
            r = self.fresh("R")
            self.ax.append(r > 0)
            self.ax.append(z3.Implies(x > 0, r > 1))
            self.ax.append(z3.Implies(x < 0, r < 1))
            self.ax.append(z3.Implies(x == 0, r == 1))
            for x2, r2 in self.exps:
                self.ax.append(z3.And((x < x2) == (r < r2), (x == x2) == (r == r2)))
            self.exps.append((x, r))
        elif o == "log":
            g = []
            r = self.lg(a[0], g) if a[0].op != "exp" else self.r(a[0].args[0])
            if len(g) != 1 or a[0].op in ("mul", "div", "pow"):
                e = r
                r = self.fresh("R")
                self.ax.append(z3.Implies(z3.And(*g), r == e))
            x = self.r(a[0])
            self.ax.append(z3.Implies(x > 0, z3.And((x > 1) == (r > 0), (x == 1) == (r == 0))))
            for x2, r2 in self.logm:
                self.ax.append(z3.Implies(z3.And(x > 0, x2 > 0), z3.And((x < x2) == (r < r2), (x == x2) == (r == r2))))
            self.logm.append((x, r))
        elif o == "tanh":
            x = self.r(a[0])
            r = self.fresh("R")
            self.ax.append(z3.And(r > -1, r < 1))
            self.ax.append(z3.Implies(x > 0, r > 0))
            self.ax.append(z3.Implies(x < 0, r < 0))
            self.ax.append(z3.Implies(x == 0, r == 0))
        elif o == "cosh":
            r = self.fresh("R")
            self.r(a[0])
            self.ax.append(r >= 1)
        elif o == "sqrt":
            x = self.r(a[0])
            r = self.fresh("R")
            self.ax.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        elif o == "ite":
            r = z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
        elif o == "sum":
            r = self.fresh("R")
            # nonnegative bodies give nonnegative sums (squares)
            if a[2].op == "mul" and len(a[2].args) == 2 and a[2].args[0] is a[2].args[1]:
                self.ax.append(r >= 0)
        elif o == "uf":
            r = self.fresh("R")
        else:
            raise Unsupported(f"encode real {o}")
        self.cache[t] = r
        return r


CUR = [None]


def cur():
    return CUR[0]


def _oracle(r, d):
    c = CUR[0]
    if c is None:
        return False
    return c.entails(tm.band(tm.ile(tm.I(0), r), tm.ilt(r, d)))


tm._range_oracle[0] = _oracle


def _pos(b):
    c = CUR[0]
    d = c.decl.get(b.args[0]) if c is not None else None
    return bool(d and d.get("pos"))


tm._pos_oracle[0] = _pos


def _ent(c):
    x = CUR[0]
    return x is not None and x.entails(c)


tm._entails[0] = _ent
