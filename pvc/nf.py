"""Normal form, differentiation and the real-equality prover."""
import itertools
import time
from fractions import Fraction

from . import terms as tm
from .terms import T, R, ZERO, ONE, Unsupported
from . import ctx as cx

STATS = {"nf_goals": 0, "case_splits": 0, "nf_time": 0.0}


class Stuck(Exception):
    """The prover could not finish (incompleteness, not refutation)."""


# ------------------------------------------------------------------ positivity
def is_pos(t):
    """Is real term t > 0 entailed?"""
    c = cx.cur()
    key = ("pos", t)
    if key in c.cache:
        return c.cache[key]
    r = _is_pos(t)
    c.cache[key] = r
    return r


def _is_pos(t):
    o, a = t.op, t.args
    if o == "rc":
        return a[0] > 0
    if o in ("exp", "cosh"):
        return True
    if o == "u":
        d = cx.cur().decl.get(a[0])
        if d and d.get("pos"):
            return True
    if o == "mul" and all(is_pos(x) for x in a):
        return True
    if o == "div" and is_pos(a[0]) and is_pos(a[1]):
        return True
    if o == "add" and all(is_pos(x) for x in a):
        return True
    if o == "pow" and is_pos(a[0]):
        return True
    if o == "sqrt" and is_pos(a[0]):
        return True
    return cx.cur().entails(tm.rgt0(t))


def is_nonzero(t):
    k = tm.rconst(t)
    if k is not None:
        return k != 0
    if t.op == "mul" or t.op == "div":
        if all(is_nonzero(x) for x in t.args):
            return True
    if t.op == "pow" and tm.rconst(t.args[1]) is not None and is_nonzero(t.args[0]):
        return True
    if is_pos(t):
        return True
    return cx.cur().entails(tm.bnot(tm.req(t, ZERO)))


# ------------------------------------------------------------------ normal form
# polynomial: dict mono -> Fraction ; mono: tuple of (gen, exp) sorted by gen.n
class Gen:
    __slots__ = ("kind", "data", "n", "t")

    def __repr__(self):
        return f"g{self.n}"


class NF:
    def __init__(self, ctx):
        self.ctx = ctx
        self.gens = []
        self.tgen = {}
        self.egen = {}
        self.lgen = {}
        self.dgens = []
        self.cache = {}
        self.argkeys = {}
        self.uapps = {}
        self.side = []  # side conditions t != 0 that failed

    # ---- gens
    def _gen(self, kind, data, t=None):
        g = Gen()
        g.kind, g.data, g.n, g.t = kind, data, len(self.gens), t
        self.gens.append(g)
        return g

    def atom(self, t):
        g = self.tgen.get(t)
        if g is None:
            g = self._gen("t", t, t)
            self.tgen[t] = g
        return {((g, Fraction(1)),): Fraction(1)}

    # ---- poly arithmetic
    @staticmethod
    def const(c):
        return {(): c} if c != 0 else {}

    @staticmethod
    def add(p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + k * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mulmono(self, m1, m2):
        d = {}
        for g, e in m1:
            d[g] = d.get(g, 0) + e
        for g, e in m2:
            d[g] = d.get(g, 0) + e
        return tuple(sorted(((g, e) for g, e in d.items() if e != 0), key=lambda x: x[0].n))

    def mul(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mulmono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > 6000:
            raise Stuck("polynomial too large")
        return r

    def powi(self, p, k):
        r = self.const(Fraction(1))
        for _ in range(k):
            r = self.mul(r, p)
        return r

    def monopow(self, m, c, e):
        """(c*m)^e for rational e; caller guarantees positivity if e fractional."""
        if e.denominator == 1:
            cc = c ** int(e) if e >= 0 else Fraction(1) / (c ** int(-e))
            extra = ()
        else:
            if c == 1:
                cc, extra = Fraction(1), ()
            else:
                if c < 0:
                    raise Stuck("negative base")
                cc, extra = Fraction(1), self._primepow(c, e)
        mm = tuple((g, x * e) for g, x in m)
        return self.mulmono(mm, extra), cc

    def _primepow(self, c, e):
        out = ()
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            f = 2
            while n > 1:
                while n % f == 0 and f == 5:
                    # 2 and 10 as multiplicative basis instead of 2 and 5, so that decimal logarithms stay atoms
                    out = self.mulmono(out, ((self.primegen(10), Fraction(s) * e), (self.primegen(2), -Fraction(s) * e)))
                    n //= f
                while n % f == 0:
                    g = self.primegen(f)
                    out = self.mulmono(out, ((g, Fraction(s) * e),))
                    n //= f
                f += 1
                if f > 10 ** 4 and n > 1:
                    g = self.primegen(n)
                    out = self.mulmono(out, ((g, Fraction(s) * e),))
                    break
        return out

    def primegen(self, p):
        k = ("prime", p)
        if k not in self.tgen:
            self.tgen[k] = self._gen("p", p, R(p))
        return self.tgen[k]

    def fixprime(self, p):
        """Fold integer powers of prime generators back into coefficients."""
        r = {}
        for m, c in p.items():
            mm = []
            for g, e in m:
                if g.kind == "p":
                    fl = e.numerator // e.denominator
                    c = c * (Fraction(g.data) ** fl)
                    e = e - fl
                    if e != 0:
                        mm.append((g, e))
                else:
                    mm.append((g, e))
            mm = tuple(mm)
            v = r.get(mm, 0) + c
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
        return r

    # ---- D generators (interned non-monomial polynomials)
    def dgen(self, p):
        """Return (gen, coeff, mono) with p == coeff*mono*D."""
        # strip common monomial content (only generators occurring in all monomials)
        monos = list(p)
        common = dict(monos[0])
        for m in monos[1:]:
            d = dict(m)
            for g in list(common):
                if g in d:
                    common[g] = min(common[g], d[g])
                else:
                    # absent: exponent 0
                    common[g] = min(common[g], Fraction(0))
            for g in d:
                if g not in common:
                    common[g] = min(Fraction(0), d[g])
        cm = tuple(sorted(((g, e) for g, e in common.items() if e != 0), key=lambda x: x[0].n))
        inv = tuple((g, -e) for g, e in cm)
        q = {self.mulmono(m, inv): c for m, c in p.items()}
        lead = min(q, key=lambda m: tuple((g.n, -e) for g, e in m))
        lc = q[lead]
        q = {m: c / lc for m, c in q.items()}
        key = frozenset(q.items())
        for g in self.dgens:
            if g.data[0] == key:
                return g, lc, cm
        for g in self.dgens:
            if self.is_zero(self.add(g.data[1], q, -1)):
                return g, lc, cm
        g = self._gen("D", (key, q))
        self.dgens.append(g)
        return g, lc, cm

    def as_mono(self, p):
        """Write p as coeff*mono (introducing a D generator if needed)."""
        if len(p) == 1:
            (m, c), = p.items()
            return m, c
        g, lc, cm = self.dgen(p)
        return self.mulmono(cm, ((g, Fraction(1)),)), lc

    def expandD(self, p):
        """Expand positive integer powers of D generators; clear negative ones."""
        p = self.fixprime(p)
        for _ in range(200):
            ds = {}
            for m in p:
                for g, e in m:
                    if g.kind == "D":
                        fl = e.numerator // e.denominator
                        ds.setdefault(g, []).append(fl)
            # pick D with greatest index
            cand = None
            for g in sorted(ds, key=lambda g: -g.n):
                # monomials without g have exponent 0
                es = []
                for m in p:
                    e = dict(m).get(g, Fraction(0))
                    es.append(e.numerator // e.denominator)
                if any(es):
                    cand = (g, min(es))
                    break
            if cand is None:
                return p
            g, lo = cand
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(g, Fraction(0)) - min(lo, 0) if lo < 0 else d.get(g, Fraction(0))
                if lo > 0:
                    e = d.get(g, Fraction(0)) - lo
                fl = e.numerator // e.denominator
                d[g] = e - fl
                mm = tuple(sorted(((gg, x) for gg, x in d.items() if x != 0), key=lambda x: x[0].n))
                r = self.add(r, self.mul({mm: c}, self.powi(g.data[1], fl)))
            p = self.fixprime(r)
            if not p:
                return p
        raise Stuck("expandD")

    def is_zero(self, p):
        if not p:
            return True
        p = self.fixprime(p)
        if not p:
            return True
        if not any(g.kind == "D" for m in p for g, e in m):
            return False
        return not self.expandD(p)

    # ---- main conversion
    def nf(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._nf(t)
            self.cache[t] = r
        return r

    def inv(self, p, t):
        if not p:
            raise Stuck(f"division by zero: {t!r}")
        if not is_nonzero(t):
            if self.is_zero(p):
                raise Stuck(f"division by zero: {t!r}")
            self.side.append(t)
            raise Stuck(f"cannot show nonzero: {t!r}")
        m, c = self.as_mono(p)
        return {tuple((g, -e) for g, e in m): 1 / c}

    def log(self, p, t):
        """NF of log of a positive poly p (term t)."""
        m, c = self.as_mono(p)
        r = {}
        if c != 1:
            for g, e in self._primepow(c, Fraction(1)):
                r = self.add(r, {((self.lg(g), Fraction(1)),): e})
        for g, e in m:
            if g.kind == "E":
                r = self.add(r, {g.data: e})
            else:
                r = self.add(r, {((self.lg(g), Fraction(1)),): e})
        return r

    def lg(self, g):
        r = self.lgen.get(g)
        if r is None:
            r = self._gen("L", g)
            self.lgen[g] = r
        return r

    def exp(self, p):
        r = {(): Fraction(1)}
        for m, c in p.items():
            if len(m) == 1 and m[0][0].kind == "L" and m[0][1] == 1:
                x = ((m[0][0].data, c),)
            else:
                g = self.egen.get(m)
                if g is None:
                    g = self._gen("E", m)
                    self.egen[m] = g
                x = ((g, c),)
            r = self.mul(r, {x: Fraction(1)})
        return r

    def factors_pos(self, m, t):
        """All generators in the monomial are positive?"""
        for g, e in m:
            if not self.gen_pos(g):
                return False
        return True

    def gen_pos(self, g):
        if g.kind in ("E", "p"):
            return True
        if g.kind == "t":
            return is_pos(g.data)
        if g.kind == "D":
            return is_pos(self.term(g.data[1]))
        if g.kind == "L":
            return is_pos(self.gterm(g))
        return False

    def gterm(self, g):
        if g.t is None:
            if g.kind == "D":
                g.t = self.term(g.data[1])
            elif g.kind == "E":
                g.t = tm.rexp(self.term({g.data: Fraction(1)}))
            elif g.kind == "L":
                g.t = tm.rlog(self.gterm(g.data))
        return g.t

    def term(self, p):
        out = []
        for m, c in p.items():
            fs = [R(c)]
            for g, e in m:
                fs.append(tm.rpow(self.gterm(g), R(e)))
            out.append(tm.rmul(*fs))
        return tm.radd(*out)

    def pos_log(self, p, t):
        """log p for p>0, splitting into factors that are individually positive."""
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and self.factors_pos(m, t):
                return self.log(p, t)
            # opaque positive monomial
            g = self.opaque(p)
            return {((self.lg(g), Fraction(1)),): Fraction(1)}
        g, lc, cm = self.dgen(p)
        if lc > 0 and self.factors_pos(cm, t) and self.gen_pos(g):
            return self.log(p, t)
        if lc < 0 and self.factors_pos(cm, t):
            # log(lc*D) with -D positive: intern the negated polynomial separately
            q = {m: -c for m, c in g.data[1].items()}
            key = frozenset(q.items())
            for g2 in self.dgens:
                if g2.data[0] == key:
                    break
            else:
                g2 = self._gen("D", (key, q))
                self.dgens.append(g2)
            r = self.log({self.mulmono(cm, ((g2, Fraction(1)),)): -lc}, t)
            return r
        g = self.opaque(p)
        return {((self.lg(g), Fraction(1)),): Fraction(1)}

    def opaque(self, p):
        """A D generator for the whole of p, without content extraction."""
        key = frozenset(p.items())
        for g in self.dgens:
            if g.data[0] == key:
                return g
        for g in self.dgens:
            if self.is_zero(self.add(g.data[1], p, -1)):
                return g
        g = self._gen("D", (key, dict(p)))
        self.dgens.append(g)
        return g

    def _nf(self, t):
        o, a = t.op, t.args
        if o == "rc":
            return self.const(a[0])
        if o == "add":
            r = {}
            for x in a:
                r = self.add(r, self.nf(x))
            return r
        if o == "mul":
            r = self.const(Fraction(1))
            for x in a:
                r = self.mul(r, self.nf(x))
            return r
        if o == "div":
            p = self.nf(a[0])
            if not p:
                return p if is_nonzero(a[1]) else self.mul(p, self.inv(self.nf(a[1]), a[1]))
            q = self.nf(a[1])
            if len(q) > 1 and is_nonzero(a[1]):
                # a factor of the numerator proportional to the denominator
                fs = list(a[0].args) if a[0].op == "mul" else [a[0]]
                for k, f in enumerate(fs):
                    pf = self.nf(f)
                    if len(pf) == len(q) and pf.keys() == q.keys():
                        m0 = next(iter(q))
                        l = Fraction(pf[m0]) / q[m0]
                        if all(pf[m] == l * q[m] for m in q):
                            r = self.const(l)
                            for x in fs[:k] + fs[k + 1:]:
                                r = self.mul(r, self.nf(x))
                            return r
            return self.mul(p, self.inv(q, a[1]))
        if o == "pow":
            k = tm.rconst(a[1])
            p = self.nf(a[0])
            if k is None:
                e = self.nf(a[1])
                if not e:
                    return self.const(Fraction(1))
                if len(e) == 1 and () in e:
                    k = e[()]
            if k is not None and k.denominator == 1:
                k = int(k)
                if k >= 0:
                    if len(p) == 1 or k <= 3:
                        return self.powi(p, k)
                    m, c = self.as_mono(p)
                    m2, c2 = self.monopow(m, c, Fraction(k))
                    return {m2: c2}
                q = self.inv(p, a[0])
                (m, c), = q.items()
                m2, c2 = self.monopow(m, c, Fraction(-k))
                return {m2: c2}
            if not p:
                # 0 ** e, e > 0
                if is_pos(a[1]):
                    return {}
                raise Stuck("0 ** e")
            if not is_pos(a[0]):
                if is_pos(a[1]) and cx.cur().entails(tm.req(a[0], ZERO)):
                    return {}
                raise Stuck(f"base not positive: {a[0]!r}")
            e = self.nf(a[1])
            return self.exp(self.mul(e, self.pos_log(p, a[0])))
        if o == "sqrt":
            return self._nf(tm.mk("pow", (a[0], R(Fraction(1, 2))), "R"))
        if o == "exp":
            return self.exp(self.nf(a[0]))
        if o == "log":
            p = self.nf(a[0])
            if not is_pos(a[0]):
                raise Stuck(f"log of non-positive {a[0]!r}")
            return self.pos_log(p, a[0])
        if o == "tanh":
            x = self.nf(a[0])
            e2 = self.exp(self.mul(self.const(Fraction(2)), x))
            num = self.add(e2, self.const(Fraction(-1)))
            den = self.add(e2, self.const(Fraction(1)))
            m, c = self.as_mono(den)
            return self.mul(num, {tuple((g, -e) for g, e in m): 1 / c})
        if o == "cosh":
            x = self.nf(a[0])
            e1 = self.exp(x)
            e2 = self.exp(self.mul(self.const(Fraction(-1)), x))
            return self.mul(self.const(Fraction(1, 2)), self.add(e1, e2))
        if o == "u":
            if not a[2]:
                return self.atom(t)
            return self.uatom(t)
        if o == "uf":
            return self.ufatom(t)
        if o == "fromint":
            c, ts = tm._parts(a[0])
            r = self.const(Fraction(c))
            for m, k in ts.items():
                x = self.const(Fraction(k))
                for at in m:
                    x = self.mul(x, self.atom(tm.mk("fromint", (at,), "R")))
                r = self.add(r, x)
            return r
        if o == "sum":
            return self.nfsum(t)
        if o == "ite":
            v = self.ctx.implied(a[0])
            if v is True:
                return self.nf(a[1])
            if v is False:
                return self.nf(a[2])
            return self.atom(t)
        raise Unsupported(f"nf {o}")

    def uatom(self, t):
        name, idx, args = t.args
        key = (name, tuple(self.icanon(i) for i in idx), len(args))
        for t2 in self.uapps.get(key, ()):
            if all(x is y or self.is_zero(self.add(self.nf(x), self.nf(y), -1))
                   for x, y in zip(args, t2.args[2])):
                return self.atom(t2)
        self.uapps.setdefault(key, []).append(t)
        return self.atom(t)

    def icanon(self, i):
        return i

    def ufatom(self, t):
        name, idx, args, lams = t.args
        key = ("uf", name, idx, len(args), len(lams))
        for t2 in self.uapps.get(key, ()):
            ok = all(x is y or self.is_zero(self.add(self.nf(x), self.nf(y), -1))
                     for x, y in zip(args, t2.args[2]))
            if ok:
                for q, (l1, l2) in enumerate(zip(lams, t2.args[3])):
                    if l1 is l2:
                        continue
                    dm = UFDIM.get(name, ())
                    v = self.ctx.new_var("l", dm[q] if q < len(dm) else None)
                    d = simp_conds(tm.rsub(tm.lam_app(l1, v), tm.lam_app(l2, v)), self.ctx)
                    if not self.is_zero(self.nf(d)) and not (all_conds(d) and _prove_zero(d, self.ctx, 1, [40]).ok):
                        ok = False
                        break
            if ok:
                return self.atom(t2)
        self.uapps.setdefault(key, []).append(t)
        return self.atom(t)

    # ---- sums
    def nfsum(self, t):
        """Distribute the sum over the monomials of its body, pull out invariant
        factors, eliminate Kronecker deltas, and intern what is left."""
        # collect nested binders
        l, n, body = t.args
        v = self.ctx.new_var("s", n)
        b = tm.inst(t, v)
        # range split on int conditions involving v
        sp = self.split_range(n, v, b)
        if sp is not None:
            r = {}
            for s in sp:
                r = self.add(r, self.nf(s))
            return r
        p = self.nf(b)
        r = {}
        for m, c in p.items():
            r = self.add(r, self.sum_mono(n, v, m, c))
        return r

    def split_range(self, n, v, b):
        """If b contains an undecided integer condition on v, split the sum."""
        for c in int_conds(b):
            if v not in tm.fv(c):
                continue
            if c.op == "ieq0":
                k, ts = tm._parts(c.args[0])
                if abs(ts.get((v,), 0)) == 1 and not any(v in m and m != (v,) for m in ts):
                    s = ts[(v,)]
                    rest = tm.isub(c.args[0], tm.imul(tm.I(s), v))
                    val = tm.imul(tm.I(-s), rest)   # v == val
                    # sum b = sum b[c:=F] + ite(0<=val<n, b[c:=T](val) - b[c:=F](val), 0)
                    bF = replace_cond(b, c, False)
                    bT = replace_cond(b, c, True)
                    dif = tm.rsub(tm.subst(bT, {v: val}), tm.subst(bF, {v: val}))
                    inr = tm.band(tm.ile(tm.I(0), val), tm.ilt(val, n))
                    d = self.ctx.implied(inr)
                    if d is True:
                        extra = dif
                    elif d is False:
                        extra = ZERO
                    else:
                        extra = tm.rite(inr, dif, ZERO)
                    return [tm.rsum(n, v, bF), extra]
            if c.op == "ilt0":
                k, ts = tm._parts(c.args[0])
                s = ts.get((v,), 0)
                if abs(s) == 1 and not any(v in m and m != (v,) for m in ts):
                    rest = tm.isub(c.args[0], tm.imul(tm.I(s), v))
                    bT = replace_cond(b, c, True)
                    bF = replace_cond(b, c, False)
                    if s == 1:      # v + rest < 0  : v < -rest
                        cut = tm.ineg(rest)
                        lo, hi = bT, bF
                    else:           # -v + rest < 0 : v > rest : v >= rest+1
                        cut = tm.iadd(rest, tm.I(1))
                        lo, hi = bF, bT
                    if self.ctx.entails(tm.band(tm.ile(tm.I(0), cut), tm.ile(cut, n))):
                        w = tm.fresh_ivar("w")
                        return [tm.rsum(cut, v, lo),
                                tm.rsum(tm.isub(n, cut), w, tm.subst(hi, {v: tm.iadd(w, cut)}))]
                    if self.ctx.entails(tm.ile(cut, tm.I(0))):
                        return [tm.rsum(n, v, hi)]
                    if self.ctx.entails(tm.ile(n, cut)):
                        return [tm.rsum(n, v, lo)]
        return None

    def gen_fv(self, g):
        return tm.fv(self.gterm(g))

    def sum_mono(self, n, v, m, c):
        dep, ind = [], []
        for g, e in m:
            (dep if v in self.gen_fv(g) else ind).append((g, e))
        if not dep:
            return self.mul({tuple(ind): c}, self.nf(tm.fromint(n)))
        body = tm.rmul(*[tm.rpow(self.gterm(g), R(e)) for g, e in dep])
        # merge with inner sum factors: sum_v f(v) * (sum_w g(v,w))
        vs = [(n, v)]
        facs = tuple(dep)
        while True:
            g = next((g for g, e in facs if g.kind == "t" and g.data.op == "sum" and e == 1), None)
            if g is None:
                break
            facs = tuple(x for x in facs if x[0] is not g)
            n2, w, b2 = tm.open_binder(g.data, "w")
            self.ctx.varfacts[w] = [tm.ile(tm.I(0), w), tm.ilt(w, n2)]
            vs.append((n2, w))
            p2 = self.nf(b2)
            if len(p2) != 1:
                r = {}
                for m2, c2 in p2.items():
                    t = tm.rmul(tm.R(c2), *[tm.rpow(self.gterm(h), R(e)) for h, e in facs + tuple(m2)])
                    for n3, v3 in reversed(vs):
                        t = _rawsum(n3, v3, t) if v3 in tm.fv(t) else tm.rmul(tm.fromint(n3), t)
                    r = self.add(r, self.nf(t))
                return self.mul({tuple(ind): c}, r)
            (m2, c2), = p2.items()
            c = c * c2
            facs = self.mulmono(facs, m2)
        r = self.msum(vs, tuple(facs))
        return self.mul({tuple(ind): c}, r)

    def contract_inverse(self, vs, m):
        """sum_v Ainv[L, i, v] A[L, v, j] = sum_v A[L, i, v] Ainv[L, v, j] = delta(i, j)."""
        ap = [(g, g.data) for g, e in m if g.kind == "t" and g.data.op == "u" and e == 1 and len(g.data.args[1]) >= 2]
        for gi, ti in ap:
            if not ti.args[0].endswith("~inv"):
                continue
            for gm, tm_ in ap:
                if tm_.args[0] != ti.args[0][:-4] or len(tm_.args[1]) != len(ti.args[1]):
                    continue
                li, lm = ti.args[1][:-2], tm_.args[1][:-2]
                for a, b in ((ti, tm_), (tm_, ti)):
                    v = a.args[1][-1]
                    if v is not b.args[1][-2] or not any(v is w for _, w in vs):
                        continue
                    i, j = a.args[1][-2], b.args[1][-1]
                    if v in tm.fv(i) | tm.fv(j) or any(v in tm.fv(x) for x in li + lm):
                        continue
                    rest = [(g, e) for g, e in m if g is not gi and g is not gm]
                    if any(v in self.gen_fv(g) for g, e in rest) or any(v in tm.fv(n) for n, w in vs if w is not v):
                        continue
                    if not all(x is y or self.ctx.entails(tm.ieq(x, y)) for x, y in zip(li, lm)):
                        continue
                    vs2 = [(n, w) for n, w in vs if w is not v]
                    t = tm.rmul(*[tm.rpow(self.gterm(g), R(e)) for g, e in rest])
                    sv = [w for _, w in vs2]
                    if any(j is w for w in sv):
                        t, vs2 = tm.subst(t, {j: i}), [(tm.subst(n, {j: i}), w) for n, w in vs2 if w is not j]
                    elif any(i is w for w in sv):
                        t, vs2 = tm.subst(t, {i: j}), [(tm.subst(n, {i: j}), w) for n, w in vs2 if w is not i]
                    else:
                        t = tm.rmul(tm.rite(tm.ieq(i, j), ONE, ZERO), t)
                    for n, w in vs2:
                        t = _rawsum(n, w, t) if w in tm.fv(t) else tm.rmul(tm.fromint(n), t)
                    return self.nf(t)
        return None

    def msum(self, vs, m):
        """Canonical multi-sum of a monomial."""
        x = self.contract_inverse(vs, m)
        if x is not None:
            return x
        best = None
        perms = list(itertools.permutations(vs)) if len(vs) <= 4 else [tuple(vs)]
        body = tm.rmul(*[tm.rpow(self.gterm(g), R(e)) for g, e in m])
        for p in perms:
            # dependency: n of inner may not mention outer vars for permuting
            t = body
            ok = True
            for i, (n, v) in enumerate(p):
                for n2, v2 in p[:i]:
                    if v2 in tm.fv(n):
                        pass
            # sum order: first in p innermost
            for i, (n, v) in enumerate(p):
                if any(v in tm.fv(n2) for n2, v2 in p[:i]):
                    ok = False
            if not ok:
                continue
            for n, v in p:
                if v in tm.fv(t):
                    t = _rawsum(n, v, t)
                else:
                    t = tm.rmul(tm.fromint(n), t)
            k = t.id
            if best is None or skey(t) < best[0]:
                best = (skey(t), t)
        t = best[1]
        if t.op == "sum":
            return self.atom(t)
        # got a product (a var dropped out)
        if t.op == "mul":
            r = self.const(Fraction(1))
            for x in t.args:
                r = self.mul(r, self.atom(x) if x.op == "sum" else self.nf(x))
            return r
        return self.nf(t)


def _rawsum(n, v, b):
    l, bb = tm._close(v, b)
    return tm.mk("sum", (l, n, bb), "R")


_skey = {}


def skey(t):
    """A structural (creation-order independent) sort key, cheap."""
    r = _skey.get(t)
    if r is None:
        r = tm.show(t)
        _skey[t] = r
    return r


def int_conds(t, seen=None, out=None):
    """Integer conditions (ieq0/ilt0 atoms) in ites of t, not under binders' bound vars."""
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.op in ("ite", "iite"):
        for c in cond_atoms(t.args[0]):
            if c.op in ("ieq0", "ilt0") and c not in out and not any(x.op == "bv" for x in tm.fv(c)):
                out.append(c)
    for x in tm.children(t):
        int_conds(x, seen, out)
    return out


def cond_atoms(c):
    if c.op in ("and", "or", "not"):
        r = []
        for x in c.args:
            r += cond_atoms(x)
        return r
    return [c]


def replace_cond(t, c, val):
    v = tm.TRUE if val else tm.FALSE
    cache = {}

    def go(x):
        if x is c:
            return v
        r = cache.get(x)
        if r is not None:
            return r
        if x.op in tm.BINDERS:
            if x.op == "lam":
                l, b = x.args
                w = tm.fresh_ivar("c")
                r = tm.lam(w, go(tm.subst(b, {tm.bv(l): w})))
            else:
                l, n, b = x.args
                w = tm.fresh_ivar("c")
                r = tm._binder_mk[x.op](go(n), w, go(tm.subst(b, {tm.bv(l): w})))
        else:
            r = tm.rebuild(x, go)
        cache[x] = r
        return r

    return go(t)


# ------------------------------------------------------------------ differentiation
def delta(i, j):
    return tm.rite(tm.ieq(i, j), ONE, ZERO)


def diff(t, name, idx, impl=None):
    """d t / d name[idx]; idx a tuple of int terms."""
    cache = {}

    def dd(t):
        r = cache.get(t)
        if r is None:
            r = go(t)
            cache[t] = r
        return r

    def go(t):
        o, a = t.op, t.args
        if o in ("rc", "fromint"):
            return ZERO
        if o == "u":
            nm, ix, args = a
            if nm == name:
                return tm.rmul(*[delta(i, j) for i, j in zip(ix, idx)]) if ix else ONE
            r = []
            for k, x in enumerate(args):
                d = dd(x)
                if d is not ZERO:
                    r.append(tm.rmul(partial(nm, k, ix, args), d))
            if impl is not None:
                x = impl(t, dd)
                if x is not None:
                    r.append(x)
            return tm.radd(*r) if r else ZERO
        if o == "uf":
            nm, ix, args, lams = a
            r = []
            for k, x in enumerate(args):
                d = dd(x)
                if d is not ZERO:
                    r.append(tm.rmul(ufpartial(nm, ("a", k), ix, args, lams, None), d))
            for k, l in enumerate(lams):
                n = UFDIM[nm][k]
                v = cx.cur().new_var("d", n)
                d = dd(tm.lam_app(l, v))
                if d is not ZERO:
                    r.append(tm.rsum(n, v, tm.rmul(ufpartial(nm, ("v", k), ix, args, lams, v), d)))
            return tm.radd(*r) if r else ZERO
        if o == "add":
            return tm.radd(*[dd(x) for x in a])
        if o == "mul":
            r = []
            for i, x in enumerate(a):
                d = dd(x)
                if d is not ZERO:
                    r.append(tm.rmul(d, *(a[:i] + a[i + 1:])))
            return tm.radd(*r) if r else ZERO
        if o == "div":
            da, db = dd(a[0]), dd(a[1])
            r = ZERO
            if da is not ZERO:
                r = tm.rdiv(da, a[1])
            if db is not ZERO:
                r = tm.rsub(r, tm.rdiv(tm.rmul(a[0], db), tm.rmul(a[1], a[1])))
            return r
        if o == "pow":
            db, de = dd(a[0]), dd(a[1])
            r = ZERO
            if db is not ZERO:
                r = tm.rmul(a[1], tm.rpow(a[0], tm.rsub(a[1], ONE)), db)
            if de is not ZERO:
                r = tm.radd(r, tm.rmul(t, tm.rlog(a[0]), de))
            return r
        if o == "exp":
            d = dd(a[0])
            return ZERO if d is ZERO else tm.rmul(t, d)
        if o == "log":
            d = dd(a[0])
            return ZERO if d is ZERO else tm.rdiv(d, a[0])
        if o == "tanh":
            d = dd(a[0])
            return ZERO if d is ZERO else tm.rmul(tm.rsub(ONE, tm.rmul(t, t)), d)
        if o == "cosh":
            d = dd(a[0])
            if d is ZERO:
                return ZERO
            x = a[0]
            s = tm.rmul(R(Fraction(1, 2)), tm.rsub(tm.rexp(x), tm.rexp(tm.rneg(x))))
            return tm.rmul(s, d)
        if o == "sqrt":
            d = dd(a[0])
            return ZERO if d is ZERO else tm.rdiv(d, tm.rmul(R(2), t))
        if o == "ite":
            return tm.rite(a[0], dd(a[1]), dd(a[2]))
        if o == "sum":
            n, v, b = tm.open_binder(t, "j")
            cx.cur().varfacts[v] = [tm.ile(tm.I(0), v), tm.ilt(v, n)]
            d = diff(b, name, idx, impl)
            return tm.rsum(n, v, d)
        raise Unsupported(f"diff {o}")

    return dd(t)


UFDIM = {}   # name -> tuple of lengths of lambda arguments


def partial(nm, k, ix, args):
    """k-th partial derivative symbol of an uninterpreted function."""
    base, ds = _split_partial(nm)
    ds = tuple(sorted(ds + (str(k),)))
    return tm.mk("u", (base + "'" + ",".join(ds), ix, args), "R")


def ufpartial(nm, k, ix, args, lams, v):
    base, ds = _split_partial(nm)
    if ds:
        raise Unsupported("second derivative of a vector function")
    n2 = base + "'" + f"{k[0]}{k[1]}"
    UFDIM[n2] = UFDIM.get(nm, ())
    ii = ix + ((v,) if v is not None else ())
    return tm.mk("uf", (n2, ii, args, lams), "R")


def _split_partial(nm):
    if "'" in nm:
        b, d = nm.split("'", 1)
        return b, tuple(d.split(","))
    return nm, ()


# ------------------------------------------------------------------ prover
class Result:
    __slots__ = ("ok", "why", "cases", "backend", "model")

    def __init__(self, ok, why="", cases=0, backend="nf", model=None):
        self.ok, self.why, self.cases, self.backend, self.model = ok, why, cases, backend, model


def all_conds(t):
    """Undecided ite conditions (atoms), innermost first, without bound variables."""
    out, seen = [], set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        for c in tm.children(t):
            go(c)
        if t.op in ("ite", "iite"):
            for c in cond_atoms(t.args[0]):
                if c not in out and not any(x.op == "bv" for x in tm.fv(c)):
                    out.append(c)

    go(t)
    return out


def simp_conds(t, ctx):
    """Replace decided conditions in t."""
    ch = True
    while ch:
        ch = False
        for c in all_conds(t):
            v = ctx.implied(c)
            if v is not None:
                t = replace_cond(t, c, v)
                ch = True
                break
    return t


def solve_eq(c):
    """For ieq0 condition: a (var, value) substitution, preferring fresh variables."""
    k, ts = tm._parts(c.args[0])
    cands = []
    for m, co in ts.items():
        if len(m) == 1 and abs(co) == 1 and m[0].op == "iv":
            v = m[0]
            if any(v in mm and mm != m for mm in ts):
                continue
            rest = tm.isub(c.args[0], tm.imul(tm.I(co), v))
            if v in tm.fv(rest):
                continue
            cands.append((v.id, v, tm.imul(tm.I(-co), rest)))
    if not cands:
        return None
    cands.sort()
    _, v, val = cands[-1]
    return v, val


def pin_vars(c, t, ctx):
    """Index variables of c that the hypotheses pin to a bound are replaced by it."""
    vs = set(tm.fv(c))
    for v in list(vs):
        for f in ctx.varfacts.get(v, ()):
            vs |= tm.fv(f)
    for v in sorted((v for v in vs if v.op == "iv" and v in tm.fv(t)), key=lambda v: v.id):
        for f in ctx.varfacts.get(v, ()):
            # f: lo <= v, that is lo - v - 1 < 0
            if f.op != "ilt0":
                continue
            lo = tm.iadd(tm.iadd(f.args[0], v), tm.I(1))
            if tm.iconst(lo) is None:
                # f: v <= lo, that is v - lo - 1 < 0
                lo = tm.isub(tm.isub(v, f.args[0]), tm.I(1))
                if v in tm.fv(lo):
                    continue
            if ctx.entails(tm.ieq(v, lo)):
                m = {v: lo}
                t = tm.subst(t, m)
                ctx.hyps = [h for h in (tm.subst(x, m) for x in ctx.hyps) if h is not tm.TRUE]
                ctx.cache = {}
                break
    # e < 0 and not e + 1 < 0 among the hypotheses: e == -1
    lt = [h.args[0] for h in ctx.hyps if h.op == "ilt0"]
    ge = [h.args[0].args[0] for h in ctx.hyps if h.op == "not" and h.args[0].op == "ilt0"]
    for a in lt:
        b = tm.iadd(a, tm.I(1))
        if any(b is x for x in ge):
            e = tm.ieq(b, tm.I(0))
            s = solve_eq(e) if e.op == "ieq0" else None
            if s is not None and (s[0] in tm.fv(t)):
                m = {s[0]: s[1]}
                t = tm.subst(t, m)
                vf = list(ctx.varfacts.get(s[0], ()))
                ctx.hyps = [h for h in (tm.subst(x, m) for x in ctx.hyps + vf) if h is not tm.TRUE]
                ctx.cache = {}
                break
    return t


DRY = [False]     # running code only for what it leaves behind (another configuration before the one verified)


def prove_zero(t, ctx, depth=0, budget=None):
    """Prove t == 0 under ctx.hyps."""
    if DRY[0]:
        return Result(True)
    if budget is None:
        budget = [400]
        STATS["nf_goals"] += 1
    t0 = time.time()
    try:
        return _prove_zero(t, ctx, depth, budget)
    finally:
        if depth == 0:
            STATS["nf_time"] += time.time() - t0


def _prove_zero(t, ctx, depth, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return Result(False, "case budget exhausted")
    t = simp_conds(t, ctx)
    if t is ZERO:
        return Result(True)
    conds = all_conds(t)
    if conds:
        c = conds[0]
        STATS["case_splits"] += 1
        cases = 0
        for val in (True, False):
            h = c if val else tm.bnot(c)
            saved, savedc = list(ctx.hyps), ctx.cache
            try:
                ctx.cache = {}
                ctx.hyps.append(h)
                t2 = replace_cond(t, c, val)
                if val and c.op == "ieq0":
                    s = solve_eq(c)
                    if s is not None:
                        m = {s[0]: s[1]}
                        t2 = tm.subst(t2, m)
                        ctx.hyps = [tm.subst(x, m) for x in ctx.hyps]
                        for vf in list(ctx.varfacts.get(s[0], ())):
                            ctx.hyps.append(tm.subst(vf, m))
                        ctx.cache = {}
                    c2 = tm.subst(c, m) if s is not None else c
                else:
                    c2 = c
                if c.op in ("ieq0", "ilt0"):
                    t2 = pin_vars(c if c2 is tm.TRUE else c2, t2, ctx)
                x = zero_app(h)
                if x is not None and ctx.entails(tm.req(x, ZERO)):
                    t2 = tm.transform(t2, lambda y: ZERO if y is x else y)
                if ctx.check([], 1500) == "unsat":
                    continue
                r = _prove_zero(t2, ctx, depth + 1, budget)
                cases += r.cases + 1
                if not r.ok:
                    if not r.why.startswith("case"):
                        r.why = f"case [{h!r}] " + r.why
                    else:
                        r.why = f"case [{h!r}] " + r.why
                    return r
            finally:
                ctx.hyps, ctx.cache = saved, savedc
        return Result(True, cases=cases)
    try:
        n = NF(ctx)
        p = n.nf(t)
        if n.is_zero(p):
            return Result(True, cases=1)
        # sums may have produced conditional leftovers
        rest = n.term(n.fixprime(p)) if any(
            g.kind == "t" and g.data.op == "ite" for m in p for g, e in m) else None
        if rest is not None and rest is not t and all_conds(rest):
            return _prove_zero(rest, ctx, depth + 1, budget)
        if same_log(n, p, t):
            return Result(True, cases=1, backend="nf+log")
        q = concat_ranges(n, p, ctx)
        if q is not None:
            if n.is_zero(q):
                return Result(True, cases=1, backend="nf+ranges")
            p = q
        # equalities among the hypotheses
        q = use_equalities(n, p, ctx)
        if q is not None and n.is_zero(q):
            return Result(True, cases=1, backend="nf+eq")
        if depth < 60:
            for x, val in solved_equalities(n, ctx, t):
                t2 = tm.transform(t, lambda y: val if y is x else y)
                if t2 is not t:
                    sv, sc = list(ctx.hyps), ctx.cache
                    try:
                        ctx.hyps = [h for h in (tm.transform(h, lambda y: val if y is x else y) for h in ctx.hyps)
                                    if h is not tm.TRUE]
                        ctx.cache = {}
                        r = _prove_zero(t2, ctx, depth + 30, budget)
                    finally:
                        ctx.hyps, ctx.cache = sv, sc
                    if r.ok:
                        return r
        why = "residual " + tm.show(n.term(n.fixprime(q if q is not None else p)))[:1500]
    except Stuck as e:
        why = f"stuck: {e}"
    # last resort: SMT
    try:
        if ctx.check([tm.bnot(tm.req(t, ZERO))], 4000) == "unsat":
            return Result(True, cases=1, backend="z3")
    except Unsupported:
        pass
    return Result(False, why)


def _opened(t, ctx):
    """All ways of writing a nested sum with one of its variables outermost: (bound, variable, rest)."""
    vs, b = [], t
    while b.op == "sum":
        k, w, b = tm.open_binder(b, "r")
        ctx.varfacts[w] = [tm.ile(tm.I(0), w), tm.ilt(w, k)]
        vs.append((k, w))
    out = []
    names = {w for _, w in vs}
    for q, (k, w) in enumerate(vs):
        if tm.fv(k) & names:
            continue
        x = b
        for k2, w2 in reversed(vs[:q] + vs[q + 1:]):
            x = _rawsum(k2, w2, x) if w2 in tm.fv(x) else tm.rmul(tm.fromint(k2), x)
        out.append((k, w, x))
    return out


def _merge_ranges(n, s1, c1, s2, c2, ctx):
    """c1 s1 + c2 s2 as one sum over a longer or shorter range, or None."""
    def zero(d):
        d = simp_conds(d, ctx)
        return not all_conds(d) and n.is_zero(n.nf(d))
    for a, v, f in _opened(s1, ctx):
        for b, w, g in _opened(s2, ctx):
            if c1 == c2:
                for x, xv, xf, y, yv, yg in ((a, v, f, b, w, g), (b, w, g, a, v, f)):
                    # y continues x
                    if _heads(xf) == _heads(yg) and zero(tm.rsub(tm.subst(xf, {xv: tm.iadd(yv, x)}), yg)) and \
                            ctx.entails(tm.ile(tm.I(0), x)) and ctx.entails(tm.ile(tm.I(0), y)):
                        return tm.rmul(R(c1), tm.rsum(tm.iadd(x, y), xv, xf))
            elif c1 == -c2 and a is not b and _heads(f) == _heads(g) and zero(tm.rsub(tm.subst(f, {v: w}), g)):
                for x, xv, xf, cc, y in ((a, v, f, c1, b), (b, w, g, c2, a)):
                    if ctx.entails(tm.ile(y, x)) and ctx.entails(tm.ile(tm.I(0), y)):
                        return tm.rmul(R(cc), tm.rsum(tm.isub(x, y), xv, tm.subst(xf, {xv: tm.iadd(xv, y)})))
    return None


def _heads(t):
    """Names of the functions in a term."""
    out = set()

    def go(x):
        if x.op in ("u", "uf"):
            out.add(x.args[0])
        for y in tm.children(x):
            go(y)
    go(t)
    return out


def concat_ranges(n, p, ctx):
    """Join sums over adjacent ranges: sum_{k<a} f(k) + sum_{k<b} f(a+k) = sum_{k<a+b} f(k)."""
    done = None
    for _ in range(20):
        sums = []
        for m, c in p.items():
            for i, (g, e) in enumerate(m):
                if e == 1 and g.kind == "t" and g.data.op == "sum":
                    sums.append((m, c, m[:i] + m[i + 1:], g.data))
        hit = None
        if len(sums) > 24:
            return done
        for x, y in itertools.combinations(sums, 2):
            if x[0] == y[0] or x[2] != y[2] or abs(x[1]) != abs(y[1]):
                continue
            r = _merge_ranges(n, x[3], x[1], y[3], y[1], ctx)
            if r is not None:
                hit = (x, y, r)
                break
        if hit is None:
            return done
        x, y, r = hit
        p = {m: c for m, c in p.items() if m not in (x[0], y[0])}
        p = n.add(p, n.mul({x[2]: Fraction(1)}, n.nf(r)))
        done = p
        if n.is_zero(p):
            return p
    return done


def same_log(n, p, t):
    """p = c1 m1 - c2 m2 with positive products m1, m2 of powers and exponentials: equal logarithms."""
    p = n.fixprime(p)
    if len(p) != 2:
        return False
    (m1, c1), (m2, c2) = p.items()
    if c1 * c2 >= 0 or not any(g.kind == "E" for g, e in m1 + m2):
        return False
    if not (n.factors_pos(m1, t) and n.factors_pos(m2, t)):
        return False
    d = n.add(n.log({m1: abs(c1)}, t), n.log({m2: abs(c2)}, t), -1)
    return n.is_zero(d)


def solved_equalities(n, ctx, t):
    """Equalities x == val solved from pairs of hypotheses p <= 0, -p <= 0 (x an application in t)."""
    out, seen = [], set()
    nots = [h.args[0].args[0] for h in ctx.hyps if h.op == "not" and h.args[0].op == "rgt0"]
    for p in nots:
        if p in seen or not (any(tm.rneg(p) is q or _opp(n, p, q) for q in nots if q is not p)
                             or ctx.entails(tm.req(p, ZERO))):
            continue
        seen.add(p)
        try:
            q = n.expandD(n.nf(p))
        except Stuck:
            continue
        for m, c in q.items():
            for g, e in m:
                if g.kind != "t" or abs(e) != 1 or any(g in dict(mm) for mm in q if mm != m):
                    continue
                x = n.gterm(g)
                if x.op != "u":
                    continue
                others = {tuple((gg, ee) for gg, ee in m if gg is not g): c}
                if not all(is_nonzero(n.gterm(gg)) for gg, ee in m if gg is not g):
                    continue
                rest = {mm: -cc for mm, cc in q.items() if mm != m}
                try:
                    a, b = n.term(n.fixprime(rest)), n.term(n.fixprime(others))
                except Stuck:
                    continue
                out.append((x, tm.rdiv(a, b) if e == 1 else tm.rdiv(b, a)))
                break
    return out[:4]


def _opp(n, p, q):
    try:
        return n.is_zero(n.add(n.nf(p), n.nf(q)))
    except Stuck:
        return False


def zero_app(h):
    """The application x when h is (not x>0) or (not -x>0)."""
    if h.op != "not" or h.args[0].op != "rgt0":
        return None
    x = h.args[0].args[0]
    if x.op == "mul" and len(x.args) == 2 and any(y.op == "rc" for y in x.args):
        x = x.args[0] if x.args[1].op == "rc" else x.args[1]
    return x if x.op == "u" else None


def use_equalities(n, p, ctx):
    """Reduce p by real equalities among the hypotheses (linear in some generator)."""
    eqs = []
    for h in ctx.hyps:
        if h.op == "req0":
            eqs.append(h.args[0])
        if h.op == "not" and h.args[0].op == "rgt0":
            # x<=0; together with not(-x>0) gives x==0
            x = h.args[0].args[0]
            if ctx.entails(tm.req(x, ZERO)):
                eqs.append(x)
    seen = set()
    todo = [n.gterm(g) for m in p for g, e in m]
    while todo:
        x = todo.pop()
        if x in seen or x.sort == "B":
            continue
        seen.add(x)
        if x.op == "u":
            f = ctx.decl.get(x.args[0], {}).get("eqs")
            if f and not any(y.op == "bv" for y in tm.fv(x)):
                eqs.extend(f(x))
        todo.extend(tm.children(x))
    if not eqs:
        return None
    ch = False
    for e in eqs:
        try:
            q = n.nf(e)
        except Stuck:
            continue
        if not q:
            continue
        q = n.expandD(q)
        # choose a generator occurring linearly in exactly one monomial alone
        best = None
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "t":
                g = m[0][0]
                if all(mm == m or g not in dict(mm) for mm in q):
                    if best is None or g.n > best[0].n:
                        best = (g, m, c)
        if best is None:
            continue
        g, m, c = best
        val = {mm: -cc / c for mm, cc in q.items() if mm != m}
        p2 = {}
        for mm, cc in p.items():
            d = dict(mm)
            ex = d.pop(g, Fraction(0))
            rest = tuple(sorted(d.items(), key=lambda x: x[0].n))
            if ex == 0:
                p2 = n.add(p2, {mm: cc})
            elif ex.denominator == 1 and ex > 0:
                p2 = n.add(p2, n.mul({rest: cc}, n.powi(val, int(ex))))
                ch = True
            else:
                p2 = n.add(p2, {mm: cc})
        p = p2
    return p if ch else None


def has_forall(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    return t.op == "forall" or (t.sort == "B" and any(has_forall(c, seen) for c in tm.children(t) if c.sort == "B"))


def ground(fs, ctx):
    """Quantifier-free consequences of the formulas fs: existential variables become fresh constants,
    universal ones are instantiated at those constants and at the free index variables."""
    sk = []

    def skolem(t, pol):
        o, a = t.op, t.args
        if o == "not":
            return tm.bnot(skolem(a[0], not pol))
        if o == "and":
            return tm.band(*[skolem(x, pol) for x in a])
        if o == "or":
            return tm.bor(*[skolem(x, pol) for x in a])
        if o == "forall" and not pol:
            v = ctx.new_var("sk")
            sk.append((v, a[1]))
            rng = tm.band(tm.ile(tm.I(0), v), tm.ilt(v, a[1]))
            return tm.bor(tm.bnot(rng), skolem(tm.subst(a[2], {tm.bv(a[0]): v}), pol))
        return t

    def insts(t, cands, pol):
        o, a = t.op, t.args
        if o == "not":
            return tm.bnot(insts(a[0], cands, not pol))
        if o == "and":
            return tm.band(*[insts(x, cands, pol) for x in a])
        if o == "or":
            return tm.bor(*[insts(x, cands, pol) for x in a])
        if o == "forall" and pol:
            out = []
            for v in cands:
                rng = tm.band(tm.ile(tm.I(0), v), tm.ilt(v, a[1]))
                out.append(tm.bor(tm.bnot(rng), insts(tm.subst(a[2], {tm.bv(a[0]): v}), cands, pol)))
            return tm.band(*out)
        return t

    fs = [skolem(f, True) for f in fs]
    cands = [v for v, _ in sk]
    for f in fs:
        for v in sorted(tm.fv(f), key=lambda v: v.id):
            if v.op == "iv" and v not in cands and len(cands) < 8:
                cands.append(v)
    for _ in range(2):
        n = len(sk)
        fs = [skolem(f, True) for f in fs]
        cands += [v for v, _ in sk[n:]]
    return [insts(f, cands, True) for f in fs]


def prove_ground(g, ctx, timeout):
    """g by instantiation of quantified hypotheses."""
    fs = list(ctx.hyps) + [tm.bnot(g)]
    if not any(has_forall(f) for f in fs):
        return False
    gs = ground(fs, ctx)
    sv, sc = ctx.hyps, ctx.cache
    ctx.hyps, ctx.cache = [], {}
    try:
        return ctx.check(gs, timeout) == "unsat"
    finally:
        ctx.hyps, ctx.cache = sv, sc


def prove_bool(g, ctx, timeout=6000, depth=0):
    """Prove boolean goal g under ctx.hyps."""
    if DRY[0]:
        return Result(True)
    if g is tm.TRUE:
        return Result(True, backend="trivial")
    if g.op == "and":
        for x in g.args:
            r = prove_bool(x, ctx, timeout)
            if not r.ok:
                return r
        return Result(True, backend="z3")
    if g.op == "req0":
        return prove_zero(g.args[0], ctx)
    if depth == 0 and prove_ground(g, ctx, timeout):
        return Result(True, backend="z3")
    st, model, enc = ctx.check([tm.bnot(g)], timeout, model=True)
    if st == "unsat":
        return Result(True, backend="z3")
    cs = all_conds(g)
    if st == "unknown" or (cs and depth < 8):
        # case split on conditions
        if cs:
            c = cs[0]
            for val in (True, False):
                saved, savedc = list(ctx.hyps), ctx.cache
                try:
                    ctx.cache = {}
                    ctx.hyps.append(c if val else tm.bnot(c))
                    if ctx.check([], 1500) == "unsat":
                        continue
                    r = prove_bool(replace_cond(g, c, val), ctx, timeout, depth + 1)
                    if not r.ok:
                        return r
                finally:
                    ctx.hyps, ctx.cache = saved, savedc
            return Result(True, backend="z3")
        return Result(False, "z3 unknown: " + tm.show(g)[:800], backend="z3")
    return Result(False, "z3 countermodel for " + tm.show(g)[:600] + " : " + str(model)[:800],
                  backend="z3", model=model)
