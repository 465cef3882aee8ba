"""Hash-consed terms: the logic in which the verifier works.

Sorts: 'I' (mathematical integers), 'R' (mathematical reals), 'B' (booleans).

Integer terms are kept in a canonical polynomial form, so equal index
expressions are the same object.  Real terms are trees with light
simplification; equality of reals is decided in `nf.py`.
"""
from fractions import Fraction

_table = {}
_count = [0]


class Unsupported(Exception):
    """The code under verification left the subset the verifier understands."""


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_h", "_lvl")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # term objects must never be used as python truth values
    def __bool__(self):
        raise Unsupported("truth value of a term")


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        t.id = _count[0]
        _count[0] += 1
        t._fv = None
        t._lvl = None
        _table[key] = t
    return t


def children(t):
    """Term children of t (flattened through nested tuples)."""
    if t.op == "ip":
        for m, _ in t.args[1]:
            for a in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        yield b


def subterms(t):
    """All subterms, outer ones first."""
    seen, todo = {t}, [t]
    while todo:
        x = todo.pop(0)
        yield x
        for c in children(x):
            if c not in seen:
                seen.add(c)
                todo.append(c)


def fv(t):
    """Free integer variables (ops 'iv' and bound markers 'bv') of t."""
    if t._fv is None:
        if t.op in ("iv", "bv"):
            t._fv = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t):
                s = s | fv(c)
            if t.op in BINDERS:
                s = s - {bv(t.args[0])}
            t._fv = s
    return t._fv


BINDERS = ("sum", "isum", "forall", "exists", "lam")


def bv(level):
    return mk("bv", (level,), "I")


def level(t):
    """Height of binders inside t."""
    if t._lvl is None:
        l = 0
        for c in children(t):
            l = max(l, level(c))
        if t.op in BINDERS:
            l = max(l, t.args[0])
        t._lvl = l
    return t._lvl


# ---------------------------------------------------------------- integers
_fresh = [0]


def ivar(name):
    return mk("iv", (name,), "I")


def fresh_ivar(prefix="k"):
    _fresh[0] += 1
    return ivar(f"{prefix}!{_fresh[0]}")


def _ip(const, terms):
    """terms: dict mono(tuple of atoms sorted by id) -> int"""
    terms = tuple(sorted(((m, c) for m, c in terms.items() if c != 0),
                         key=lambda mc: tuple(a.id for a in mc[0])))
    if const == 0 and len(terms) == 1 and terms[0][1] == 1 and len(terms[0][0]) == 1:
        return terms[0][0][0]
    return mk("ip", (const, terms), "I")


def I(n):
    if isinstance(n, T):
        assert n.sort == "I", n
        return n
    if isinstance(n, Fraction) and n.denominator != 1:
        return mk("ip", (n, ()), "I")      # only as the coefficient of a power of two
    return mk("ip", (int(n), ()), "I")


def _parts(t):
    if t.op == "ip":
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def iconst(t):
    """python int if the term is a constant, else None"""
    if t.op == "ip" and not t.args[1]:
        return t.args[0]
    return None


def iadd(a, b):
    a, b = I(a), I(b)
    ca, ta = _parts(a)
    cb, tb = _parts(b)
    for m, c in tb.items():
        ta[m] = ta.get(m, 0) + c
    return _fold_divmod(ca + cb, ta)


def _fold_divmod(const, ta):
    """Recombine  C*div(r,C) + mod(r,C)  into r."""
    changed = True
    while changed:
        changed = False
        for m, c in list(ta.items()):
            if c == 0:
                continue
            for pos, a in enumerate(m):
                if a.op == "imod":
                    r, d = a.args
                    rest = m[:pos] + m[pos + 1:]
                    # look for c * rest * d * div(r,d)
                    dc, dt = _parts(d)
                    dv = mk("idiv", (r, d), "I")
                    need = {}
                    ok = True
                    if dc:
                        mm = tuple(sorted(rest + (dv,), key=lambda x: x.id))
                        need[mm] = need.get(mm, 0) + c * dc
                    for dm, dcc in dt.items():
                        mm = tuple(sorted(rest + (dv,) + dm, key=lambda x: x.id))
                        need[mm] = need.get(mm, 0) + c * dcc
                    for mm, cc in need.items():
                        if ta.get(mm, 0) != cc:
                            ok = False
                    if ok and need:
                        for mm in need:
                            ta.pop(mm)
                        ta.pop(m)
                        rp = imul(r, _ip(0, {rest: c}) if rest else I(c))
                        rc, rt = _parts(rp)
                        const += rc
                        for mm, cc in rt.items():
                            ta[mm] = ta.get(mm, 0) + cc
                        changed = True
                        break
            if changed:
                break
    return _ip(const, ta)


def ineg(a):
    a = I(a)
    c, t = _parts(a)
    return _ip(-c, {m: -k for m, k in t.items()})


def isub(a, b):
    return iadd(a, ineg(b))


def imul(a, b):
    a, b = I(a), I(b)
    ca, ta = _parts(a)
    cb, tb = _parts(b)
    ta = dict(ta)
    tb = dict(tb)
    if ca:
        ta[()] = ca
    if cb:
        tb[()] = cb
    res = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            c = c1 * c2
            if sum(x.op == "ipow2" for x in m) > 1:
                e = isum_list([x.args[0] for x in m if x.op == "ipow2"])
                m = [x for x in m if x.op != "ipow2"]
                pc, pt = _parts(pow2(e))
                if pt:
                    (pm, pk), = pt.items()
                    m, c = m + list(pm), c * pk
                else:
                    c = c * pc
                m = tuple(sorted(m, key=lambda x: x.id))
            if isinstance(c, Fraction) and c.denominator == 1:
                c = int(c)
            res[m] = res.get(m, 0) + c
    const = res.pop((), 0)
    return _fold_divmod(const, res)


def isum_list(xs):
    r = I(0)
    for x in xs:
        r = iadd(r, x)
    return r


def iprod_list(xs):
    r = I(1)
    for x in xs:
        r = imul(r, x)
    return r


def pow2(e):
    e = I(e)
    c, t = _parts(e)
    k = iconst(e)
    if k is not None:
        return I(2 ** k) if k >= 0 else I(Fraction(1, 2 ** -k))
    if c != 0:
        return imul(I(2 ** c if c > 0 else Fraction(1, 2 ** -c)), pow2(_ip(0, t)))
    return mk("ipow2", (e,), "I")


def iite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return mk("iite", (c, a, b), "I")


# range oracle, set by the context (ctx.py): decides 0 <= r < d
_range_oracle = [None]


def in_range(r, d):
    rc, dc = iconst(r), iconst(d)
    if rc is not None and dc is not None:
        return 0 <= rc < dc
    if _range_oracle[0] is not None:
        return _range_oracle[0](r, d)
    return False


def _divide(r, d):
    """Split r = q*d + rem syntactically (rem has no monomial divisible by d)."""
    dc, dt = _parts(d)
    if dc == 0 and len(dt) == 1:
        (dm, dk), = dt.items()
        rc, rt = _parts(r)
        q, rem = {}, {}
        qc, remc = 0, rc
        if not dm:
            raise AssertionError
        for m, c in rt.items():
            l = list(m)
            ok = True
            for a in dm:
                if a in l:
                    l.remove(a)
                else:
                    ok = False
                    break
            if ok and c % dk == 0:
                mm = tuple(l)
                if mm:
                    q[mm] = q.get(mm, 0) + c // dk
                else:
                    qc += c // dk
            else:
                rem[m] = c
        return _ip(qc, q), _ip(remc, rem)
    if not dt:
        rc, rt = _parts(r)
        q, rem = {}, {}
        for m, c in rt.items():
            q[m], cc = c // dc, c % dc
            if cc:
                rem[m] = cc
        return _ip(rc // dc, q), _ip(rc % dc, rem)
    # polynomial divisor: only the exact multiple 1*d (try)
    rc, rt = _parts(r)
    lead = max(dt.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0])))
    q = I(0)
    for _ in range(8):
        hit = None
        rc, rt = _parts(r)
        for m, c in rt.items():
            l = list(m)
            ok = True
            for a in lead[0]:
                if a in l:
                    l.remove(a)
                else:
                    ok = False
                    break
            if ok and c % lead[1] == 0:
                hit = _ip(0, {tuple(l): c // lead[1]}) if l else I(c // lead[1])
                break
        if hit is None:
            break
        r2 = isub(r, imul(hit, d))
        if len(_parts(r2)[1]) > len(rt) + 1:
            break
        q, r = iadd(q, hit), r2
    return q, r


def _halve(r, kd):
    """r / kd when every monomial of r has a large enough power of two."""
    c, ts = _parts(r)
    if c or not ts:
        return None
    q = {}
    for m, co in ts.items():
        e = next((x.args[0] for x in m if x.op == "ipow2"), None)
        if e is None:
            return None
        v = Fraction(co) / kd
        k = v.denominator.bit_length() - 1
        if v.denominator != 1 << k:
            return None
        if k and not _entails[0](ile(I(k), e)):
            return None
        q[m] = int(v) if v.denominator == 1 else v
    return _ip(0, q)


_entails = [lambda c: False]


def idivmod(r, d):
    r, d = I(r), I(d)
    kr, kd = iconst(r), iconst(d)
    if kd == 0:
        raise Unsupported("division by zero")
    if kd == 1:
        return r, I(0)
    if kr is not None and kd is not None:
        return I(kr // kd), I(kr % kd)
    if kd is not None and kd > 1 and kd & (kd - 1) == 0:
        x = _halve(r, kd)
        if x is not None:
            return x, I(0)
    q, rem = _divide(r, d)
    if in_range(rem, d):
        return q, rem
    # nested: mod(mod(x, a*d), d)
    # try borrowing one: rem in [-d, 0) or [d, 2d)
    if in_range(iadd(rem, d), d):
        return isub(q, I(1)), iadd(rem, d)
    if in_range(isub(rem, d), d):
        return iadd(q, I(1)), isub(rem, d)
    dv = mk("idiv", (rem, d), "I")
    md = mk("imod", (rem, d), "I")
    return iadd(q, dv), md


def idiv(r, d):
    return idivmod(r, d)[0]


def imod(r, d):
    return idivmod(r, d)[1]


def uint(name, *args):
    """Uninterpreted integer function."""
    return mk("iu", (name, tuple(I(a) for a in args)), "I")


# ---------------------------------------------------------------- booleans
TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")


def B(x):
    if isinstance(x, T):
        return x
    return TRUE if x else FALSE


def ilt0(p):  # p < 0
    k = iconst(p)
    if k is not None:
        return B(k < 0)
    c, ts = _parts(p)
    if c == 0 and len(ts) == 1:
        (m, q), = ts.items()
        if q == -1 and len(m) == 1 and m[0].op == "isum":
            # a positive number of True entries: there is one
            n, v, b = open_binder(m[0], "x")
            if b.op == "iite" and iconst(b.args[1]) == 1 and iconst(b.args[2]) == 0:
                return exists(n, v, b.args[0])
    return mk("ilt0", (p,), "B")


def ilt(a, b):
    return ilt0(isub(a, b))


def ile(a, b):
    return ilt0(isub(isub(a, b), I(1)))


def ieq(a, b):
    p = isub(a, b)
    k = iconst(p)
    if k is not None:
        return B(k == 0)
    n = ineg(p)
    if n.id < p.id:
        p = n
    return mk("ieq0", (p,), "B")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def band(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out, key=lambda t: t.id)), "B")


def bor(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(sorted(out, key=lambda t: t.id)), "B")


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bu(name, *args):
    return mk("bu", (name, tuple(I(a) for a in args)), "B")


# ---------------------------------------------------------------- reals
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant")
        return Fraction(repr(x))
    raise Unsupported(f"constant {x!r}")


def R(x):
    if isinstance(x, T):
        if x.sort == "R":
            return x
        if x.sort == "I":
            return fromint(x)
        return rite(x, R(1), R(0))
    return mk("rc", (frac(x),), "R")


def rconst(t):
    return t.args[0] if t.op == "rc" else None


def fromint(t):
    k = iconst(t)
    if k is not None:
        return R(k)
    return mk("fromint", (t,), "R")


def app(name, idx=(), args=()):
    """Uninterpreted real function: int indices and real arguments."""
    return mk("u", (name, tuple(I(i) for i in idx), tuple(R(a) for a in args)), "R")


def radd(*xs):
    out = []
    c = Fraction(0)
    for x in xs:
        if x.op == "rc":
            c += x.args[0]
        elif x.op == "add":
            for y in x.args:
                if y.op == "rc":
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0:
        out.append(R(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(sorted(out, key=lambda t: t.id)), "R")


def rmul(*xs):
    out = []
    c = Fraction(1)
    for x in xs:
        if x.op == "rc":
            c *= x.args[0]
        elif x.op == "mul":
            for y in x.args:
                if y.op == "rc":
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if not out:
        return R(c)
    if c != 1:
        out.append(R(c))
    if len(out) == 1:
        return out[0]
    return mk("mul", tuple(sorted(out, key=lambda t: t.id)), "R")


def rneg(x):
    return rmul(R(-1), x)


def rsub(a, b):
    if a is b:
        return ZERO
    return radd(a, rneg(b))


def rdiv(a, b):
    if b.op == "rc":
        if b.args[0] == 0:
            return mk("div", (a, b), "R")
        return rmul(a, R(1 / b.args[0]))
    if a is ZERO and b.op == "u" and _pos_oracle[0](b):
        return ZERO
    return mk("div", (a, b), "R")


_pos_oracle = [lambda b: False]


def rpow(b, e):
    k = rconst(e)
    if k is not None:
        if k == 0:
            return ONE
        if k == 1:
            return b
        kb = rconst(b)
        if kb is not None and k.denominator == 1 and kb != 0:
            return R(kb ** int(k))
        if k.denominator == 1 and 0 < k <= 4:
            return rmul(*([b] * int(k)))
    if b is ONE:
        return ONE
    return mk("pow", (b, e), "R")


def rexp(x):
    if x is ZERO:
        return ONE
    return mk("exp", (x,), "R")


def rlog(x):
    if x is ONE:
        return ZERO
    return mk("log", (x,), "R")


def rfloor(x):
    """Largest integer below x, as an integer term."""
    k = rconst(x)
    if k is not None:
        return I(k.numerator // k.denominator)
    return mk("floor", (x,), "I")


def rtanh(x):
    return mk("tanh", (x,), "R")


def rcosh(x):
    return mk("cosh", (x,), "R")


def rsqrt(x):
    return mk("sqrt", (x,), "R")


def rite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return rite(c.args[0], b, a)
    return mk("ite", (c, a, b), "R")


def rgt0(x):
    k = rconst(x)
    if k is not None:
        return B(k > 0)
    return mk("rgt0", (x,), "B")


def rlt(a, b):
    return rgt0(rsub(b, a))


def rle(a, b):
    return bnot(rgt0(rsub(a, b)))


def req(a, b):
    d = rsub(a, b)
    k = rconst(d)
    if k is not None:
        return B(k == 0)
    return mk("req0", (d,), "B")


def rabs(x):
    k = rconst(x)
    if k is not None:
        return R(abs(k))
    # canonical: abs(-x) == abs(x)
    return rite(rgt0(x), x, rneg(x))


def rsign(x):
    k = rconst(x)
    if k is not None:
        return R((k > 0) - (k < 0))
    return rite(rgt0(x), ONE, rite(rgt0(rneg(x)), R(-1), ZERO))


def rmax(a, b):
    return rite(rgt0(rsub(a, b)), a, b)


def rmin(a, b):
    return rite(rgt0(rsub(b, a)), a, b)


ZERO = mk("rc", (Fraction(0),), "R")
ONE = mk("rc", (Fraction(1),), "R")


# ---------------------------------------------------------------- binders
def _close(var, body):
    """Return (level, body') binding var."""
    l = level(body) + 1
    return l, subst(body, {var: bv(l)})


def rsum(n, var, body):
    """Sum over var in [0,n) of body."""
    k = iconst(n)
    if k is not None and k <= 24:
        return radd(*[subst(body, {var: I(i)}) for i in range(k)]) if k else ZERO
    if var not in fv(body):
        return rmul(fromint(n), body)
    # range split on a condition  var < c
    l, b = _close(var, body)
    return mk("sum", (l, n, b), "R")


def isum(n, var, body):
    k = iconst(n)
    if k is not None and k <= 24:
        return isum_list([subst(body, {var: I(i)}) for i in range(k)])
    if var not in fv(body):
        return imul(n, body)
    l, b = _close(var, body)
    return mk("isum", (l, n, b), "I")


def forall(n, var, body):
    k = iconst(n)
    if k is not None and k <= 24:
        return band(*[subst(body, {var: I(i)}) for i in range(k)])
    if var not in fv(body):
        return bor(ile(n, I(0)), body)
    l, b = _close(var, body)
    return mk("forall", (l, n, b), "B")


def exists(n, var, body):
    return bnot(forall(n, var, bnot(body)))


def open_binder(t, prefix="j"):
    """Return (n, var, body) with a fresh variable."""
    l, n, b = t.args
    v = fresh_ivar(prefix)
    return n, v, subst(b, {bv(l): v})


def inst(t, val):
    """Body of a binder at a given value."""
    l, n, b = t.args
    return subst(b, {bv(l): I(val)})


# ---------------------------------------------------------------- rebuild
def rebuild(t, f):
    """Rebuild t with children mapped by f (f : T -> T), re-simplifying."""
    op = t.op
    a = t.args
    if op in ("iv", "bv", "true", "false", "rc"):
        return t
    if op == "ip":
        r = I(a[0])
        for m, c in a[1]:
            x = I(c)
            for at in m:
                x = imul(x, f(at))
            r = iadd(r, x)
        return r
    if op == "ipow2":
        return pow2(f(a[0]))
    if op == "idiv":
        return idiv(f(a[0]), f(a[1]))
    if op == "imod":
        return imod(f(a[0]), f(a[1]))
    if op == "iite":
        return iite(f(a[0]), f(a[1]), f(a[2]))
    if op == "iu":
        return mk("iu", (a[0], tuple(f(x) for x in a[1])), "I")
    if op == "ilt0":
        return ilt0(f(a[0]))
    if op == "ieq0":
        return ieq(f(a[0]), I(0))
    if op == "not":
        return bnot(f(a[0]))
    if op == "and":
        return band(*[f(x) for x in a])
    if op == "or":
        return bor(*[f(x) for x in a])
    if op == "bu":
        return mk("bu", (a[0], tuple(f(x) for x in a[1])), "B")
    if op == "rgt0":
        return rgt0(f(a[0]))
    if op == "req0":
        return req(f(a[0]), ZERO)
    if op == "fromint":
        return fromint(f(a[0]))
    if op == "u":
        return mk("u", (a[0], tuple(f(x) for x in a[1]), tuple(f(x) for x in a[2])), "R")
    if op == "uf":
        # function with vector (lambda) arguments: name, int idx, real args, lambda args
        return mk("uf", (a[0], tuple(f(x) for x in a[1]), tuple(f(x) for x in a[2]),
                         tuple(f(x) for x in a[3])), "R")
    if op == "add":
        return radd(*[f(x) for x in a])
    if op == "mul":
        return rmul(*[f(x) for x in a])
    if op == "div":
        return rdiv(f(a[0]), f(a[1]))
    if op == "pow":
        return rpow(f(a[0]), f(a[1]))
    if op == "exp":
        return rexp(f(a[0]))
    if op == "log":
        return rlog(f(a[0]))
    if op == "tanh":
        return rtanh(f(a[0]))
    if op == "cosh":
        return rcosh(f(a[0]))
    if op == "floor":
        return rfloor(f(a[0]))
    if op == "sqrt":
        return rsqrt(f(a[0]))
    if op == "ite":
        return rite(f(a[0]), f(a[1]), f(a[2]))
    raise Unsupported(f"rebuild {op}")


_binder_mk = {"sum": rsum, "isum": isum, "forall": forall}


def subst(t, m):
    """Capture-avoiding substitution of int variables."""
    keys = frozenset(m)
    if not (fv(t) & keys):
        return t
    cache = {}

    def go(t):
        if not (fv(t) & keys):
            return t
        r = cache.get(t)
        if r is not None:
            return r
        if t.op in ("iv", "bv"):
            r = m.get(t, t)
        elif t.op == "lam":
            l, b = t.args
            v = fresh_ivar("c")
            b2 = go2(subst(b, {bv(l): v}))
            r = lam(v, b2)
        elif t.op in BINDERS:
            l, n, b = t.args
            v = fresh_ivar("c")
            b2 = go2(subst(b, {bv(l): v}))
            r = _binder_mk[t.op](go(n), v, b2)
        else:
            r = rebuild(t, go)
        cache[t] = r
        return r

    def go2(t):
        return subst(t, m)

    return go(t)


def lam(var, body):
    l, b = _close(var, body)
    return mk("lam", (l, b), body.sort)


def lam_app(t, val):
    l, b = t.args
    return subst(b, {bv(l): I(val)})


def transform(t, f, cache=None):
    """Bottom-up map over all subterms; f gets the rebuilt node."""
    if cache is None:
        cache = {}

    def go(t):
        r = cache.get(t)
        if r is not None:
            return r
        if t.op == "lam":
            l, b = t.args
            v = fresh_ivar("c")
            r = lam(v, transform(subst(b, {bv(l): v}), f))
        elif t.op in BINDERS:
            l, n, b = t.args
            v = fresh_ivar("c")
            r = _binder_mk[t.op](go(n), v, transform(subst(b, {bv(l): v}), f))
        else:
            r = rebuild(t, go)
        r = f(r)
        cache[t] = r
        return r

    return go(t)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 60:
        return "..."
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "iv":
        return str(a[0])
    if o == "bv":
        return f"κ{a[0]}"
    if o == "ip":
        parts = []
        for m, c in a[1]:
            b = "*".join(s(x) for x in m)
            parts.append(b if c == 1 else f"{c}*{b}")
        if a[0] or not parts:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if o == "rc":
        return str(a[0])
    if o in ("u", "iu", "bu"):
        idx = ",".join(s(x) for x in a[1])
        ar = ",".join(s(x) for x in a[2]) if o == "u" and a[2] else ""
        return f"{a[0]}[{idx}]" + (f"({ar})" if ar else "")
    if o == "uf":
        return (f"{a[0]}[{','.join(s(x) for x in a[1])}]({','.join(s(x) for x in a[2])};"
                f"{','.join(s(x) for x in a[3])})")
    if o == "add":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if o == "mul":
        return "*".join(s(x) for x in a)
    if o == "div":
        return f"({s(a[0])} / {s(a[1])})"
    if o == "pow":
        return f"({s(a[0])} ^ {s(a[1])})"
    if o in ("ite", "iite"):
        return f"ite({s(a[0])}, {s(a[1])}, {s(a[2])})"
    if o == "rgt0":
        return f"{s(a[0])}>0"
    if o == "req0":
        return f"{s(a[0])}==0"
    if o == "ilt0":
        return f"{s(a[0])}<0"
    if o == "ieq0":
        return f"{s(a[0])}==0"
    if o == "lam":
        return f"λκ{a[0]}.{s(a[1])}"
    if o in BINDERS:
        return f"{o}(κ{a[0]}<{s(a[1])}: {s(a[2])})"
    return f"{o}({', '.join(s(x) for x in a)})"


# extra ops registered by name
def ufapp(name, idx, args, lams):
    return mk("uf", (name, tuple(I(i) for i in idx), tuple(R(a) for a in args), tuple(lams)), "R")


def side_conditions(t, newvar):
    """Pairs (guards, condition) under which evaluating t stays inside the domains of its operations."""
    out, seen = [], set()

    def go(t, g):
        if (t, g) in seen:
            return
        seen.add((t, g))
        o, a = t.op, t.args
        if o == "ite":
            go(a[0], g)
            go(a[1], g + (a[0],))
            go(a[2], g + (bnot(a[0]),))
            return
        if o == "sum":
            v = newvar("s", a[1])
            go(subst(a[2], {bv(a[0]): v}), g)
            return
        if o == "div":
            out.append((g, bnot(req(a[1], ZERO))))
        elif o == "pow":
            k = rconst(a[1])
            if k is not None and k.denominator == 1:
                if k < 0:
                    out.append((g, bnot(req(a[0], ZERO))))
            else:
                out.append((g, bor(rgt0(a[0]), band(rle(ZERO, a[0]), rle(ZERO, a[1])))))
        elif o == "log":
            out.append((g, rgt0(a[0])))
        elif o == "sqrt":
            out.append((g, rle(ZERO, a[0])))
        if o in ("lam", "uf", "forall", "exists"):
            return
        for c in children(t):
            if c.sort != "I":
                go(c, g)
    go(t, ())
    return out
