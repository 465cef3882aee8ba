"""Further torch operations, defined in terms of stensor.py (used mostly by rewritten code)."""
from . import stensor as st
from . import terms as tm
from .terms import I, R, ZERO, Unsupported
from . import ctx as cx

T = st.STensor
new = T.new


def t_(x):
    return x if isinstance(x, T) else (x.flat() if isinstance(x, st.Masked) else st.scalar(x))


def wrapidx(j, n):
    return tm.iite(tm.ilt(j, I(0)), tm.iadd(j, n), j)


def gather(x, dim, index, **k):
    d = x._ax(dim)
    if len(index.dims) != len(x.dims):
        raise st.ShapeError("gather: rank")
    s, js = x.snap(), index.snap()
    return new(index.dims, lambda i: s(i[:d] + (js(i),) + i[d + 1:]), x.dtype)


def index_select(x, dim, index):
    d = x._ax(dim)
    s, js = x.snap(), index.snap()
    return new(x.dims[:d] + index.dims + x.dims[d + 1:], lambda i: s(i[:d] + (js((i[d],)),) + i[d + 1:]), x.dtype)


def take_along_dim(x, index, dim):
    d = x._ax(dim)
    lead = [a if k == d else None for k, a in enumerate(index.dims)]
    xd = [I(1) if k == d else a for k, a in enumerate(x.dims)]
    idd = [I(1) if k == d else a for k, a in enumerate(index.dims)]
    b = st.bdims(tuple(xd), tuple(idd))
    shp = tuple(index.dims[d] if k == d else b[k] for k in range(len(b)))
    xs = tuple(x.dims[d] if k == d else b[k] for k in range(len(b)))
    return gather(x.expand(*[st.wi(a) for a in xs]), d, index.expand(*[st.wi(a) for a in shp]))


def narrow(x, dim, start, length):
    d = x._ax(dim)
    return x[(slice(None),) * d + (slice(start, start + length),)]


def select(x, dim, index):
    d = x._ax(dim)
    return x[(slice(None),) * d + (index,)]


def split(x, size, dim=0):
    d = x._ax(dim)
    if isinstance(size, (list, tuple)):
        out, p = [], 0
        for s in size:
            out.append(narrow(x, d, p, s))
            p = p + s
        return tuple(out)
    n = tm.iconst(x.dims[d])
    k = size if isinstance(size, int) else tm.iconst(st.as_iT(size))
    if n is None or k is None:
        raise Unsupported("split of a symbolic size")
    return tuple(narrow(x, d, a, min(k, n - a)) for a in range(0, n, k))


def chunk(x, k, dim=0):
    n = tm.iconst(x.dims[x._ax(dim)])
    if n is None:
        raise Unsupported("chunk of a symbolic size")
    return split(x, -(-n // k), dim)


def unbind(x, dim=0):
    d = x._ax(dim)
    n = tm.iconst(x.dims[d])
    if n is None:
        raise Unsupported("unbind of a symbolic size")
    return tuple(select(x, d, a) for a in range(n))


def cumsum(x, dim):
    d = x._ax(dim)
    s = x.snap()
    n = x.dims[d]

    def get(i):
        v = cx.cur().new_var("c", n)
        b = s(i[:d] + (v,) + i[d + 1:])
        if x.dtype == "f":
            return tm.rsum(n, v, tm.rite(tm.ile(v, i[d]), R(b), ZERO))
        b = tm.iite(b, I(1), I(0)) if b.sort == "B" else b
        return tm.isum(n, v, tm.iite(tm.ile(v, i[d]), b, I(0)))
    return new(x.dims, get, "f" if x.dtype == "f" else "i")


def roll(x, k, dims=None):
    if dims is None or isinstance(k, (tuple, list)):
        raise Unsupported("roll")
    d = x._ax(dims)
    s, n, k = x.snap(), x.dims[d], st.as_iT(k)
    return new(x.dims, lambda i: s(i[:d] + (tm.imod(tm.isub(i[d], k), n),) + i[d + 1:]), x.dtype)


def masked_fill(x, m, v):
    return st.where(m, t_(v) if not isinstance(v, T) else v, x)


def searchsorted(seq, v, right=False, side=None, **k):
    right = right or side == "right"
    v = t_(v)
    if len(seq.dims) == 1:
        a, b = seq, v.unsqueeze(-1)
    else:
        a, b = seq.unsqueeze(-2), v.unsqueeze(-1)
    return st.tsum((a <= b) if right else (a < b), dim=-1)


def bucketize(v, seq, right=False, **k):
    return searchsorted(seq, v, right=right)


def lerp(a, b, w):
    return a + w * (b - a)


def addcmul(a, b, c, value=1):
    return a + value * b * c


def addcdiv(a, b, c, value=1):
    return a + value * b / c


def baddbmm(a, b, c, beta=1, alpha=1):
    return beta * a + alpha * st.bmm(b, c)


def logspace(a, b, steps, base=10.0, **k):
    return base ** st.linspace(a, b, steps)


def outer(a, b):
    return a.unsqueeze(-1) * b.unsqueeze(0)


def swap(x, a, b):
    return x.transpose(a, b)


def tile(x, *r):
    if len(r) == 1 and isinstance(r[0], (tuple, list)):
        r = tuple(r[0])
    return x.repeat(*((1,) * max(0, len(x.dims) - len(r)) + tuple(r)))


def first_index(x, d, name):
    """Index of the first True along axis d of a boolean tensor, 0 if there is none (argmax of booleans).
    Resolved with the engine's known positions: each one used is proved not to come after the first True,
    and a True entry is proved to exist at one of them whenever there is one at all."""
    from . import nf
    c = cx.cur()
    dims, n, s = x.dims[:d] + x.dims[d + 1:], x.dims[d], x.snap()
    at = lambda i, w: s(i[:d] + (w,) + i[d:])
    idx = tuple(c.new_var("p", q) for q in dims)
    k = c.new_var("k", n)
    for cand in c.engine.unique_candidates(dims, n, all_=True):
        ok = [q for q, w in enumerate(cand(idx)) if nf.prove_bool(
            tm.bnot(tm.band(tm.ile(I(0), w), tm.ilt(w, n), tm.ilt(k, w), at(idx, k))), c).ok]
        hit = lambda i, w: tm.band(tm.ile(I(0), w), tm.ilt(w, n), at(i, w))
        if ok and nf.prove_bool(tm.bor(tm.bnot(at(idx, k)), *[hit(idx, cand(idx)[q]) for q in ok]), c).ok:
            def get(i):
                r = I(0)
                for q in reversed(ok):
                    w = cand(i)[q]
                    r = tm.iite(hit(i, w), w, r)
                return r
            return st.STensor.new(dims, get, "i")
    raise Unsupported(f"{name} of a boolean tensor")


def extremum(x, d, op):
    """max/min over an axis of symbolic size: an uninterpreted functional of the entries along the axis."""
    from . import nf
    dims, n, s = x.dims[:d] + x.dims[d + 1:], x.dims[d], x.snap()
    name = f"a{op}~{n.id}"
    nf.UFDIM[name] = (n,)

    def get(i):
        v = tm.fresh_ivar("m")
        cx.cur().varfacts[v] = [tm.ile(I(0), v), tm.ilt(v, n)]
        return tm.ufapp(name, (), (), (tm.lam(v, R(s(i[:d] + (v,) + i[d:]))),))
    return new(dims, get, "f")


class NoIndex:
    def __getattr__(self, n):
        raise Unsupported("position of an extremum")


def red(x, dim, keepdim, op, name):
    """max/min over an axis."""
    d = x._ax(dim)
    n = tm.iconst(x.dims[d])
    if n is None or n < 1 or n > 24:
        ix = NoIndex()
        if x.dtype == "b" and op == "max":
            r, ix = st.tany(x, d), first_index(x, d, name)
            ix = ix.unsqueeze(d) if keepdim else ix
        elif x.dtype == "f":
            r = extremum(x, d, op)
        else:
            raise Unsupported(f"{name} over a symbolic axis")
        return MaxRes(r.unsqueeze(d) if keepdim else r, ix)
    r = select(x, d, 0)
    ix = st.zeros(r.shape, dtype=st.DType("i"))
    for a in range(1, n):
        y = select(x, d, a)
        better = (y > r) if op == "max" else (y < r)
        r, ix = st.where(better, y, r), st.where(better, st.scalar(a), ix)
    if keepdim:
        r, ix = r.unsqueeze(d), ix.unsqueeze(d)
    return MaxRes(r, ix)


class MaxRes(tuple):
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def tmax(x, dim=None, keepdim=False, **k):
    if isinstance(dim, T):
        return st.maximum(x, dim)
    if dim is None:
        return symax(x)
    return red(x, dim, keepdim, "max", "max")


def imax(x, op):
    """Largest/smallest entry of an integer tensor: bounds every entry and is one of them."""
    c = cx.cur()
    s = x.snap()
    m = tm.fresh_ivar("top")
    w = tuple(c.new_var("w", d) for d in x.dims)
    c.assume(tm.ieq(m, s(w)))
    vs = tuple(tm.fresh_ivar("q") for _ in x.dims)
    b = tm.ile(s(vs), m) if op == "max" else tm.ile(m, s(vs))
    for v, d in reversed(list(zip(vs, x.dims))):
        b = tm.forall(d, v, b)
    c.assume(b)
    return st.STensor.new((), lambda i: m, "i")


def symax(x):
    if len(x.dims) == 0:
        return x
    if x.dtype == "i":
        return imax(x, "max")
    if len(x.dims) == 1 and tm.iconst(x.dims[0]) is not None:
        return red(x, 0, False, "max", "max").values
    raise Unsupported("torch.max reduction")


def tmin(x, dim=None, keepdim=False, **k):
    if isinstance(dim, T):
        return st.minimum(x, dim)
    if dim is None:
        if x.dtype == "i" and x.dims:
            return imax(x, "min")
        if len(x.dims) == 1:
            return red(x, 0, False, "min", "min").values
        raise Unsupported("torch.min reduction")
    return red(x, dim, keepdim, "min", "min")


def cmp(op):
    return lambda a, b: op(t_(a), b)


def install(torch):
    import operator as o
    F = dict(gather=gather, index_select=index_select, take_along_dim=take_along_dim, narrow=narrow, select=select,
             split=split, chunk=chunk, unbind=unbind, cumsum=cumsum, roll=roll, masked_fill=masked_fill,
             lerp=lerp, addcmul=addcmul, addcdiv=addcdiv, baddbmm=baddbmm, outer=outer, ger=outer,
             swapaxes=swap, swapdims=swap, moveaxis=lambda x, a, b: x.movedim(a, b), tile=tile,
             lt=cmp(o.lt), le=cmp(o.le), gt=cmp(o.gt), ge=cmp(o.ge), ne=cmp(o.ne), eq=cmp(o.eq),
             less=cmp(o.lt), less_equal=cmp(o.le), greater=cmp(o.gt), greater_equal=cmp(o.ge), not_equal=cmp(o.ne),
             true_divide=lambda a, b: a / b, rsub=lambda a, b, alpha=1: b - alpha * a,
             clamp_min=lambda x, v: st.clamp(x, min=v), clamp_max=lambda x, v: st.clamp(x, max=v),
             negative=lambda x: -x, log1p=lambda x: st.tlog(1 + x), expm1=lambda x: st.texp(x) - 1,
             rsqrt=lambda x: x ** -0.5, exp2=lambda x: 2.0 ** x, sinh=lambda x: (st.texp(x) - st.texp(-x)) / 2,
             reciprocal=lambda x: 1.0 / x, max=tmax, min=tmin, amax=lambda x, dim, keepdim=False: red(x, dim, keepdim, "max", "amax").values,
             amin=lambda x, dim, keepdim=False: red(x, dim, keepdim, "min", "amin").values,
             mv=lambda a, b: (a @ b.unsqueeze(-1)).squeeze(-1), mm=lambda a, b: a @ b,
             inner=lambda a, b: st.tsum(a * b, -1), dot=lambda a, b: st.tsum(a * b, -1),
             remainder=lambda a, b: st.remainder(a, b), flip=st.flip, relu=torch.relu,
             maximum=st.maximum, minimum=st.minimum, logical_and=st.logical_and, logical_or=st.logical_or,
             logical_not=st.logical_not, isnan=st.isnan, log10=st.log10, cosh=st.tcosh, nan_to_num=st.nan_to_num,
             diag_embed=st.diag_embed, positive=lambda x: x, any=st.tany, all=st.tall, argmax=torch.argmax,
             where=None)
    for n, f in F.items():
        if f is None:
            continue
        if n not in torch.__dict__ or n in ("max", "min"):
            setattr(torch, n, f)
        if not hasattr(T, n):
            setattr(T, n, f)
    torch.searchsorted, torch.bucketize = searchsorted, bucketize
    if not hasattr(T, "where"):
        T.where = lambda self, c, o: st.where(c, self, o)
    T.new_full = lambda self, size, v, **k: st.full(size, v)
    T.new_tensor = lambda self, v, **k: st.tensor(v)
    T.new_ones = lambda self, *s, **k: st.ones(*s)
    T.new_empty = lambda self, *s, **k: st.empty(*s)
    T.size = T.size
    torch.addmm = lambda a, b, c, beta=1, alpha=1: beta * a + alpha * (b @ c)
    torch.linalg.matmul = lambda a, b: a @ b
    torch.logspace = logspace
    torch.hypot = lambda a, b: st.tsqrt(a * a + b * b)
    torch.expand_copy = lambda x, s: x.expand(*s).clone()
    torch.atleast_1d = lambda x: x if len(x.dims) else x.unsqueeze(0)
    torch.outer = outer
    torch.trapezoid = _unsupported("trapezoid")


def _unsupported(n):
    def f(*a, **k):
        raise Unsupported(f"torch.{n}")
    return f
