"""Tensors some of whose entries may be NaN: a value and a mask of the entries that are not numbers.

Arithmetic with a NaN is NaN, an ordered comparison with a NaN is false, a reduction over a NaN is NaN; the
result of a division by zero is arbitrary, possibly NaN.  What is not defined here is unsupported."""
from . import stensor as st
from . import terms as tm
from . import ctx as cx
from .terms import Unsupported, ZERO


class Ext:
    __array_priority__ = 1000

    def __init__(self, val, nan):
        if len(val.dims) != len(nan.dims) or not all(st.eqdim(a, b) for a, b in zip(val.dims, nan.dims)):
            raise Unsupported("NaN mask of another shape")
        self.val, self.nan = val, nan

    shape = property(lambda s: s.val.shape)
    ndim = property(lambda s: s.val.ndim)
    dims = property(lambda s: s.val.dims)
    dtype = property(lambda s: s.val.dtype)
    device = property(lambda s: s.val.device)
    T = property(lambda s: Ext(s.val.T, s.nan.T))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of a tensor that may hold NaN")

    def dim(self):
        return self.val.dim()

    def size(self, *a):
        return self.val.size(*a)

    def clone(self, *a, **k):
        return Ext(self.val.clone(), self.nan.clone())

    def __bool__(self):
        raise Unsupported("truth of a tensor that may hold NaN")

    def __getitem__(self, k):
        return Ext(self.val[k], self.nan[k])

    def norm(self, p=2, dim=None, keepdim=False, **k):
        return norm(self, p, dim, keepdim)


def split(x):
    return (x.val, x.nan) if isinstance(x, Ext) else (x, None)


def either(*m):
    r = None
    for x in m:
        if x is not None:
            r = x if r is None else st.logical_or(r, x)
    return r


def lift(val, nan):
    """Ext of a value and a mask that broadcasts to it."""
    return Ext(val, st.logical_or(nan, st.full(val.shape, False, dtype=st.DType("b"))))


def _same(m):
    def f(s, *a, **k):
        return Ext(getattr(s.val, m)(*a, **k), getattr(s.nan, m)(*a, **k))
    return f


for _m in "unsqueeze squeeze reshape view transpose expand flatten contiguous movedim permute".split():
    setattr(Ext, _m, _same(_m))
for _m in "detach to double float cpu requires_grad_ type_as".split():
    setattr(Ext, _m, lambda s, *a, **k: s)


def arith(f, *a):
    v = [split(x) for x in a]
    return lift(f(*[x for x, _ in v]), either(*[m for _, m in v]))


def div(a, b):
    r = arith(st.div, a, b)
    d, _ = split(b)
    if isinstance(d, (int, float)) and d != 0:
        return r
    z = (d if isinstance(d, st.STensor) else st.scalar(d)) == 0
    name = f"dz!{st._next()}"
    free = st.STensor.new(r.val.dims, lambda i: tm.bu(name, *i), "b")
    val = st.STensor.new(r.val.dims, lambda i: tm.app(name + "v", i), "f")
    return Ext(st.where(z, val, r.val), st.logical_or(r.nan, st.logical_and(z, free)))


def compare(f, a, b, default=False):
    (x, m), (y, n) = split(a), split(b)
    r, m = f(x, y), either(m, n)
    return st.logical_or(r, m) if default else st.logical_and(r, st.logical_not(m))


import operator as op  # noqa: E402

for _n, _f in (("add", st.add), ("sub", st.sub), ("mul", st.mul)):
    setattr(Ext, f"__{_n}__", lambda s, o, f=_f: arith(f, s, o))
    setattr(Ext, f"__r{_n}__", lambda s, o, f=_f: arith(f, o, s))
    setattr(Ext, _n, lambda s, o, f=_f: arith(f, s, o))
Ext.__truediv__ = Ext.div = lambda s, o: div(s, o)
Ext.__rtruediv__ = lambda s, o: div(o, s)
Ext.__neg__ = lambda s: arith(st.neg, s)
Ext.__abs__ = Ext.abs = lambda s: arith(st.tabs, s)


def power(s, p):
    if p != 2:
        raise Unsupported("power of a tensor that may hold NaN")
    return arith(st.mul, s, s)


Ext.__pow__ = Ext.pow = power
Ext.square = lambda s: arith(st.mul, s, s)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    _f = getattr(op, _n)
    setattr(Ext, f"__{_n}__", lambda s, o, f=_f, d=_n == "ne": compare(f, s, o, d))
    setattr(Ext, _n, getattr(Ext, f"__{_n}__"))
Ext.__hash__ = None


def inplace(*a, **k):
    raise Unsupported("change in place of a tensor that may hold NaN")


for _n in ("iadd", "isub", "imul", "itruediv", "ipow", "setitem"):
    setattr(Ext, f"__{_n}__", inplace)


def isnan(x):
    return x.nan.clone()


def isfinite(x):
    return st.logical_not(x.nan)


def reduce(f, x, dim=None, keepdim=False, **k):
    return Ext(f(x.val, dim, keepdim), st.tany(x.nan, dim, keepdim) if dim is not None else st.tany(x.nan))


def norm(x, p=2, dim=None, keepdim=False, **k):
    p = k.pop("ord", p)
    if p not in (2, 2.0, "fro", None) or k:
        raise Unsupported("norm order")
    return reduce(st.norm_, x, dim, keepdim)


def sqrt(x):
    return lift(st.tsqrt(x.val), st.logical_or(x.nan, x.val < 0))


def where(c, a, b):
    (x, m), (y, n) = split(a), split(b)
    no = st.full((), False, dtype=st.DType("b"))
    return lift(st.where(c, x, y), st.where(c, no if m is None else m, no if n is None else n))


st.norm_ = lambda x, dim, keepdim: st.norm(x, 2, dim, keepdim)
Ext.isnan, Ext.isfinite, Ext.sqrt = isnan, isfinite, sqrt
Ext.sum = lambda s, dim=None, keepdim=False: reduce(st.tsum, s, dim, keepdim)
Ext.mean = lambda s, dim=None, keepdim=False: reduce(st.tmean, s, dim, keepdim)
FUNCTIONS = dict(
    norm=norm, isnan=isnan, isfinite=isfinite, sqrt=sqrt, where=where, clone=Ext.clone, abs=Ext.abs, absolute=Ext.abs,
    square=Ext.square, pow=power, add=lambda a, b: arith(st.add, a, b), sub=lambda a, b: arith(st.sub, a, b),
    subtract=lambda a, b: arith(st.sub, a, b), mul=lambda a, b: arith(st.mul, a, b), multiply=lambda a, b: arith(st.mul, a, b),
    div=div, divide=div, sum=Ext.sum, mean=Ext.mean,
    gt=lambda a, b: compare(op.gt, a, b), greater=lambda a, b: compare(op.gt, a, b), lt=lambda a, b: compare(op.lt, a, b),
    ge=lambda a, b: compare(op.ge, a, b), le=lambda a, b: compare(op.le, a, b), eq=lambda a, b: compare(op.eq, a, b),
    unsqueeze=lambda x, d: x.unsqueeze(d), squeeze=lambda x, *d: x.squeeze(*d))


def install(torch, linalg):
    """Route calls with a possibly-NaN tensor among the arguments here."""
    def wrap(f, n):
        e = FUNCTIONS.get(n)

        def g(*a, **k):
            if any(type(x) is Ext for x in a) or (k and any(type(x) is Ext for x in k.values())):
                if e is None:
                    raise Unsupported(f"torch.{n} of a tensor that may hold NaN")
                return e(*a, **k)
            return f(*a, **k)
        g.__name__ = n
        return g
    for n, f in list(torch.__dict__.items()):
        if callable(f) and not isinstance(f, type) and not n.startswith("_"):
            torch.__dict__[n] = wrap(f, n)
    for n in ("norm", "vector_norm"):
        f = linalg.__dict__[n]
        linalg.__dict__[n] = wrap(f, "norm")
