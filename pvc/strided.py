"""as_strided restricted to re-arrangements of whole rows of a contiguous block of memory.

A tensor of shape (P, Q, inner...) whose rows (the inner parts) lie one after the other in memory is seen as
rows R[0..N); as_strided with outer strides (a*S, b*S), S the size of a row, and unchanged inner strides is the
view (p, q) -> R[a p + b q].  Everything else is unsupported."""
from . import terms as tm
from . import ctx as cx
from . import stensor as st
from .terms import I, Unsupported


class InnerStride:
    """Stride inside the rows of a factorization (column major): only usable as it is."""

    def __init__(self, d):
        self.d = d

    def __mul__(self, o):
        raise Unsupported("arithmetic on the inner strides of a factorization")

    __rmul__ = __add__ = __radd__ = __mul__


class Rows:
    def __init__(self, n, fwd, bwd, inner):
        self.n, self.fwd, self.bwd, self.inner = n, fwd, bwd, inner


def rowsize(inner):
    return tm.iprod_list(list(inner))


def rows_of(t):
    if getattr(t, "rows", None) is not None:
        return t.rows[0]
    if t.contig is not tm.TRUE and (t.contig is tm.FALSE or not cx.cur().decide(t.contig)):
        raise Unsupported("as_strided of a non-contiguous tensor")
    if len(t.dims) < 2:
        raise Unsupported("as_strided rank")
    P, Q = t.dims[:2]
    F = t.fwd or (lambda i: i)
    B = t.bwd or (lambda s: (tm.TRUE, s))
    if tm.iconst(P) == 1:
        def fwd(i):
            return F((I(0),) + i)

        def bwd(s):
            c, i = B(s)
            return c, i[1:]
    else:
        def fwd(i):
            q, m = tm.idivmod(i[0], Q)
            return F((q, m) + i[1:])

        def bwd(s):
            c, i = B(s)
            return c, (tm.iadd(tm.imul(i[0], Q), i[1]),) + i[2:]
    return Rows(tm.imul(P, Q), fwd, bwd, t.dims[2:])


def stride(t):
    """Strides of a row view or a contiguous tensor; inner strides of a factorization stay opaque."""
    from .shim import LU
    if getattr(t, "rows", None) is not None:
        R, a, b = t.rows
        S = rowsize(R.inner)
        out = [tm.imul(a, S), tm.imul(b, S)]
        k0 = 2
    else:
        if t.contig is not tm.TRUE and (t.contig is tm.FALSE or not cx.cur().decide(t.contig)):
            raise Unsupported("strides of a non-contiguous tensor")
        k0, out = 0, []
    n = len(t.dims)
    full = []
    p = I(1)
    for x in reversed(t.dims):
        full.append(p)
        p = tm.imul(p, x)
    full = full[::-1]
    out = [st.wi(x) for x in out] + [st.wi(x) for x in full[k0:]]
    if isinstance(t, LU):
        out[-2:] = [InnerStride(n - 2 - n), InnerStride(-1)]
    return tuple(out)


def _quot(s, S):
    """s / S for an exact multiple."""
    if tm.iconst(S) == 1:
        return s
    q, r = tm._divide(s, S)
    if r is not I(0) and tm.iconst(r) != 0:
        raise Unsupported("stride that is not a whole number of rows")
    return q


def as_strided(t, size, strd, offset=None):
    from .shim import LU
    if offset is not None:
        raise Unsupported("as_strided with an offset")
    if len(size) != len(t.dims) or len(strd) != len(size):
        raise Unsupported("as_strided changes the number of dimensions")
    c = cx.cur()
    R = rows_of(t)
    inner = [st.as_iT(x) for x in size[2:]]
    for x, y in zip(inner, R.inner):
        if x is not y and not c.entails(tm.ieq(x, y)):
            raise Unsupported("as_strided changes the rows")
    mine = stride(t)[2:]
    for x, y in zip(strd[2:], mine):
        if isinstance(x, InnerStride) or isinstance(y, InnerStride):
            ok = isinstance(x, InnerStride) and isinstance(y, InnerStride) and x.d == y.d
        else:
            ok = st.as_iT(x) is st.as_iT(y) or c.entails(tm.ieq(st.as_iT(x), st.as_iT(y)))
        if not ok:
            raise Unsupported("as_strided changes the strides inside a row")
    S = rowsize(R.inner)
    a, b = _quot(st.as_iT(strd[0]), S), _quot(st.as_iT(strd[1]), S)
    return rowview(t, R, st.as_iT(size[0]), st.as_iT(size[1]), a, b)


def rowview(t, R, P, Q, a, b):
    c = cx.cur()
    # stays inside the rows of t
    last = tm.iadd(tm.imul(tm.isub(P, I(1)), a), tm.imul(tm.isub(Q, I(1)), b))
    if not c.entails(tm.band(tm.ile(I(1), P), tm.ile(I(1), Q), tm.ilt(last, R.n))):
        raise Unsupported("as_strided reaches outside the tensor")

    def row(p, q):
        return tm.iadd(tm.imul(a, p), tm.imul(b, q))

    def fwd(i):
        return R.fwd((row(i[0], i[1]),) + tuple(i[2:]))
    bwd = None
    if tm.iconst(a) == 1 and (P is b or c.entails(tm.ieq(P, b))):
        full = c.entails(tm.ieq(tm.imul(P, Q), R.n))

        def bwd(s):
            cond, i = R.bwd(s)
            q, p = tm.idivmod(i[0], b)
            inr = tm.TRUE if full else tm.ilt(q, Q)
            return tm.band(cond, inr), (p, q) + tuple(i[1:])
    v = st.STensor(t.st, (P, Q) + tuple(R.inner), fwd, bwd, t.dtype, tm.FALSE, t.writable and bwd is not None)
    v.rows = (R, a, b)
    return v
