"""Symbolic tensors: torch semantics over terms, with symbolic sizes, storages
and aliasing views.  Every operation is defined elementwise; nothing is bounded."""
import builtins
import math as _math
from fractions import Fraction

from . import terms as tm
from .terms import T, R, I, Unsupported, TRUE, FALSE, ZERO, ONE
from . import ctx as cx


class ShapeError(RuntimeError):
    """torch would raise here."""


# ------------------------------------------------------------------ python scalars
def as_iT(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return I(int(x))
    if isinstance(x, int):
        return I(x)
    if isinstance(x, T) and x.sort == "I":
        return x
    if isinstance(x, STensor) and x.dtype == "i" and not x.dims:
        return x.at(())
    if hasattr(x, "__index__"):
        return I(int(x.__index__()))
    raise Unsupported(f"integer expected, got {type(x)}")


def wi(t):
    """Wrap an int term for python code."""
    k = tm.iconst(t)
    return k if k is not None else SymInt(t)


class SymBool:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cx.cur().decide(self.t)

    def __and__(self, o):
        return SymBool(tm.band(self.t, as_bT(o)))

    def __or__(self, o):
        return SymBool(tm.bor(self.t, as_bT(o)))

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SymBool(tm.bnot(self.t))


def as_bT(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return tm.B(x)
    if isinstance(x, STensor) and not x.dims:
        return x.bterm(())
    raise Unsupported("boolean expected")


def wb(t):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return SymBool(t)


class SymInt:
    """A python int of unknown value."""

    def __init__(self, t):
        self.t = t

    def _bin(self, o, f):
        if isinstance(o, (SymInt, int)) and not isinstance(o, bool):
            return wi(f(self.t, as_iT(o)))
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, float):
            return SymReal(tm.radd(tm.fromint(self.t), R(o)))
        return self._bin(o, tm.iadd)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return SymReal(tm.rsub(tm.fromint(self.t), R(o)))
        return self._bin(o, tm.isub)

    def __rsub__(self, o):
        if isinstance(o, float):
            return SymReal(tm.rsub(R(o), tm.fromint(self.t)))
        return self._bin(o, lambda a, b: tm.isub(b, a))

    def __mul__(self, o):
        if isinstance(o, float):
            return SymReal(tm.rmul(tm.fromint(self.t), R(o)))
        if isinstance(o, (list, tuple)):
            raise Unsupported("symbolic repetition")
        return self._bin(o, tm.imul)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return self._bin(o, tm.idiv)

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: tm.idiv(b, a))

    def __mod__(self, o):
        return self._bin(o, tm.imod)

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: tm.imod(b, a))

    def __truediv__(self, o):
        return SymReal(tm.rdiv(tm.fromint(self.t), as_rT(o)))

    def __rtruediv__(self, o):
        return SymReal(tm.rdiv(as_rT(o), tm.fromint(self.t)))

    def __neg__(self):
        return wi(tm.ineg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if cx.cur().decide(tm.ile(I(0), self.t)) else -self

    def __rpow__(self, o):
        if o == 2:
            return wi(tm.pow2(self.t))
        raise Unsupported("symbolic exponent")

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            return wi(tm.iprod_list([self.t] * o))
        raise Unsupported("symbolic power")

    def _cmp(self, o, f, g):
        if isinstance(o, (SymInt, int)):
            return wb(f(self.t, as_iT(o)))
        if isinstance(o, (float, SymReal)):
            return wb(g(tm.fromint(self.t), as_rT(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, tm.ilt, tm.rlt)

    def __le__(self, o):
        return self._cmp(o, tm.ile, tm.rle)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.ilt(b, a), lambda a, b: tm.rlt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.ile(b, a), lambda a, b: tm.rle(b, a))

    def __eq__(self, o):
        if isinstance(o, (SymInt, int)):
            return wb(tm.ieq(self.t, as_iT(o)))
        return False

    def __ne__(self, o):
        if isinstance(o, (SymInt, int)):
            return wb(tm.bnot(tm.ieq(self.t, as_iT(o))))
        return True

    def __hash__(self):
        return hash(("SymInt", self.t.id))

    def __bool__(self):
        return cx.cur().decide(tm.bnot(tm.ieq(self.t, I(0))))

    def __index__(self):
        raise Unsupported("concrete value of a symbolic integer")

    def __int__(self):
        raise Unsupported("concrete value of a symbolic integer")

    def __float__(self):
        raise Unsupported("concrete value of a symbolic integer")

    def bit_length(self):
        """n.bit_length() for n >= 1: the b with 2^(b-1) <= n < 2^b."""
        return wi(bitlen(self.t))

    def __repr__(self):
        return f"SymInt({self.t!r})"


def bitlen(n):
    c0, ts = tm._parts(n)
    if c0 == 0 and len(ts) == 1:
        (m, k), = ts.items()
        k = Fraction(k)
        if len(m) == 1 and m[0].op == "ipow2" and k > 0 and 1 in (k.numerator, k.denominator):
            x = k.numerator if k.denominator == 1 else k.denominator
            if x & (x - 1) == 0:
                # a power of two (at least one)
                e = x.bit_length() - 1
                return tm.iadd(m[0].args[0], I(1 + (e if k.denominator == 1 else -e)))
    c = cx.cur()
    if "bitlen" not in c.decl:
        def facts(t):
            x = t.args[1][0]
            b1 = tm.isub(t, I(1))
            return [tm.bor(tm.ilt(x, I(1)),
                           tm.band(tm.ile(I(1), t), tm.ile(tm.pow2(b1), x), tm.ilt(x, tm.pow2(t))))]
        c.decl["bitlen"] = {"facts": facts}
    return tm.uint("bitlen", n)


def as_rT(x):
    if isinstance(x, T):
        return R(x)
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return tm.fromint(x.t)
    if isinstance(x, (int, float, Fraction)):
        return R(x)
    if isinstance(x, STensor) and x.ndim_() == 0:
        return x.rterm(())
    if hasattr(x, "item") and not isinstance(x, STensor):
        return R(x.item())
    raise Unsupported(f"real expected, got {type(x)}")


class SymReal:
    """A python float of unknown value."""

    def __init__(self, t):
        self.t = t

    def _b(self, o, f):
        if isinstance(o, STensor):
            return NotImplemented
        if isinstance(o, (int, float, SymReal, SymInt)):
            t = f(self.t, as_rT(o))
            return SymReal(t)
        return NotImplemented

    def __add__(self, o):
        return self._b(o, tm.radd)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, tm.rsub)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: tm.rsub(b, a))

    def __mul__(self, o):
        return self._b(o, tm.rmul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, tm.rdiv)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: tm.rdiv(b, a))

    def __pow__(self, o):
        return self._b(o, tm.rpow)

    def __rpow__(self, o):
        return self._b(o, lambda a, b: tm.rpow(b, a))

    def __neg__(self):
        return SymReal(tm.rneg(self.t))

    def __abs__(self):
        return SymReal(tm.rabs(self.t))

    def __lt__(self, o):
        return self._c(o, tm.rlt)

    def __le__(self, o):
        return self._c(o, tm.rle)

    def __gt__(self, o):
        return self._c(o, lambda a, b: tm.rlt(b, a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: tm.rle(b, a))

    def _c(self, o, f):
        if isinstance(o, STensor):
            return NotImplemented
        return wb(f(self.t, as_rT(o)))

    def __eq__(self, o):
        if isinstance(o, (int, float, SymReal, SymInt)):
            return wb(tm.req(self.t, as_rT(o)))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (int, float, SymReal, SymInt)):
            return wb(tm.bnot(tm.req(self.t, as_rT(o))))
        return NotImplemented

    def __hash__(self):
        return hash(("SymReal", self.t.id))

    def __bool__(self):
        return cx.cur().decide(tm.bnot(tm.req(self.t, ZERO)))

    def __float__(self):
        k = tm.rconst(self.t)
        if k is not None:
            return float(k)
        raise Unsupported("concrete value of a symbolic real")

    def __repr__(self):
        return f"SymReal({self.t!r})"


class Size(tuple):
    def numel(self):
        return wi(tm.iprod_list([as_iT(x) for x in self]))

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return Size(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))


# ------------------------------------------------------------------ storages
_serial = [0]


def serial():
    return _serial[0]


class Storage:
    __slots__ = ("dims", "get", "version", "name", "memo", "frozen", "maybe_alias", "serial", "kids")

    def __init__(self, dims, get, name=None):
        _serial[0] += 1
        self.serial = _serial[0]
        self.dims = tuple(dims)
        self.version = 0
        self.name = name
        self.maybe_alias = None
        self.kids = None
        self.set(get)

    def poison(self):
        def get(i):
            raise Unsupported("read of a tensor that a write through a possible alias may have changed")
        self.set(get)

    def written(self):
        """Called on every write: storages that may share memory become unreadable."""
        for before, managed in cx.cur().guards:
            if self.serial <= before and not any(self is m for m in managed):
                raise Unsupported("loop body writes a tensor that the loop contract does not cover")
        if self.maybe_alias is not None:
            src, cond = self.maybe_alias
            if cond is not FALSE and not cx.cur().entails(tm.bnot(cond)):
                self.maybe_alias = None
                src.written()
                src.poison()
        for k in self.kids or ():
            if k.maybe_alias is not None and k.maybe_alias[0] is self:
                cond = k.maybe_alias[1]
                if cond is not FALSE and not cx.cur().entails(tm.bnot(cond)):
                    k.poison()

    def set(self, get):
        memo = {}

        def g(idx):
            r = memo.get(idx)
            if r is None:
                r = get(idx)
                memo[idx] = r
            return r

        self.get = g


_tn = [0]


def eqdim(a, b):
    """Dims equal?  decided (forks if needed)."""
    if a is b:
        return True
    e = tm.ieq(a, b)
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    return cx.cur().decide(e)


def isone(d):
    k = tm.iconst(d)
    if k is not None:
        return k == 1
    return False


CUTS = [0]       # tensors taken off the autograd graph so far


class STensor:
    """dtype: 'f' reals, 'i' integers, 'b' booleans."""

    def __init__(self, st, dims, fwd=None, bwd=None, dtype="f", contig=TRUE, writable=True):
        self.st = st
        self.dims = tuple(dims)
        self.fwd = fwd          # None = identity
        self.bwd = bwd
        self.dtype = dtype
        self.contig = contig
        self.writable = writable
        self.requires_grad = False
        self.grad_fn = None

    # ---- construction
    @staticmethod
    def new(dims, get, dtype="f", name=None):
        return STensor(Storage(dims, get, name), dims, dtype=dtype)

    # ---- access
    def at(self, idx):
        idx = tuple(idx)
        if len(idx) != len(self.dims):
            raise Unsupported("rank mismatch")
        return self.st.get(idx if self.fwd is None else self.fwd(idx))

    def rterm(self, idx):
        return R(self.at(idx))

    def bterm(self, idx):
        x = self.at(idx)
        if x.sort == "B":
            return x
        if x.sort == "I":
            return tm.bnot(tm.ieq(x, I(0)))
        return tm.bnot(tm.req(x, ZERO))

    def snap(self):
        """Immutable element function (values as of now)."""
        g, f = self.st.get, self.fwd
        if f is None:
            return g
        return lambda idx: g(f(idx))

    def ndim_(self):
        return len(self.dims)

    # ---- attributes
    @property
    def shape(self):
        return Size(wi(d) for d in self.dims)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return len(self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    def numel(self):
        return self.shape.numel()

    @property
    def device(self):
        return DEVICE

    @property
    def is_sparse(self):
        return False

    @property
    def data(self):
        return self

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of a 0-d tensor")
        k = tm.iconst(self.dims[0])
        if k is None:
            raise Unsupported("len of symbolic dimension")
        return k

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d tensor")
        k = tm.iconst(self.dims[0])
        if k is None:
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[i] for i in range(k)])

    def __bool__(self):
        if len(self.dims) and not all(isone(d) for d in self.dims):
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return cx.cur().decide(self.bterm((I(0),) * len(self.dims)))

    def __float__(self):
        if not self.dims:
            k = tm.rconst(self.rterm(()))
            if k is not None:
                return float(k)
        raise Unsupported("concrete value of a symbolic tensor")

    def item(self):
        CUTS[0] += 1
        x = self.at((I(0),) * len(self.dims))
        if x.sort == "R":
            k = tm.rconst(x)
            return float(k) if k is not None else SymReal(x)
        if x.sort == "I":
            return wi(x)
        return wb(x)

    def __index__(self):
        x = self.at((I(0),) * len(self.dims))
        k = tm.iconst(x) if x.sort == "I" else None
        if k is None:
            raise Unsupported("concrete value of a symbolic tensor")
        return k

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"STensor{self.dims!r}"

    # ---- views
    def _view(self, dims, f, b, contig=FALSE, writable=None):
        """f: new idx -> my idx ; b: my idx -> (cond, new idx)"""
        F, Bk = self.fwd, self.bwd
        fwd = f if F is None else (lambda idx: F(f(idx)))
        if b is None:
            bwd = None
        elif Bk is None:
            bwd = b
        else:
            def bwd(s):
                c1, i1 = Bk(s)
                c2, i2 = b(i1)
                return tm.band(c1, c2), i2
        w = self.writable and b is not None if writable is None else writable
        return STensor(self.st, dims, fwd, bwd, self.dtype, contig, w)

    def _ax(self, d):
        n = len(self.dims)
        d = int(d)
        if d < -n or d >= n:
            raise IndexError(f"dimension {d} out of range for {n}-d tensor")
        return d % n

    def unsqueeze(self, d):
        n = len(self.dims) + 1
        if d < -n or d >= n:
            raise IndexError("unsqueeze dim out of range")
        d = d % n
        return self._view(self.dims[:d] + (I(1),) + self.dims[d:],
                          lambda i: i[:d] + i[d + 1:],
                          lambda i: (TRUE, i[:d] + (I(0),) + i[d:]), self.contig)

    def squeeze(self, d=None):
        if d is None:
            t = self
            for k in reversed(range(len(self.dims))):
                if eqdim(t.dims[k], I(1)):
                    t = t._drop(k)
            return t
        d = self._ax(d)
        if eqdim(self.dims[d], I(1)):
            return self._drop(d)
        return self

    def _drop(self, d):
        return self._view(self.dims[:d] + self.dims[d + 1:],
                          lambda i: i[:d] + (I(0),) + i[d:],
                          lambda i: (TRUE, i[:d] + i[d + 1:]), self.contig)

    def permute(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        p = [self._ax(x) for x in p]
        if sorted(p) != list(range(len(self.dims))):
            raise RuntimeError("bad permutation")
        if p == list(range(len(p))):
            return self
        inv = [p.index(k) for k in range(len(p))]
        moved = [k for k in range(len(p)) if p[k] != k]
        # contiguous iff all but one of the moved dims have size 1 (adjacent swaps)
        alts = []
        for k in moved:
            alts.append(tm.band(*[tm.ieq(self.dims[j], I(1)) for j in moved if j != k]))
        contig = tm.band(self.contig, tm.bor(*alts))
        return self._view(tuple(self.dims[k] for k in p),
                          lambda i: tuple(i[k] for k in inv),
                          lambda i: (TRUE, tuple(i[k] for k in p)), contig)

    def transpose(self, a, b):
        a, b = self._ax(a), self._ax(b)
        p = list(range(len(self.dims)))
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    def t(self):
        if len(self.dims) < 2:
            return self
        if len(self.dims) > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return self.transpose(0, 1)

    @property
    def T(self):
        return self.permute(*reversed(range(len(self.dims))))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def movedim(self, s, d):
        s, d = self._ax(s), self._ax(d)
        p = list(range(len(self.dims)))
        p.remove(s)
        p.insert(d, s)
        return self.permute(*p)

    def expand(self, *sz):
        if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
            sz = tuple(sz[0])
        sz = list(sz)
        k = len(sz) - len(self.dims)
        if k < 0:
            raise ShapeError("expand: too few dims")
        new, one = [], []
        for j, s in enumerate(sz):
            if isinstance(s, int) and s == -1:
                if j < k:
                    raise ShapeError("expand -1 on new dim")
                new.append(self.dims[j - k])
                one.append(False)
                continue
            s = as_iT(s)
            if j < k:
                new.append(s)
                one.append(None)
            else:
                d = self.dims[j - k]
                if s is d:
                    new.append(s)
                    one.append(False)
                elif isone(d):
                    new.append(s)
                    one.append(True)
                elif eqdim(d, s):
                    new.append(s)
                    one.append(False)
                elif eqdim(d, I(1)):
                    new.append(s)
                    one.append(True)
                else:
                    raise ShapeError("expand: size mismatch")

        def f(i):
            return tuple(I(0) if one[j] else i[j] for j in range(k, len(new)))

        if not any(one[k:]) and k == 0:
            return self._view(tuple(new), f, lambda i: (TRUE, i), self.contig)
        return self._view(tuple(new), f, None, FALSE, False)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def broadcast_to(self, sz):
        return self.expand(*sz)

    def repeat(self, *r):
        if len(r) == 1 and isinstance(r[0], (tuple, list)):
            r = tuple(r[0])
        r = [as_iT(x) for x in r]
        k = len(r) - len(self.dims)
        if k < 0:
            raise ShapeError("repeat")
        old = [I(1)] * k + list(self.dims)
        new = [tm.imul(a, b) for a, b in zip(r, old)]
        s = self.snap()

        def get(i):
            out = []
            for j in range(k, len(new)):
                out.append(i[j] if tm.iconst(r[j]) == 1 else
                           (I(0) if isone(old[j]) else tm.imod(i[j], old[j])))
            return s(tuple(out))

        return STensor.new(new, get, self.dtype)

    def clone(self, *a, **k):
        return STensor.new(self.dims, self.snap(), self.dtype)

    def detach(self):
        CUTS[0] += 1
        return self

    @property
    def data(self):
        CUTS[0] += 1
        return self

    def contiguous(self, *a, **k):
        if self.contig is TRUE:
            return self
        if self.contig is not FALSE and cx.cur().decide(self.contig):
            t = STensor(self.st, self.dims, self.fwd, self.bwd, self.dtype, TRUE, self.writable)
            return t
        return self.clone()

    def is_contiguous(self):
        return wb(self.contig)

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, DType):
                return self.type(x)
        return self

    def type(self, dt):
        return cast(self, dt)

    def double(self):
        return cast(self, DType("f"))

    def float(self):
        return cast(self, DType("f", True))

    half = bfloat16 = float

    def int(self):
        return cast(self, DType("i"))

    long = int

    def bool(self):
        return cast(self, DType("b"))

    def cpu(self):
        return self

    def numpy(self):
        return self

    def type_as(self, o):
        return self

    # ---- reshape
    def _reshape_dims(self, sz):
        if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
            sz = tuple(sz[0])
        tot = tm.iprod_list(self.dims)
        new = []
        unk = None
        for j, s in enumerate(sz):
            if builtins.isinstance(s, builtins.int) and s == -1:
                unk = j
                new.append(None)
            else:
                new.append(as_iT(s))
        if unk is not None:
            rest = tm.iprod_list([x for x in new if x is not None])
            if tm.iconst(rest) == 0:
                raise ShapeError("cannot reshape with -1 and 0 size")
            q, r = tm.idivmod(tot, rest)
            if tm.iconst(r) != 0:
                if not cx.cur().entails(tm.ieq(r, I(0))):
                    raise ShapeError("reshape -1: not divisible")
            new[unk] = q
        else:
            p = tm.iprod_list(new)
            if p is not tot:
                e = tm.ieq(p, tot)
                if e is FALSE or not cx.cur().decide(e):
                    raise ShapeError(f"shape {tuple(new)} is invalid for input of size {tot}")
        return tuple(new)

    def reshape(self, *sz):
        new = self._reshape_dims(sz)
        if new == self.dims:
            return self
        f, b = reshape_maps(self.dims, new)
        if self.contig is TRUE:
            return self._view(new, f, b, TRUE)
        # only unit dims inserted / removed: always a view
        if [d for d in new if not isone(d)] == [d for d in self.dims if not isone(d)]:
            return self._view(new, f, b, self.contig)
        s = self.snap()
        r = STensor.new(new, lambda i: s(f(i)), self.dtype)
        r.st.maybe_alias = (self.st, self.contig)
        if self.contig is not FALSE:
            self.st.kids = (self.st.kids or []) + [r.st]
        return r

    def view(self, *sz):
        if len(sz) == 1 and isinstance(sz[0], DType):
            return self
        new = self._reshape_dims(sz)
        f, b = reshape_maps(self.dims, new)
        if self.contig is FALSE and [d for d in new if not isone(d)] != [d for d in self.dims if not isone(d)]:
            raise Unsupported("view of a tensor in another memory layout")
        return self._view(new, f, b, self.contig)

    def view_as(self, o):
        return self.view(*o.shape)

    def reshape_as(self, o):
        return self.reshape(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self.dims)
        if n == 0:
            return self.unsqueeze(0)
        a, b = self._ax(start_dim), self._ax(end_dim)
        if a == b:
            return self
        new = self.dims[:a] + (tm.iprod_list(self.dims[a:b + 1]),) + self.dims[b + 1:]
        return self.reshape(*[wi(d) for d in new])

    ravel = flatten

    def unflatten(self, d, sz):
        d = self._ax(d)
        return self.reshape(*[wi(x) for x in self.dims[:d]], *sz, *[wi(x) for x in self.dims[d + 1:]])

    def stride(self, d=None):
        from . import strided
        s = strided.stride(self)
        return s if d is None else s[d]

    # ---- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # count consumed dims
        used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (STensor, list)) and not isinstance(k, list) and k.dtype == "b":
                used += len(k.dims)
            elif isinstance(k, builtins.bool):
                raise Unsupported("bool index")
            else:
                used += 1
        n_el = builtins.sum(1 for k in key if k is Ellipsis)
        if n_el > 1:
            raise IndexError("more than one ellipsis")
        rest = len(self.dims) - used
        if rest < 0:
            raise IndexError("too many indices for tensor")
        if n_el == 0:
            key.append(Ellipsis)
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * rest
            else:
                out.append(k)
        return out

    def _basic(self, key):
        """Basic indexing part; returns view and list of advanced (pos, tensor)."""
        t = self
        pos = 0
        adv = []
        for k in key:
            if k is None:
                t = t.unsqueeze(pos)
                pos += 1
            elif isinstance(k, slice):
                t = t._slice(pos, k)
                pos += 1
            elif isinstance(k, STensor) and (k.dims or k.dtype == "b"):
                adv.append((pos, k))
                pos += len(k.dims) if k.dtype == "b" else 1
            elif isinstance(k, STensor):
                t = t._select(pos, wi(k.at(())), False)
            elif isinstance(k, (list, tuple)):
                adv.append((pos, tensor(list(k))))
                pos += 1
            elif isinstance(k, (builtins.int, SymInt)) or hasattr(k, "__index__"):
                t = t._select(pos, k)
            else:
                raise Unsupported(f"index {k!r}")
        return t, adv

    def _select(self, d, k, check=True):
        n = self.dims[d]
        k = as_iT(k)
        c = cx.cur()
        kc, nc = tm.iconst(k), tm.iconst(n)
        if kc is not None and nc is not None:
            if kc < -nc or kc >= nc:
                raise IndexError(f"index {kc} is out of bounds for dimension {d} with size {nc}")
            if kc < 0:
                k = I(kc + nc)
        else:
            if kc is not None and kc < 0:
                neg = True
            elif kc is not None:
                neg = False
            else:
                neg = c.decide(tm.ilt(k, I(0)))
            if neg:
                k = tm.iadd(k, n)
            if check and not c.decide(tm.band(tm.ile(I(0), k), tm.ilt(k, n))):
                raise IndexError(f"index {k!r} is out of bounds for dimension {d} with size {n!r}")
        contig = tm.band(self.contig, *[tm.ieq(x, I(1)) for x in self.dims[:d]])
        return self._view(self.dims[:d] + self.dims[d + 1:],
                          lambda i: i[:d] + (k,) + i[d:],
                          lambda i: (tm.ieq(i[d], k), i[:d] + i[d + 1:]), contig)

    def _clamp(self, x, n, default):
        if x is None:
            return default
        x = as_iT(x)
        kc, nc = tm.iconst(x), tm.iconst(n)
        if kc is not None and nc is not None:
            if kc < 0:
                kc += nc
            return I(builtins.max(0, builtins.min(kc, nc)))
        c = cx.cur()
        neg = (kc < 0) if kc is not None else c.decide(tm.ilt(x, I(0)))
        if neg:
            x = tm.iadd(x, n)
            if not c.decide(tm.ile(I(0), x)):
                return I(0)
            return x
        if kc == 0:
            return x
        if x is n or c.decide(tm.ile(x, n)):
            return x
        return n

    def _slice(self, d, s):
        n = self.dims[d]
        if s.step is not None and s.step != 1:
            return self._slice_step(d, s)
        if s.start is None and s.stop is None:
            return self
        a = self._clamp(s.start, n, I(0))
        b = self._clamp(s.stop, n, n)
        if a is I(0) and b is n:
            return self
        ln = tm.isub(b, a)
        k = tm.iconst(ln)
        if k is not None:
            ln = I(builtins.max(k, 0))
        elif not (tm.iconst(a) == 0) and not cx.cur().decide(tm.ile(a, b)):
            ln = I(0)
        contig = self.contig if d == 0 else tm.band(
            self.contig, *[tm.ieq(x, I(1)) for x in self.dims[:d]])
        return self._view(self.dims[:d] + (ln,) + self.dims[d + 1:],
                          lambda i: i[:d] + (tm.iadd(i[d], a),) + i[d + 1:],
                          lambda i: (tm.band(tm.ile(a, i[d]), tm.ilt(i[d], tm.iadd(a, ln))),
                                     i[:d] + (tm.isub(i[d], a),) + i[d + 1:]), contig)

    def _slice_step(self, d, s):
        n = self.dims[d]
        st = as_iT(s.step)
        k = tm.iconst(st)
        if k is None:
            raise Unsupported("symbolic slice step")
        if k < 0:
            raise ValueError("step must be greater than zero")
        a = self._clamp(s.start, n, I(0))
        b = self._clamp(s.stop, n, n)
        # len = ceil((b-a)/k)
        ln = tm.idiv(tm.iadd(tm.isub(b, a), I(k - 1)), st)
        return self._view(self.dims[:d] + (ln,) + self.dims[d + 1:],
                          lambda i: i[:d] + (tm.iadd(tm.imul(i[d], st), a),) + i[d + 1:],
                          lambda i: (tm.band(tm.ile(a, i[d]), tm.ilt(i[d], b),
                                             tm.ieq(tm.imod(tm.isub(i[d], a), st), I(0))),
                                     i[:d] + (tm.idiv(tm.isub(i[d], a), st),) + i[d + 1:]))

    def __getitem__(self, key):
        t, adv = self._basic(self._parse(key))
        if not adv:
            return t
        if len(adv) == 1 and adv[0][1].dtype == "b":
            return Masked(t, adv[0][0], adv[0][1])
        if any(a.dtype == "b" for _, a in adv):
            raise Unsupported("mixed mask indexing")
        return t._gather_adv(adv)

    def _gather_adv(self, adv):
        # integer advanced indexing
        ps = [p for p, _ in adv]
        contiguous = ps == list(range(ps[0], ps[0] + len(ps)))
        ts = broadcast_list([a for _, a in adv])
        bd = ts[0].dims
        snaps = [x.snap() for x in ts]
        s = self.snap()
        rest = [d for k, d in enumerate(self.dims) if k not in ps]
        ins = ps[0] if contiguous else 0
        nd = len(bd)
        dims = tuple(rest[:ins]) + bd + tuple(rest[ins:])
        selfdims = self.dims
        c = cx.cur()

        def get(i):
            bi = i[ins:ins + nd]
            ri = list(i[:ins] + i[ins + nd:])
            out = []
            for k in range(len(selfdims)):
                if k in ps:
                    v = snaps[ps.index(k)](bi)
                    kc = tm.iconst(v)
                    if kc is not None:
                        if kc < 0:
                            v = tm.iadd(v, selfdims[k])
                    else:
                        # negative values wrap around
                        st = c.implied(tm.ilt(v, I(0)))
                        if st is True:
                            v = tm.iadd(v, selfdims[k])
                        elif st is None:
                            v = tm.iite(tm.ilt(v, I(0)), tm.iadd(v, selfdims[k]), v)
                    out.append(v)
                else:
                    out.append(ri.pop(0))
            return s(tuple(out))

        return STensor.new(dims, get, self.dtype)

    def __setitem__(self, key, val):
        t, adv = self._basic(self._parse(key))
        if not adv:
            t.write(val)
            return
        if len(adv) == 1 and adv[0][1].dtype == "b":
            pos, mask = adv[0]
            t.write_masked(pos, mask, val)
            return
        if len(adv) == 1 and len(adv[0][1].dims) == 1 and tm.iconst(adv[0][1].dims[0]) is not None:
            # a constant number of positions along one axis: written one after the other
            p, ix = adv[0]
            n = tm.iconst(ix.dims[0])
            if isinstance(val, Masked):
                raise Unsupported("write of a masked selection")
            v = cast(val if isinstance(val, STensor) else scalar(val, t.dtype), DType(t.dtype))
            shp = t.dims[:p] + (I(n),) + t.dims[p + 1:]
            while len(v.dims) > len(shp) and isone(v.dims[0]):
                v = v[0]
            v = v.expand(*[wi(d) for d in shp]).clone()
            for q in range(n):
                k = ix.at((I(q),))
                kc = tm.iconst(k)
                if (kc is not None and kc < 0) or (kc is None and cx.cur().implied(tm.ile(I(0), k)) is not True):
                    raise Unsupported("assignment at a possibly negative position")
                t._select(p, wi(k)).write(v._select(p, q))
            return
        raise Unsupported("advanced integer assignment")

    def write(self, val):
        """In-place copy of val (broadcast) into this view."""
        if not self.writable:
            raise Unsupported("write through an expanded view")
        if isinstance(val, Masked):
            raise Unsupported("write of a masked selection")
        if not isinstance(val, STensor):
            val = scalar(val, self.dtype)
        val = cast(val, DType(self.dtype))
        # torch lets leading unit dims be dropped on assignment
        while len(val.dims) > len(self.dims) and isone(val.dims[0]):
            val = val[0]
        v = val.expand(*[wi(d) for d in self.dims]).snap()
        self._write_fn(lambda i, old: v(i))

    def _write_fn(self, fn):
        """fn(idx, oldvalue) -> new value."""
        st = self.st
        st.written()
        old = st.get
        bwd = self.bwd
        if bwd is None and self.fwd is None:
            st.set(lambda s: fn(s, lambda: old(s)))
        else:
            c = cx.cur()

            def get(s):
                cond, i = bwd(s)
                if cond is TRUE:
                    return fn(i, lambda: old(s))
                if cond is FALSE:
                    return old(s)
                d = c.implied(cond)
                if d is True:
                    return fn(i, lambda: old(s))
                if d is False:
                    return old(s)
                a, b = fn(i, lambda: old(s)), old(s)
                return ite_any(cond, a, b)

            st.set(get)
        st.version += 1

    def write_masked(self, pos, mask, val):
        nd = len(mask.dims)
        for k in range(nd):
            if not eqdim(mask.dims[k], self.dims[pos + k]):
                raise IndexError("mask shape mismatch")
        m = mask.snap()
        mb = lambda i: m(i)
        dt = self.dtype
        if isinstance(val, Masked):
            if val.pos != pos or not same_mask(val.mask, mask):
                raise Unsupported("assignment from a different mask")
            src = cast(val.base, DType(dt)).snap()
            for d1, d2 in zip(val.base.dims, self.dims):
                if not eqdim(d1, d2):
                    raise ShapeError("masked assignment shape mismatch")
        else:
            if not isinstance(val, STensor):
                val = scalar(val, dt)
            if val.dims and not (len(val.dims) == 1 and isone(val.dims[0])):
                raise Unsupported("masked assignment of a tensor")
            val = cast(val, DType(dt))
            v0 = val.at((I(0),) * len(val.dims))
            src = lambda i: v0
        self._write_fn(lambda i, old: ite_any(mb(i[pos:pos + nd]), src(i), old()))

    # ---- arithmetic
    def __add__(self, o):
        return binop("add", self, o)

    __radd__ = __add__

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else o * alpha)

    def __sub__(self, o):
        return binop("sub", self, o)

    def sub(self, o):
        return self - o

    def __rsub__(self, o):
        return binop("sub", o, self)

    def __mul__(self, o):
        return binop("mul", self, o)

    __rmul__ = __mul__

    def mul(self, o):
        return self * o

    def __truediv__(self, o):
        return binop("div", self, o)

    def div(self, o):
        return self / o

    def __rtruediv__(self, o):
        return binop("div", o, self)

    def __pow__(self, o):
        return binop("pow", self, o)

    def pow(self, o):
        return self ** o

    def square(self):
        return self * self

    def reciprocal(self):
        return 1.0 / self

    def __rpow__(self, o):
        return binop("pow", o, self)

    def __neg__(self):
        if self.dtype == "i":
            return ew("i", lambda a: tm.ineg(a), self)
        return ew("f", lambda a: tm.rneg(R(a)), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return tabs(self)

    def abs(self):
        return tabs(self)

    def sign(self):
        return tsign(self)

    def __matmul__(self, o):
        return matmul(self, o)

    def matmul(self, o):
        return matmul(self, o)

    def __mod__(self, o):
        return remainder(self, o)

    def _iop(self, op, o):
        r = binop(op, self, o)
        if self.dtype == "i" and r.dtype == "f":
            raise RuntimeError("result type Float can't be cast to the desired output type Long")
        if len(r.dims) != len(self.dims):
            raise ShapeError("in-place op changes the shape")
        for a, b in zip(r.dims, self.dims):
            if a is not b and not eqdim(a, b):
                raise ShapeError("in-place op changes the shape")
        self.write(r)
        return self

    def __iadd__(self, o):
        return self._iop("add", o)

    def __isub__(self, o):
        return self._iop("sub", o)

    def __imul__(self, o):
        return self._iop("mul", o)

    def __itruediv__(self, o):
        return self._iop("div", o)

    def __ipow__(self, o):
        return self._iop("pow", o)

    add_ = __iadd__
    sub_ = __isub__
    mul_ = __imul__
    div_ = __itruediv__

    def copy_(self, o):
        self.write(o)
        return self

    def fill_(self, v):
        self.write(v)
        return self

    def zero_(self):
        self.write(0.0)
        return self

    def neg_(self):
        self.write(-self)
        return self

    def __lt__(self, o):
        return cmpop("lt", self, o)

    def __le__(self, o):
        return cmpop("le", self, o)

    def __gt__(self, o):
        return cmpop("lt", o, self)

    def __ge__(self, o):
        return cmpop("le", o, self)

    def __eq__(self, o):
        return cmpop("eq", self, o)

    def __ne__(self, o):
        return logical_not(cmpop("eq", self, o))

    def __and__(self, o):
        return logical_and(self, o)

    def __or__(self, o):
        return logical_or(self, o)

    def __invert__(self):
        return logical_not(self)

    # ---- reductions & friends
    def sum(self, dim=None, keepdim=False, **k):
        return tsum(self, dim, keepdim)

    def mean(self, dim=None, keepdim=False):
        return tmean(self, dim, keepdim)

    def any(self, dim=None, keepdim=False):
        return tany(self, dim, keepdim)

    def all(self, dim=None, keepdim=False):
        return tall(self, dim, keepdim)

    def norm(self, p=2, dim=None, keepdim=False):
        return norm(self, p, dim, keepdim)

    def diff(self, n=1, dim=-1):
        return tdiff(self, dim=dim)

    def flip(self, *dims):
        return flip(self, *dims)

    def bmm(self, o):
        return bmm(self, o)

    def diagonal(self, offset=0, dim1=0, dim2=1):
        return diagonal(self, offset, dim1, dim2)

    def exp(self):
        return texp(self)

    def log(self):
        return tlog(self)

    def sqrt(self):
        return tsqrt(self)

    def tanh(self):
        return ttanh(self)

    def clamp(self, min=None, max=None):
        return clamp(self, min=min, max=max)

    clip = clamp

    def new_zeros(self, *sz, **k):
        return zeros(*sz)

    def as_strided(self, size, stride, storage_offset=None):
        from . import strided
        return strided.as_strided(self, size, stride, storage_offset)


def same_mask(a, b):
    """Two masks elementwise identical?"""
    if a is b:
        return True
    if len(a.dims) != len(b.dims):
        return False
    idx = tuple(tm.fresh_ivar("m") for _ in a.dims)
    for v, d in zip(idx, a.dims):
        cx.cur().varfacts[v] = [tm.ile(I(0), v), tm.ilt(v, d)]
    x, y = a.at(idx), b.at(idx)
    if x is y:
        return True
    c = cx.cur()
    return c.entails(tm.bor(tm.band(x, y), tm.band(tm.bnot(x), tm.bnot(y))))


class Masked:
    """base[mask]: elements of base where mask is true (unknown number)."""

    def __init__(self, base, pos, mask):
        self.base, self.pos, self.mask = base.clone(), pos, mask.clone()
        self.dtype = base.dtype
        self._tail = None

    def _map(self, f):
        return Masked(f(self.base), self.pos, self.mask)

    def _bin(self, o, f):
        if isinstance(o, Masked):
            if not same_mask(o.mask, self.mask) or o.pos != self.pos:
                raise Unsupported("arithmetic between different masks")
            return Masked(f(self.base, o.base), self.pos, self.mask)
        if isinstance(o, STensor) and o.dims:
            return f(self.flat(), o)
        return Masked(f(self.base, o), self.pos, self.mask)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    __itruediv__ = __truediv__
    __iadd__ = __add__
    __isub__ = __sub__
    __imul__ = __mul__

    def __neg__(self):
        return self._map(lambda a: -a)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: a ** b)

    # ---- unique-true selection
    def select_unique(self):
        """Elements when exactly one entry per leading index is True: one value per
        leading index in row-major order.  Emits the uniqueness obligation."""
        m = self.mask
        if self.pos != 0 or len(m.dims) != len(self.base.dims):
            raise Unsupported("masked selection")
        lead = m.dims[:-1]
        K = m.dims[-1]
        c = cx.cur()
        H = c.engine
        name = "selection by mask"
        ms, bs = m.snap(), self.base.snap()

        idx = tuple(c.new_var("p", d) for d in lead)

        def cond(i, w):
            return tm.band(tm.ile(I(0), w), tm.ilt(w, K), ms(i + (w,)))
        from . import nf
        cands = H.unique_candidates(lead, K)
        cand = cands[0]
        for x in cands[1:]:
            if nf.prove_bool(tm.bor(*[cond(idx, w) for w in cand(idx)]), c).ok:
                break
            cand = x
        H.prove(f"{name}: some entry is selected", tm.bor(*[cond(idx, w) for w in cand(idx)]))
        k1, k2 = c.new_var("k", K), c.new_var("k", K)
        H.prove(f"{name}: only one entry is selected",
                tm.bnot(tm.band(tm.ilt(k1, k2), ms(idx + (k1,)), ms(idx + (k2,)))))

        def get(i):
            ws = cand(i)
            r = bs(i + (ws[-1],))
            for w in reversed(ws[:-1]):
                r = tm.rite(cond(i, w), bs(i + (w,)), r) if r.sort == "R" else tm.iite(cond(i, w), bs(i + (w,)), r)
            return r

        return STensor.new(lead, get, self.dtype)

    def reshape(self, *sz):
        t = self.select_unique()
        return t.reshape(*sz)

    view = reshape

    def squeeze(self, d=None):
        t = self.select_unique()
        # selection is flat: one dim with prod(lead) elements; lead of the form (n,1) or (n,)
        flat = t.flatten() if len(t.dims) > 1 else t
        if d is not None and len(flat.dims) == 1:
            return flat.squeeze(d)
        return flat

    def flat(self):
        t = self.select_unique()
        return t.flatten() if len(t.dims) > 1 else t

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(STensor, n):
            raise Unsupported(f"masked selection .{n}")
        return getattr(self.flat(), n)

    def __getitem__(self, k):
        return self.flat()[k]


_nn = [0]


def _next():
    _nn[0] += 1
    return _nn[0]


class DType:
    def __init__(self, k, single=False):
        self.k = k
        self.single = single      # fewer digits than the data: results are rounded

    def __eq__(self, o):
        return o == self.k if isinstance(o, str) else isinstance(o, DType) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return {"f": "torch.float64", "i": "torch.int64", "b": "torch.bool"}[self.k]


class Device:
    type = "cpu"

    def __init__(self, *a):
        pass

    def __repr__(self):
        return "cpu"

    def __eq__(self, o):
        return isinstance(o, Device) or o == "cpu"

    def __hash__(self):
        return 1


DEVICE = Device()


def ite_any(c, a, b):
    if a.sort == "B" or b.sort == "B":
        return tm.bite(c, a, b)
    if a.sort == "I" and b.sort == "I":
        return tm.iite(c, a, b)
    return tm.rite(c, R(a), R(b))


def cast(x, dt):
    if isinstance(dt, str):
        dt = DType(dt)
    s = x.snap()
    if dt.single and x.dtype != "b":
        return STensor.new(x.dims, lambda i: tm.app("rounded", R(s(i))), "f")
    if x.dtype == dt.k:
        return x
    if dt.k == "f":
        return STensor.new(x.dims, lambda i: R(s(i)), "f")
    if dt.k == "i":
        if x.dtype == "b":
            return STensor.new(x.dims, lambda i: tm.iite(s(i), I(1), I(0)), "i")

        def g(i):
            t = s(i)
            k = tm.rconst(t)
            if k is not None and k.denominator == 1:
                return I(int(k))
            if t.op == "fromint":
                return t.args[0]
            raise Unsupported("float to int conversion")
        return STensor.new(x.dims, g, "i")
    return STensor.new(x.dims, lambda i: x.bterm(i), "b")


INF = tm.app("\u221e")


def scalar(v, dtype=None):
    if isinstance(v, builtins.float) and v in (builtins.float("inf"), -builtins.float("inf")):
        t = INF if v > 0 else tm.rneg(INF)
        return STensor.new((), lambda i: t, "f")
    if isinstance(v, STensor):
        return v
    if isinstance(v, builtins.bool):
        t, d = tm.B(v), "b"
    elif isinstance(v, (builtins.int, SymInt)):
        t, d = as_iT(v), "i"
    elif isinstance(v, SymBool):
        t, d = v.t, "b"
    else:
        t, d = as_rT(v), "f"
    if dtype == "f":
        t, d = R(t), "f"
    return STensor.new((), lambda i: t, d)


# ------------------------------------------------------------------ broadcasting
def bdims(*ds):
    n = builtins.max(len(d) for d in ds)
    out = []
    for k in range(n):
        cur_ = I(1)
        for d in ds:
            j = k - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if x is cur_ or isone(x):
                continue
            if isone(cur_):
                cur_ = x
                continue
            if eqdim(cur_, x):
                continue
            if eqdim(cur_, I(1)):
                cur_ = x
                continue
            if eqdim(x, I(1)):
                continue
            raise ShapeError(f"The size of tensor a ({cur_}) must match the size of tensor b ({x})")
        out.append(cur_)
    return tuple(out)


def bidx(src, dst, idx):
    """Index into a tensor of dims src for broadcast index idx of dims dst."""
    k = len(dst) - len(src)
    out = []
    for j, d in enumerate(src):
        if d is dst[j + k]:
            out.append(idx[j + k])
        elif isone(d):
            out.append(I(0))
        else:
            st = cx.cur().implied(tm.ieq(d, dst[j + k]))
            if st is True:
                out.append(idx[j + k])
            else:
                out.append(I(0))
    return tuple(out)


def broadcast_list(ts):
    d = bdims(*[t.dims for t in ts])
    out = []
    for t in ts:
        s, sd = t.snap(), t.dims
        out.append(STensor.new(d, lambda i, s=s, sd=sd: s(bidx(sd, d, i)), t.dtype))
    return out


def ew(dtype, f, *ts):
    ts = [t if isinstance(t, STensor) else scalar(t) for t in ts]
    if len(ts) == 1:
        s = ts[0].snap()
        return STensor.new(ts[0].dims, lambda i: f(s(i)), dtype)
    d = bdims(*[t.dims for t in ts])
    ss = [(t.snap(), t.dims) for t in ts]
    return STensor.new(d, lambda i: f(*[s(bidx(sd, d, i)) for s, sd in ss]), dtype)


def binop(op, a, b):
    if isinstance(a, Masked) or isinstance(b, Masked):
        if isinstance(a, Masked):
            return {"add": a.__add__, "sub": a.__sub__, "mul": a.__mul__, "div": a.__truediv__}[op](b)
        return {"add": b.__radd__, "sub": b.__rsub__, "mul": b.__rmul__}[op](a)
    if not isinstance(a, STensor):
        a = scalar(a)
    if not isinstance(b, STensor):
        b = scalar(b)
    ints = a.dtype in "ib" and b.dtype in "ib" and not (a.dtype == "b" and b.dtype == "b")
    if ints and op in ("add", "sub", "mul"):
        f = {"add": tm.iadd, "sub": tm.isub, "mul": tm.imul}[op]
        toI = lambda x: x if x.sort == "I" else tm.iite(x, I(1), I(0))
        return ew("i", lambda x, y: f(toI(x), toI(y)), a, b)
    f = {"add": tm.radd, "sub": tm.rsub, "mul": tm.rmul, "div": tm.rdiv, "pow": tm.rpow}[op]
    return ew("f", lambda x, y: f(R(x), R(y)), a, b)


def cmpop(op, a, b):
    if not isinstance(a, STensor):
        a = scalar(a)
    if not isinstance(b, STensor):
        b = scalar(b)
    if a.dtype == "i" and b.dtype == "i":
        f = {"lt": tm.ilt, "le": tm.ile, "eq": tm.ieq}[op]
        return ew("b", f, a, b)
    if a.dtype == "b" and b.dtype == "b" and op == "eq":
        return ew("b", lambda x, y: tm.bor(tm.band(x, y), tm.band(tm.bnot(x), tm.bnot(y))), a, b)
    f = {"lt": tm.rlt, "le": tm.rle, "eq": tm.req}[op]
    return ew("b", lambda x, y: f(R(x), R(y)), a, b)


# ------------------------------------------------------------------ functions
def _sz(sz):
    if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
        sz = tuple(sz[0])
    return tuple(as_iT(s) for s in sz)


def _dt(dtype, default="f"):
    if getattr(dtype, "single", False):
        raise Unsupported("single precision")
    return default if dtype is None else dtype if isinstance(dtype, str) else dtype.k


def const_tensor(dims, v, dt):
    t = R(v) if dt == "f" else I(v) if dt == "i" else tm.B(builtins.bool(v))
    return STensor.new(dims, lambda i: t, dt)


def zeros(*sz, size=None, dtype=None, device=None, requires_grad=False):
    return const_tensor(_sz(sz if size is None else (size,)), 0, _dt(dtype))


def ones(*sz, dtype=None, device=None, requires_grad=False):
    return const_tensor(_sz(sz), 1, _dt(dtype))


def full(sz, v, dtype=None, device=None):
    if isinstance(v, (STensor, SymReal, SymInt)):
        t = scalar(v, "f").at(())
        return STensor.new(_sz((sz,)), lambda i: t, "f")
    return const_tensor(_sz((sz,)), v, _dt(dtype))


def empty(*sz, dtype=None, device=None, size=None):
    n = f"empty#{_next()}"
    return STensor.new(_sz(sz if size is None else (size,)), lambda i: tm.app(n, i), "f")


def zeros_like(x, **k):
    if isinstance(x, Masked):
        raise Unsupported("zeros_like of masked")
    return const_tensor(x.dims, 0, _dt(k.get("dtype"), x.dtype))


def ones_like(x, **k):
    return const_tensor(x.dims, 1, _dt(k.get("dtype"), x.dtype))


def full_like(x, v, **k):
    return const_tensor(x.dims, v, _dt(k.get("dtype"), x.dtype))


def empty_like(x, **k):
    n = f"empty#{_next()}"
    return STensor.new(x.dims, lambda i: tm.app(n, i), "f")


def eye(n, m=None, dtype=None, device=None):
    n = as_iT(n)
    m = n if m is None else as_iT(m)
    return STensor.new((n, m), lambda i: tm.rite(tm.ieq(i[0], i[1]), ONE, ZERO), "f")


def arange(*a, dtype=None, device=None):
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    if st != 1 or isinstance(s, float) or isinstance(e, float):
        raise Unsupported("arange")
    s, e = as_iT(s), as_iT(e)
    r = STensor.new((tm.isub(e, s),), lambda i: tm.iadd(i[0], s), "i")
    return r if dtype is None else cast(r, dtype)


def linspace(a, b, n, dtype=None, device=None):
    a, b, n = as_rT(a), as_rT(b), as_iT(n)
    k = tm.iconst(n)
    if k == 1:
        return STensor.new((n,), lambda i: a, "f")
    den = tm.fromint(tm.isub(n, I(1)))
    return STensor.new((n,), lambda i: tm.radd(a, tm.rdiv(tm.rmul(tm.rsub(b, a), tm.fromint(i[0])), den)), "f")


def tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, STensor):
        CUTS[0] += 1
        return data.clone()
    if isinstance(data, Masked):
        raise Unsupported("tensor of masked")
    if type(data).__name__ == "SymSeq":
        one = tensor(data.item(wi(cx.cur().new_var("z", data.n))))
        r = STensor.new((data.n,) + one.dims, lambda i: tensor(data.item(wi(i[0]))).at(i[1:]), one.dtype)
        return r if dtype is None else cast(r, dtype)
    if isinstance(data, (list, tuple)):
        ts = [tensor(x) for x in data]
        if not ts:
            return const_tensor((I(0),), 0, _dt(dtype))
        r = stack(ts)
    elif hasattr(data, "tolist") and not isinstance(data, (SymInt, SymReal)):
        return tensor(data.tolist(), dtype)
    else:
        r = scalar(data)
    return r if dtype is None else cast(r, dtype)


def as_tensor(x, **k):
    return x if isinstance(x, STensor) else tensor(x, **k)


def clone(x):
    return x.clone()


def _common(ts):
    ts = [t for t in ts]
    if any(t.dtype == "f" for t in ts):
        return [cast(t, DType("f")) for t in ts], "f"
    if any(t.dtype == "i" for t in ts):
        return [cast(t, DType("i")) for t in ts], "i"
    return ts, "b"


def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    ts = list(ts)
    # legacy: 1-d empty tensors are skipped
    ts = [t for t in ts if not (len(t.dims) == 1 and tm.iconst(t.dims[0]) == 0)] or ts
    ts, dt = _common(ts)
    if not ts:
        raise RuntimeError("cat of empty list")
    d = ts[0]._ax(dim)
    for t in ts[1:]:
        if len(t.dims) != len(ts[0].dims):
            raise ShapeError("Tensors must have same number of dimensions")
        for k in range(len(t.dims)):
            if k != d and not eqdim(t.dims[k], ts[0].dims[k]):
                raise ShapeError("Sizes of tensors must match except in the cat dimension")
    ts = [t for t in ts if tm.iconst(t.dims[d]) != 0] or ts[:1]
    offs = [I(0)]
    for t in ts:
        offs.append(tm.iadd(offs[-1], t.dims[d]))
    snaps = [t.snap() for t in ts]
    c = cx.cur()

    def get(i):
        r = None
        for k in reversed(range(len(ts))):
            if r is None:
                # lazily built; the last segment
                r = ("last", k)
                continue
            cond = tm.ilt(i[d], offs[k + 1])
            r = (cond, k, r)
        return build(r, i)

    def seg(k, i):
        return snaps[k](i[:d] + (tm.isub(i[d], offs[k]),) + i[d + 1:])

    def build(r, i):
        if r[0] == "last":
            return seg(r[1], i)
        cond, k, rest = r
        v = c.implied(cond)
        if v is True:
            return seg(k, i)
        if v is False:
            return build(rest, i)
        return ite_any(cond, seg(k, i), build(rest, i))

    dims = ts[0].dims[:d] + (offs[-1],) + ts[0].dims[d + 1:]
    return STensor.new(dims, get, dt)


concat = concatenate = cat


def stack(ts, dim=0):
    from .loops import SymSeq
    if isinstance(ts, SymSeq):
        p = ts.item(SymInt(cx.cur().new_var("p", ts.n)))
        p = p if isinstance(p, STensor) else scalar(p)
        d = dim % (len(p.dims) + 1)

        def get(i):
            x = ts.item(SymInt(i[d]))
            return (x if isinstance(x, STensor) else scalar(x)).at(tuple(i[:d]) + tuple(i[d + 1:]))
        return STensor.new(p.dims[:d] + (ts.n,) + p.dims[d:], get, p.dtype)
    ts = list(ts)
    n = len(ts[0].dims) + 1
    d = dim % n
    return cat([t.unsqueeze(d) for t in ts], d)


def vstack(ts):
    return cat([t if len(t.dims) >= 2 else t.reshape(1, -1) for t in ts], 0)


def hstack(ts):
    ts = list(ts)
    return cat(ts, 0 if len(ts[0].dims) == 1 else 1)


def boundary(x, d, dims, cond, name):
    """The integer w (per element of dims) with cond(P, w), where P is x along axis d: the first of the
    engine's known candidates (interval ghosts) that satisfies it.  Proved: some candidate does."""
    c = cx.cur()
    H = c.engine
    try:
        cands = H.unique_candidates(dims, x.dims[d], all_=True)
    except (Unsupported, AttributeError):
        return None
    s = x.snap()
    n = x.dims[d]

    def at(i, w):
        b = s(i[:d] + (w,) + i[d:])
        return b if b.sort == "B" else tm.bnot(tm.ieq(b, I(0)))
    idx = tuple(c.new_var("p", q) for q in dims)
    from . import nf
    for cand in cands:
        if nf.prove_bool(tm.bor(*[cond(lambda w: at(idx, w), n, w) for w in cand(idx)]), c).ok:
            break
    else:
        return None

    def get(i):
        ws = cand(i)
        r = ws[-1]
        for w in reversed(ws[:-1]):
            r = tm.iite(cond(lambda q: at(i, q), n, w), w, r)
        return r
    return at, idx, get


def count_monotone(x, d, dims):
    """Number of True entries along axis d when they form a prefix: w with P(w-1) and not P(w)."""
    c = cx.cur()
    if tm.iconst(x.dims[d]) is not None:
        return None
    n = x.dims[d]

    def cond(P, n, w):
        return tm.band(tm.ile(I(0), w), tm.ile(w, n),
                       tm.bor(tm.ieq(w, I(0)), P(tm.isub(w, I(1)))), tm.bor(tm.ieq(w, n), tm.bnot(P(w))))
    r = boundary(x, d, dims, cond, "count")
    if r is None:
        return None
    at, idx, get = r
    k1, k2 = c.new_var("k", n), c.new_var("k", n)
    from . import nf
    if not nf.prove_bool(tm.bor(tm.bnot(tm.band(tm.ilt(k1, k2), at(idx, k2))), at(idx, k1)), c).ok:
        return None
    return STensor.new(dims, get, "i")


def first_true(x, d, dims):
    """Index of the first True along axis d (some entry is True)."""
    c = cx.cur()

    def cond(P, n, w):
        return tm.band(tm.ile(I(0), w), tm.ilt(w, n), P(w))
    n = x.dims[d]

    def cond2(P, n, w):
        # with monotonicity (suffix), the first True entry
        return tm.band(tm.ile(I(0), w), tm.ilt(w, n), P(w), tm.bor(tm.ieq(w, I(0)), tm.bnot(P(tm.isub(w, I(1))))))
    r = boundary(x, d, dims, cond2, "first")
    if r is None:
        return None
    at, idx, get = r
    k1, k2 = c.new_var("k", n), c.new_var("k", n)
    from . import nf
    if not nf.prove_bool(tm.bor(tm.bnot(tm.band(tm.ilt(k1, k2), at(idx, k1))), at(idx, k2)), c).ok:
        return None
    return STensor.new(dims, get, "i")


def tsum(x, dim=None, keepdim=False, **k):
    if isinstance(x, Masked):
        raise Unsupported("sum of a masked selection")
    if dim is None:
        dim = tuple(range(len(x.dims)))
        if keepdim:
            raise Unsupported("sum keepdim all")
    if isinstance(dim, builtins.int):
        dim = (dim,)
    ds = sorted(x._ax(d) for d in dim)
    s = x.snap()
    dims = tuple(d for k, d in enumerate(x.dims) if k not in ds)
    isreal = x.dtype == "f"

    def get(i):
        vs = {}
        full_, it = [], iter(i)
        for k in range(len(x.dims)):
            if k in ds:
                v = cx.cur().new_var("s", x.dims[k])
                vs[k] = v
                full_.append(v)
            else:
                full_.append(next(it))
        b = s(tuple(full_))
        if b.sort == "B":
            b = tm.iite(b, I(1), I(0))
        for k in reversed(ds):
            b = tm.rsum(x.dims[k], vs[k], b) if isreal else tm.isum(x.dims[k], vs[k], b)
        return b

    r = None
    if x.dtype == "b" and len(ds) == 1:
        r = count_monotone(x, ds[0], dims)
    if isreal and len(ds) == 1:
        r = selected_sum(x, ds[0], dims)
    if r is None:
        r = STensor.new(dims, get, "f" if isreal else "i")
    if keepdim:
        for k in ds:
            r = r.unsqueeze(k)
    return r


def selected_sum(x, d, dims):
    """Sum along axis d of entries all but one of which are zero, at one of the engine's known candidates."""
    c = cx.cur()
    n = x.dims[d]
    if tm.iconst(n) is not None:
        return None
    H = c.engine
    if not getattr(H, "witness", None):
        return None
    s = x.snap()
    idx = tuple(c.new_var("p", q) for q in dims)
    k1, k2 = c.new_var("k", n), c.new_var("k", n)
    b = s(idx[:d] + (k1,) + idx[d:])
    from . import nf
    guard = None
    for t in tm.subterms(b):
        if t.op == "ite" and k1 in tm.fv(t.args[0]) and nf.replace_cond(b, t.args[0], False) is tm.ZERO:
            guard = t.args[0]
            break
    if guard is None:
        return None
    try:
        cands = H.unique_candidates(dims, n)
    except Unsupported:
        return None

    def cond(i, w):
        m = dict(zip(idx, i))
        m[k1] = w
        return tm.band(tm.ile(I(0), w), tm.ilt(w, n), tm.subst(guard, m))
    for cand in cands:
        if nf.prove_bool(tm.bor(*[cond(idx, w) for w in cand(idx)]), c).ok:
            break
    else:
        return None
    if not nf.prove_bool(tm.bnot(tm.band(tm.ilt(k1, k2), cond(idx, k1), cond(idx, k2))), c).ok:
        return None

    def get(i):
        ws = cand(i)
        r = s(i[:d] + (ws[-1],) + i[d:])
        for w in reversed(ws[:-1]):
            r = tm.rite(cond(i, w), s(i[:d] + (w,) + i[d:]), r)
        return r
    return STensor.new(dims, get, "f")


def tmean(x, dim=None, keepdim=False):
    if dim is None:
        n = tm.iprod_list(x.dims)
    else:
        dd = (dim,) if isinstance(dim, builtins.int) else dim
        n = tm.iprod_list([x.dims[x._ax(d)] for d in dd])
    return tsum(x, dim, keepdim) / SymReal(tm.fromint(n))


def prod(x, dim=None):
    raise Unsupported("torch.prod")


def _quant(x, dim, keepdim, which):
    if isinstance(x, (builtins.bool,)):
        return x
    if dim is None:
        ds = list(range(len(x.dims)))
    else:
        ds = [x._ax(dim)] if isinstance(dim, builtins.int) else sorted(x._ax(d) for d in dim)
    dims = tuple(d for k, d in enumerate(x.dims) if k not in ds)
    f = lambda i: x0.bterm(i)
    x0 = x.clone()

    def get(i):
        vs, full_, it = {}, [], iter(i)
        for k in range(len(x.dims)):
            if k in ds:
                v = cx.cur().new_var("q", x.dims[k])
                vs[k] = v
                full_.append(v)
            else:
                full_.append(next(it))
        b = f(tuple(full_))
        for k in reversed(ds):
            b = (tm.forall if which == "all" else tm.exists)(x.dims[k], vs[k], b)
        return b

    return STensor.new(dims, get, "b")


def tany(x, dim=None, keepdim=False):
    return _quant(x, dim, keepdim, "any")


def tall(x, dim=None, keepdim=False):
    return _quant(x, dim, keepdim, "all")


def tabs(x):
    if isinstance(x, Masked):
        return x._map(tabs)
    if x.dtype == "i":
        return ew("i", lambda a: tm.iite(tm.ilt(a, I(0)), tm.ineg(a), a), x)
    return ew("f", lambda a: tm.rabs(R(a)), x)


def tsign(x):
    return ew("f", lambda a: tm.rsign(R(a)), x)


def texp(x):
    return ew("f", lambda a: tm.rexp(R(a)), x)


def tlog(x):
    return ew("f", lambda a: tm.rlog(R(a)), x)


def log10(x):
    return ew("f", lambda a: tm.rdiv(tm.rlog(R(a)), tm.rlog(R(10))), x)


def ttanh(x):
    return ew("f", lambda a: tm.rtanh(R(a)), x)


def tcosh(x):
    return ew("f", lambda a: tm.rcosh(R(a)), x)


def tsqrt(x):
    return ew("f", lambda a: tm.rsqrt(R(a)), x)


def tpow(a, b):
    return binop("pow", a, b)


def add(a, b):
    return binop("add", a, b)


def sub(a, b):
    return binop("sub", a, b)


def mul(a, b):
    return binop("mul", a, b)


def div(a, b):
    return binop("div", a, b)


def neg(a):
    return -a


def square(a):
    return a * a


def maximum(a, b):
    if isinstance(a, STensor) and a.dtype == "i" and not (isinstance(b, STensor) and b.dtype == "f"):
        return ew("i", lambda x, y: tm.iite(tm.ilt(x, y), y, x), a, b)
    return ew("f", lambda x, y: tm.rmax(R(x), R(y)), a, b)


def minimum(a, b):
    if isinstance(a, STensor) and a.dtype == "i" and not (isinstance(b, STensor) and b.dtype == "f"):
        return ew("i", lambda x, y: tm.iite(tm.ilt(x, y), x, y), a, b)
    return ew("f", lambda x, y: tm.rmin(R(x), R(y)), a, b)


def tmax(x, dim=None, **k):
    if isinstance(dim, STensor):
        return maximum(x, dim)
    raise Unsupported("torch.max reduction")


def tmin(x, dim=None, **k):
    if isinstance(dim, STensor):
        return minimum(x, dim)
    raise Unsupported("torch.min reduction")


def clamp(x, min=None, max=None):
    r = x
    if x.dtype == "i" and all(b is None or isinstance(b, SymInt) or (isinstance(b, builtins.int) and not isinstance(b, builtins.bool)) or
                              (isinstance(b, STensor) and b.dtype == "i") for b in (min, max)):
        if min is not None:
            r = ew("i", lambda a, b: tm.iite(tm.ilt(a, b), b, a), r, min)
        if max is not None:
            r = ew("i", lambda a, b: tm.iite(tm.ilt(b, a), b, a), r, max)
        return r
    if min is not None:
        r = ew("f", lambda a, b: tm.rmax(R(a), R(b)), r, min)
    if max is not None:
        r = ew("f", lambda a, b: tm.rmin(R(a), R(b)), r, max)
    return r


clip = clamp


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("torch.where with one argument")
    a = a if isinstance(a, STensor) else scalar(a)
    b = b if isinstance(b, STensor) else scalar(b)
    f = a.dtype == "f" or b.dtype == "f"
    if f:
        return ew("f", lambda c, x, y: tm.rite(c, R(x), R(y)), c, a, b)
    return ew(a.dtype, ite_any, c, a, b)


def logical_and(a, b):
    return ew("b", lambda x, y: tm.band(x, y), tobool(a), tobool(b))


def logical_or(a, b):
    return ew("b", lambda x, y: tm.bor(x, y), tobool(a), tobool(b))


def logical_not(a):
    return ew("b", lambda x: tm.bnot(x), tobool(a))


def tobool(a):
    if not isinstance(a, STensor):
        a = scalar(a)
    return cast(a, DType("b"))


def isnan_term(t):
    """NaN arises only from 0/0 (inputs are finite reals)."""
    o, a = t.op, t.args
    if o == "div":
        return tm.bor(tm.band(tm.req(a[1], ZERO), tm.req(a[0], ZERO)), isnan_term(a[0]), isnan_term(a[1]))
    if o in ("add", "mul", "pow", "exp", "log", "tanh", "cosh", "sqrt"):
        return tm.bor(*[isnan_term(x) for x in a])
    if o == "ite":
        return tm.bite(a[0], isnan_term(a[1]), isnan_term(a[2]))
    if o == "u" and a[2]:
        return tm.bor(*[isnan_term(x) for x in a[2]])
    if o == "sum":
        n, v, b = tm.open_binder(t, "nan")
        return tm.exists(n, v, isnan_term(b))
    if o == "uf" and tm.children(t):
        for x in tm.children(t):
            if x.sort == "R" and x.op != "lam" and isnan_term(x) is not FALSE:
                raise Unsupported("isnan of a function of a possible nan")
    return FALSE


def isnan(x):
    return ew("b", lambda a: isnan_term(R(a)), x)


def nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    return ew("f", lambda a: tm.rite(isnan_term(R(a)), R(nan), R(a)), x)


def isfinite(x):
    return ew("b", lambda a: tm.bnot(isnan_term(R(a))), x)


def tdiff(x, n=1, dim=-1):
    d = x._ax(dim)
    ln = x.dims[d]
    a = x._slice(d, slice(1, None))
    b = x._slice(d, slice(None, -1))
    return a - b


def flip(x, *dims):
    if "dims" in dims:
        raise Unsupported("flip")
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = tuple(dims[0])
    ds = [x._ax(d) for d in dims]
    s = x.snap()
    dd = x.dims

    def get(i):
        return s(tuple(tm.isub(tm.isub(dd[k], I(1)), i[k]) if k in ds else i[k] for k in range(len(dd))))

    return STensor.new(dd, get, x.dtype)


def diagonal(x, offset=0, dim1=0, dim2=1):
    if offset != 0:
        raise Unsupported("offset diagonal")
    a, b = x._ax(dim1), x._ax(dim2)
    if not eqdim(x.dims[a], x.dims[b]):
        raise Unsupported("diagonal of a non-square matrix")
    n = x.dims[a]
    rest = [k for k in range(len(x.dims)) if k not in (a, b)]

    def f(i):
        out = [None] * len(x.dims)
        for k, r in enumerate(rest):
            out[r] = i[k]
        out[a] = out[b] = i[-1]
        return tuple(out)

    def bk(i):
        return tm.ieq(i[a], i[b]), tuple(i[r] for r in rest) + (i[a],)

    return x._view(tuple(x.dims[r] for r in rest) + (n,), f, bk, FALSE)


def diag_embed(x, offset=0, dim1=-2, dim2=-1):
    if offset != 0 or dim1 != -2 or dim2 != -1:
        raise Unsupported("diag_embed")
    s = x.snap()
    return STensor.new(x.dims + (x.dims[-1],),
                       lambda i: tm.rite(tm.ieq(i[-1], i[-2]), R(s(i[:-1])), ZERO), "f")


def diag(x):
    if len(x.dims) == 1:
        return diag_embed(x)
    return diagonal(x)


def einsum(eq, *ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    eq = eq.replace(" ", "")
    if "->" not in eq:
        raise Unsupported("implicit einsum")
    lhs, out = eq.split("->")
    ins = lhs.split(",")
    dims = {}
    ell = []
    specs = []
    for sp, t in zip(ins, ts):
        if "..." in sp:
            pre, post = sp.split("...")
            k = len(t.dims) - len(pre) - len(post)
            if k < 0:
                raise ShapeError("einsum")
            ell.append(t.dims[len(pre):len(pre) + k])
        else:
            pre, post, k = sp, "", None
            if len(t.dims) != len(sp):
                raise ShapeError("einsum: rank")
        specs.append((pre, post, k))
        letters = list(pre) + list(post)
        ld = list(t.dims[:len(pre)]) + (list(t.dims[len(t.dims) - len(post):]) if post else [])
        for l, d in zip(letters, ld):
            if l in dims:
                if dims[l] is not d and not eqdim(dims[l], d):
                    if isone(dims[l]):
                        dims[l] = d
                    elif not isone(d):
                        raise ShapeError("einsum: size mismatch")
            else:
                dims[l] = d
    ed = bdims(*ell) if ell else ()
    if "..." in out:
        opre, opost = out.split("...")
    else:
        opre, opost = out, ""
        if ed:
            raise Unsupported("einsum dropping ellipsis")
    od = tuple(dims[l] for l in opre) + (ed if "..." in out else ()) + tuple(dims[l] for l in opost)
    summed = [l for l in dims if l not in out]
    snaps = [t.snap() for t in ts]
    tdims = [t.dims for t in ts]

    def get(i):
        env = {}
        for k, l in enumerate(opre):
            env[l] = i[k]
        ei = i[len(opre):len(opre) + len(ed)]
        for k, l in enumerate(opost):
            env[l] = i[len(opre) + len(ed) + k]
        for l in summed:
            env[l] = cx.cur().new_var("e", dims[l])
        fs = []
        for sp, s, td in zip(specs, snaps, tdims):
            pre, post, k = sp
            ix = [env[l] for l in pre]
            if k is not None:
                tde = td[len(pre):len(pre) + k]
                ix += list(bidx(tde, ed, ei)) if k <= len(ed) else []
            ix += [env[l] for l in post]
            # size-one letters broadcast
            ix = [I(0) if isone(td[q]) else x for q, x in enumerate(ix)]
            fs.append(R(s(tuple(ix))))
        b = tm.rmul(*fs)
        for l in reversed(summed):
            b = tm.rsum(dims[l], env[l], b)
        return b

    return STensor.new(od, get, "f")


def bmm(a, b):
    if len(a.dims) != 3 or len(b.dims) != 3:
        raise ShapeError("batch1 must be a 3D tensor")
    if not eqdim(a.dims[0], b.dims[0]) or not eqdim(a.dims[2], b.dims[1]):
        raise ShapeError("bmm: size mismatch")
    return einsum("bik,bkj->bij", a, b)


def matmul(a, b):
    if len(a.dims) == 1 and len(b.dims) == 1:
        return einsum("k,k->", a, b)
    if len(b.dims) == 1:
        return einsum("...ik,k->...i", a, b)
    if len(a.dims) == 1:
        return einsum("k,...kj->...j", a, b)
    return einsum("...ik,...kj->...ij", a, b)


def norm(x, p=2, dim=None, keepdim=False, **k):
    if p not in (2, "fro", None):
        raise Unsupported("norm order")
    return tsqrt(tsum(x * x, dim, keepdim))


def vector_norm(x, ord=2, dim=None, keepdim=False):
    return norm(x, ord, dim, keepdim)


def remainder(a, b):
    a = a if isinstance(a, STensor) else scalar(a)
    b = b if isinstance(b, STensor) else scalar(b)
    if a.dtype == "i" and b.dtype == "i":
        return ew("i", tm.imod, a, b)
    return ew("f", lambda x, y: rmod(R(x), R(y)), a, b)


def rmod(a, b):
    """a - b floor(a/b) for b > 0.  The quotient is looked for among the integer coefficients that a's
    polynomial has at b's monomials (and one less); floor(a/b) itself is the last resort."""
    if a.op == "ite":
        return tm.rite(a.args[0], rmod(a.args[1], b), rmod(a.args[2], b))
    from . import nf
    c = cx.cur()
    n = nf.NF(c)
    pa, pb = n.nf(a), n.nf(b)
    cands = []
    for mb, cb in pb.items():
        q, ok = ZERO, True
        for ma, ca in pa.items():
            l = list(ma)
            if all(g in l for g in mb):
                for g in mb:
                    l.remove(g)
                t = n.term({tuple(l): Fraction(ca) / cb})
                i = int_of(t)
                ok = ok and i is not None
                q = tm.radd(q, t)
        i = int_of(q) if ok else None
        if i is not None:
            for k in (i, tm.isub(i, I(1))):
                if k not in cands:
                    cands.append(k)
    r = tm.rsub(a, tm.rmul(b, tm.fromint(tm.rfloor(tm.rdiv(a, b)))))
    for k in reversed(cands):
        d = n.term(n.nf(tm.rsub(a, tm.rmul(b, tm.fromint(k)))))
        r = tm.rite(tm.band(tm.rle(ZERO, d), tm.rlt(d, b)), d, r)
    return r


def int_of(t):
    """Integer term equal to the real term t, if it is one syntactically."""
    k = tm.rconst(t)
    if k is not None:
        return I(int(k)) if k.denominator == 1 else None
    if t.op == "fromint":
        return t.args[0]
    if t.op == "add":
        xs = [int_of(x) for x in t.args]
        return None if any(x is None for x in xs) else tm.isum_list(xs)
    if t.op == "mul":
        xs = [int_of(x) for x in t.args]
        return None if any(x is None for x in xs) else tm.iprod_list(xs)
    return None


def repeat_interleave(x, r, dim=None):
    if dim is None:
        x = x.flatten()
        dim = 0
    d = x._ax(dim)
    r = as_iT(r)
    s = x.snap()
    dims = x.dims[:d] + (tm.imul(x.dims[d], r),) + x.dims[d + 1:]
    return STensor.new(dims, lambda i: s(i[:d] + (tm.idiv(i[d], r) if not isone(x.dims[d]) else I(0),) + i[d + 1:]), x.dtype)


def numel(x):
    return x.numel()


def allclose(a, b, **k):
    raise Unsupported("allclose")


def is_tensor(x):
    return isinstance(x, (STensor, Masked))


def broadcast_tensors(*ts):
    return tuple(broadcast_list(list(ts)))


def broadcast_shapes(*ss):
    return Size(wi(d) for d in bdims(*[tuple(as_iT(x) for x in s) for s in ss]))


# ------------------------------------------------------------------ reshape index maps
def reshape_maps(old, new):
    """(f, b): f maps new index -> old index, b maps old index -> (True, new index)."""
    groups = []
    i = j = 0
    oi, ni = list(range(len(old))), list(range(len(new)))
    # greedily match groups with equal products
    while i < len(old) or j < len(new):
        gi, gj = [], []
        if i < len(old) and j < len(new):
            po, pn = old[i], new[j]
            gi, gj = [i], [j]
            i, j = i + 1, j + 1
            while po is not pn:
                # extend the side that can still reach equality
                adv = False
                # try: extend old
                tryo = po
                k = i
                while k < len(old):
                    tryo = tm.imul(tryo, old[k])
                    k += 1
                    if tryo is pn:
                        gi += list(range(i, k))
                        i = k
                        po = tryo
                        adv = True
                        break
                if adv:
                    break
                tryn = pn
                k = j
                while k < len(new):
                    tryn = tm.imul(tryn, new[k])
                    k += 1
                    if tryn is po:
                        gj += list(range(j, k))
                        j = k
                        pn = tryn
                        adv = True
                        break
                if adv:
                    break
                # extend both by one
                if i < len(old):
                    po = tm.imul(po, old[i])
                    gi.append(i)
                    i += 1
                if j < len(new):
                    pn = tm.imul(pn, new[j])
                    gj.append(j)
                    j += 1
                if i >= len(old) and j >= len(new):
                    break
        elif i < len(old):
            gi = [i]
            i += 1
        else:
            gj = [j]
            j += 1
        groups.append((gi, gj))

    def lin(ix, ds):
        r = I(0)
        for x, d in zip(ix, ds):
            r = tm.iadd(tm.imul(r, d), x)
        return r

    def unlin(v, ds):
        out = []
        for d in reversed(ds[1:]):
            q, m = tm.idivmod(v, d)
            out.append(m)
            v = q
        out.append(v)
        return list(reversed(out))

    def conv(ix, sg, dg, sd, dd, nout):
        out = [None] * nout
        for s, d in zip(sg, dg):
            if len(s) == 1 and len(d) == 1:
                out[d[0]] = ix[s[0]]
            elif not d:
                pass
            elif not s:
                for q in d:
                    out[q] = I(0)
            else:
                v = lin([ix[q] for q in s], [sd[q] for q in s])
                for q, x in zip(d, unlin(v, [dd[q] for q in d])):
                    out[q] = x
        return tuple(out)

    og = [g[0] for g in groups]
    ng = [g[1] for g in groups]

    def f(idx):
        return conv(idx, ng, og, new, old, len(old))

    def b(idx):
        return TRUE, conv(idx, og, ng, old, new, len(new))

    return f, b
