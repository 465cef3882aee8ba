"""Stand-in `torch` (and friends) giving the symbolic semantics of stensor.py.

Only names defined here exist: anything else the code under verification touches
raises Unsupported, and the affected function falls back to its bounded check."""
import functools
import types
import builtins

from . import stensor as st
from . import terms as tm
from .terms import Unsupported, I, R, ZERO
from . import ctx as cx
from . import nf as nfm


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{self.__name__}.{n}")


class Module:
    """torch.nn.Module: attribute container with parameters and forward."""

    def __init__(self, *a, **k):
        if a or k:
            raise TypeError("Module.__init__() got unexpected arguments")
        object.__setattr__(self, "_params", {})

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def register_parameter(self, n, p):
        setattr(self, n, p)

    def register_buffer(self, n, p, persistent=True):
        setattr(self, n, p)

    def add_module(self, n, m):
        setattr(self, n, m)

    def named_parameters(self, prefix="", recurse=True):
        for k, v in list(self.__dict__.items()):
            if isinstance(v, st.STensor) and getattr(v, "is_param", False):
                yield (prefix + k), v
            elif isinstance(v, Module):
                yield from v.named_parameters(prefix + k + ".")

    def parameters(self):
        for _, p in self.named_parameters():
            yield p

    def to(self, *a, **k):
        return self

    def train(self, *a):
        return self

    def eval(self):
        return self

    def modules(self):
        yield self
        for v in self.__dict__.values():
            if isinstance(v, Module):
                yield from v.modules()

    def children(self):
        for v in self.__dict__.values():
            if isinstance(v, Module):
                yield v


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        self.l = list(ms)

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        return len(self.l)

    def __getitem__(self, k):
        return self.l[k]

    def append(self, m):
        self.l.append(m)

    def named_parameters(self, prefix="", recurse=True):
        for i, m in enumerate(self.l):
            yield from m.named_parameters(f"{prefix}{i}.")


def Parameter(t=None, requires_grad=True):
    t.is_param = True
    t.requires_grad = requires_grad
    return t


class _NoGrad:
    def __init__(self, *a):
        pass

    def __enter__(self):
        st.CUTS[0] += 1
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        def g(*a, **k):
            with self:
                return f(*a, **k)
        return g


class _Grad(_NoGrad):
    def __enter__(self):
        return self


class Function:
    @classmethod
    def apply(cls, *args):
        ctx = types.SimpleNamespace()
        ctx.saved = ()
        ctx.save_for_backward = lambda *t: setattr(ctx, "saved_tensors", t)
        ctx.mark_dirty = lambda *t: None
        ctx.needs_input_grad = tuple(True for _ in args)
        r = cls.forward(ctx, *args)
        cls.last_ctx = ctx
        h = cx.cur()
        if h is not None:
            h.autograd_calls = getattr(h, "autograd_calls", []) + [(cls, ctx, args, r)]
        return r


# ---------------------------------------------------------------- linear algebra
class LU(st.STensor):
    """Factorization token: behaves as the batch of matrices it factorizes."""


def _aslu(t, proto):
    t.__class__ = LU
    return t


for _m in ("__getitem__", "unsqueeze", "squeeze", "as_strided", "expand", "reshape", "view", "transpose"):
    def _mk(m):
        base = getattr(st.STensor, m)

        def f(self, *a, **k):
            r = base(self, *a, **k)
            if isinstance(r, st.STensor):
                # shallow copy of the view object with the LU class
                n = st.STensor(r.st, r.dims, r.fwd, r.bwd, r.dtype, r.contig, False)
                n.__class__ = LU
                n.rows = getattr(r, "rows", None)
                return n
            return r
        return f
    setattr(LU, _m, _mk(_m))


def lu_factor_ex(A, pivot=True, check_errors=False):
    if len(A.dims) < 2 or not st.eqdim(A.dims[-1], A.dims[-2]):
        raise st.ShapeError("A must be batches of square matrices")
    c = A.clone()
    c.__class__ = LU
    snap = c.snap()

    def pget(i):
        """A token that says which matrix the row swaps belong to."""
        nm = matrix_name(lambda r, q: snap(tuple(i[:-1]) + (r, q)))
        return tm.uint(nm[0] + "~piv", *nm[1], i[-1]) if nm else I(1)
    piv = st.STensor.new(A.dims[:-1], pget, "i")
    info = st.STensor.new(A.dims[:-2], lambda i: I(0), "i")
    return c, piv, info


def lu_factor(A, pivot=True):
    a, b, _ = lu_factor_ex(A)
    return a, b


def matrix_name(at):
    """(name, leading indices) of a matrix that is a plain input, else None."""
    v1, v2 = tm.ivar("inv!r"), tm.ivar("inv!c")
    g = R(at(v1, v2))
    if g.op == "u" and not g.args[2] and g.args[1][-2:] == (v1, v2) and not (
            set().union(*[tm.fv(x) for x in g.args[1][:-2]]) & {v1, v2}):
        return g.args[0], g.args[1][:-2]
    return None


def inv_entry(A, lead, i, j, piv=None):
    """Entry (i,j) of the inverse of the matrix A[lead] (A nonsingular is assumed
    and recorded)."""
    nm = matrix_name(lambda r, q: A.at(tuple(lead) + (r, q)))
    if nm is None:
        raise Unsupported("inverse of a composite matrix")
    if piv is not None:
        k = tm.ivar("inv!p")
        p, want = piv(k), tm.uint(nm[0] + "~piv", *nm[1], k)
        if p is not want and not cx.cur().entails(tm.ieq(p, want)):
            return tm.app(nm[0] + "~wrongpivots", nm[1] + (i, j))
    return tm.app(nm[0] + "~inv", nm[1] + (i, j))


def lu_solve(LUt, piv, B, left=True, adjoint=False):
    if not isinstance(LUt, LU):
        raise Unsupported("lu_solve without lu_factor")
    if not left or adjoint:
        raise Unsupported("lu_solve options")
    if len(B.dims) < 2:
        raise st.ShapeError("lu_solve: B must have at least 2 dims")
    n = LUt.dims[-1]
    if not st.eqdim(n, B.dims[-2]):
        raise st.ShapeError("lu_solve: incompatible shapes")
    if not st.eqdim(piv.dims[-1], n):
        raise st.ShapeError("lu_solve: pivots")
    lead = st.bdims(LUt.dims[:-2], B.dims[:-2])
    A = LUt.clone()
    la, lb, lp = LUt.dims[:-2], B.dims[:-2], piv.dims[:-1]
    bs, ps = B.snap(), piv.snap()

    def get(i):
        L = i[:-2]
        v = cx.cur().new_var("u", n)
        return tm.rsum(n, v, tm.rmul(inv_entry(A, st.bidx(la, lead, L), i[-2], v,
                                               lambda k: ps(st.bidx(lp, lead, L) + (k,))),
                                     R(bs(st.bidx(lb, lead, L) + (v, i[-1])))))

    return st.STensor.new(lead + (n, B.dims[-1]), get, "f")


def solve_ex(A, B, left=True, check_errors=False):
    """Exact solution (nonsingular matrices); B is a batch of vectors when its shape is A's without the last axis."""
    vec = len(B.dims) == 1 or (len(B.dims) == len(A.dims) - 1 and all(st.eqdim(x, y) for x, y in zip(B.dims, A.dims)))
    LUt, piv, info = lu_factor_ex(A)
    if vec:
        return lu_solve(LUt, piv, B.unsqueeze(-1)).squeeze(-1), info
    return lu_solve(LUt, piv, B), info


def lstsq(A, B, rcond=None, driver=None):
    """Only the shape of the answer is known."""
    vec = len(B.dims) == len(A.dims) - 1
    name = f"lstsq!{st._next()}"
    d = tuple(A.dims[:-2]) + (A.dims[-1],) + (() if vec else (B.dims[-1],))
    if not st.eqdim(A.dims[-2], B.dims[-1 if vec else -2]):
        raise st.ShapeError("lstsq: incompatible shapes")
    return st.STensor.new(d, lambda i: tm.app(name, i), "f"), None, None, None


# ---------------------------------------------------------------- module assembly
def make_modules():
    M = {}

    def mod(name, d=None):
        m = _Mod(name)
        m.__dict__.update(d or {})
        M[name] = m
        return m

    names = ("zeros ones full empty zeros_like ones_like full_like empty_like eye arange linspace tensor "
             "as_tensor clone cat concat concatenate stack vstack hstack maximum minimum clamp clip where "
             "logical_and logical_or logical_not isnan nan_to_num isfinite flip diagonal diag_embed diag "
             "einsum bmm matmul norm remainder repeat_interleave numel is_tensor broadcast_tensors "
             "broadcast_shapes add sub mul div neg square log10").split()
    t = mod("torch", {n: getattr(st, n) for n in names})
    t.abs, t.sign, t.exp, t.log, t.tanh, t.cosh, t.sqrt, t.pow = (
        st.tabs, st.tsign, st.texp, st.tlog, st.ttanh, st.tcosh, st.tsqrt, st.tpow)
    t.absolute = st.tabs
    t.multiply, t.divide, t.subtract = st.mul, st.div, st.sub
    t.sum, t.mean, t.any, t.all, t.diff, t.max, t.min = (
        st.tsum, st.tmean, st.tany, st.tall, st.tdiff, st.tmax, st.tmin)
    t.Tensor = st.STensor
    t.Size = st.Size
    t.device = st.Device
    for n in ("float64", "double"):
        setattr(t, n, st.DType("f"))
    for n in ("float32", "float", "float16", "half", "bfloat16"):
        setattr(t, n, st.DType("f", True))
    for n in ("int64", "int32", "int", "long", "uint8"):
        setattr(t, n, st.DType("i"))
    t.bool = st.DType("b")
    t.contiguous_format, t.preserve_format = "contiguous_format", "preserve_format"
    t.inf, t.pi, t.nan = float("inf"), 3.141592653589793, float("nan")
    t.no_grad = t.inference_mode = _NoGrad
    t.enable_grad = _Grad
    t.set_grad_enabled = lambda on: _Grad() if on else _NoGrad()
    t.unsqueeze = lambda x, d: x.unsqueeze(d)
    t.squeeze = lambda x, *d: x.squeeze(*d)
    t.transpose = lambda x, a, b: x.transpose(a, b)
    t.reshape = lambda x, s: x.reshape(*s)
    t.flatten = lambda x, *a, **k: x.flatten(*a, **k)
    t.movedim = lambda x, a, b: x.movedim(a, b)
    t.permute = lambda x, p: x.permute(*p)
    t.greater = lambda a, b: a > b
    t.gt, t.lt, t.ge, t.le, t.eq = (lambda a, b: a > b, lambda a, b: a < b, lambda a, b: a >= b,
                                    lambda a, b: a <= b, lambda a, b: a == b)
    t.get_default_dtype = lambda: st.DType("f")
    t.set_default_dtype = lambda d: None
    t.set_default_tensor_type = lambda d: None
    t.numel = lambda x: x.numel()
    t.heaviside = lambda x, v: st.ew("f", lambda a, b: tm.rite(
        tm.rgt0(R(a)), tm.ONE, tm.rite(tm.rgt0(tm.rneg(R(a))), ZERO, R(b))), x, v)

    def relu(x):
        return st.ew("f", lambda a: tm.rmax(R(a), ZERO), x)
    t.relu = relu

    def argmax(x, dim=None, keepdim=False):
        # first index of the maximum, for 0/1 valued vectors
        if dim is not None and x.dtype in "bi":
            from . import extra
            d = x._ax(dim)
            r = extra.first_index(x if x.dtype == "b" else x != 0, d, "argmax")
            return r.unsqueeze(d) if keepdim else r
        if len(x.dims) != 1 or x.dtype != "i":
            raise Unsupported("argmax")
        xb = x != 0
        r = st.first_true(xb, 0, ())
        if r is not None:
            return r
        v = tm.ivar("amx")
        g = x.at((v,))
        if not (g.op == "iite" and tm.iconst(g.args[1]) == 1 and tm.iconst(g.args[2]) == 0):
            raise Unsupported("argmax of a non-indicator")
        name = f"argmax#{st._next()}"
        n = x.dims[0]
        s = x.snap()
        c = cx.cur()

        def facts(t0):
            # 0<=t<n ; either x[t]=1 and all earlier are 0, or all are 0 and t=0
            out = [tm.ile(I(0), t0), tm.ilt(t0, n)]
            return out
        c.decl[name] = {"facts": facts, "argmax": (s, n)}
        c.firsts = getattr(c, "firsts", [])
        r = tm.uint(name)
        c.firsts.append((r, s, n))
        return st.STensor.new((), lambda i: r, "i")
    t.argmax = argmax

    nn = mod("torch.nn", {"Module": Module, "ModuleList": ModuleList, "Parameter": Parameter})
    fn = mod("torch.nn.functional")

    def pad(x, p, mode="constant", value=0.0):
        p = list(p)
        k = len(p) // 2
        for q in range(k):
            d = len(x.dims) - 1 - q
            lo, hi = p[2 * q], p[2 * q + 1]
            parts = []
            dims = list(x.shape)
            if not (isinstance(lo, int) and lo == 0):
                parts.append(st.full(dims[:d] + [lo] + dims[d + 1:], value))
            parts.append(x)
            if not (isinstance(hi, int) and hi == 0):
                parts.append(st.full(dims[:d] + [hi] + dims[d + 1:], value))
            if len(parts) > 1:
                x = st.cat(parts, d)
        return x.clone()
    fn.pad = pad
    fn.relu = relu
    nn.functional = fn
    t.nn = nn
    la = mod("torch.linalg", {"lu_factor_ex": lu_factor_ex, "lu_factor": lu_factor, "lu_solve": lu_solve,
                              "solve_ex": solve_ex, "solve": lambda A, B, left=True: solve_ex(A, B)[0], "lstsq": lstsq,
                              "norm": lambda x, ord=None, dim=None, keepdim=False: st.norm(x, ord, dim, keepdim),
                              "vector_norm": st.vector_norm})
    t.linalg = la
    ag = mod("torch.autograd", {"Function": Function})

    def grad(outputs, inputs, grad_outputs=None, **k):
        h = getattr(cx.cur(), "autograd_grad", None)
        if h is None:
            raise Unsupported("torch.autograd.grad")
        return h(outputs, inputs, grad_outputs, **k)
    ag.grad = grad
    t.autograd = ag
    ft = mod("functorch", {"vmap": vmap, "jacrev": jacrev, "jacfwd": jacrev})
    t.vmap, t.func = vmap, mod("torch.func", {"vmap": vmap, "jacrev": jacrev, "jacfwd": jacrev})
    mp = mod("matplotlib")
    mp.pyplot = mod("matplotlib.pyplot")
    from . import extra
    extra.install(t)
    from . import ext
    ext.install(t, la)
    from . import pyroshim
    pyroshim.add_modules(M, mod)
    return M


# ---------------------------------------------------------------- functional transforms
def vmap(f, in_dims=0, out_dims=0, **kw):
    if in_dims != 0 or out_dims != 0:
        raise Unsupported("vmap dims")

    def g(*args, **kwargs):
        ts = [a for a in args if isinstance(a, st.STensor)]
        if not ts:
            raise Unsupported("vmap without tensors")
        n = ts[0].dims[0]
        for t in ts:
            if not st.eqdim(t.dims[0], n):
                raise ValueError("vmap: inconsistent sizes")
        c = cx.cur()
        b = c.new_var("v", n)
        sub = [a._select(0, st.wi(b), False) if isinstance(a, st.STensor) else a for a in args]
        r = f(*sub, **kwargs)

        def lift(r):
            if isinstance(r, (tuple, list)):
                return type(r)(lift(x) for x in r)
            s = r.snap()
            return st.STensor.new((n,) + r.dims, lambda i: tm.subst(s(i[1:]), {b: i[0]}), r.dtype)
        return lift(r)
    return g


def subst_app(t, name, fn):
    def f(x):
        if x.op == "u" and x.args[0] == name:
            return fn(x.args[1])
        return x
    return tm.transform(t, f)


def jacrev(f, argnums=0, **kw):
    def g(*args, **kwargs):
        nums = argnums if isinstance(argnums, tuple) else (argnums,)
        names = {}
        nargs = list(args)
        for k in nums:
            a = args[k]
            nm = f"jac#{st._next()}"
            names[k] = nm
            nargs[k] = st.STensor.new(a.dims, lambda i, nm=nm: tm.app(nm, i), "f")
        r = f(*nargs, **kwargs)
        snaps = {names[k]: args[k].snap() for k in nums}

        def back(t):
            for nm, s in snaps.items():
                t = subst_app(t, nm, lambda i, s=s: R(s(i)))
            return t

        def one(r, k):
            s = r.snap()
            nd = len(r.dims)
            return st.STensor.new(r.dims + args[k].dims,
                                  lambda i: back(nfm.diff(R(s(i[:nd])), names[k], i[nd:])), "f")

        def lift(r, k):
            if isinstance(r, (tuple, list)):
                return type(r)(lift(x, k) for x in r)
            return one(r, k)
        if isinstance(argnums, tuple):
            return tuple(lift(r, k) for k in nums)
        return lift(r, nums[0])
    return g


# ---------------------------------------------------------------- math
def make_math():
    import math as rm
    m = _Mod("math")
    m.pi, m.inf, m.e = rm.pi, rm.inf, rm.e

    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r
    m.prod = prod

    class Log2:
        def __init__(self, t):
            self.t = t

    def log2(x):
        if isinstance(x, st.SymInt):
            return Log2(x.t)
        return rm.log2(x)

    def floor(x):
        if isinstance(x, Log2):
            return st.wi(tm.isub(st.bitlen(x.t), I(1)))
        if isinstance(x, st.SymInt):
            return x
        if isinstance(x, st.SymReal):
            raise Unsupported("floor of symbolic real")
        return rm.floor(x)
    m.log2, m.floor = log2, floor
    for n in ("sqrt", "exp", "log", "ceil", "log10", "isnan", "isinf"):
        def f(x, n=n):
            if isinstance(x, (st.SymInt, st.SymReal, st.STensor)):
                raise Unsupported(f"math.{n} of symbolic value")
            return getattr(rm, n)(x)
        setattr(m, n, f)
    return m


def make_numpy():
    """The real numpy, with ndindex over one symbolic dimension."""
    import numpy as rn
    m = types.ModuleType("numpy")

    def ndindex(*shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 1 and isinstance(shape[0], st.SymInt):
            from .loops import SymSeq
            return SymSeq(shape[0].t, lambda k: (k,))
        if any(isinstance(x, st.SymInt) for x in shape):
            raise Unsupported("ndindex over several symbolic dimensions")
        return rn.ndindex(*shape)
    m.ndindex = ndindex
    sy = (st.STensor, st.SymReal, st.SymInt)

    def has(x):
        return isinstance(x, sy) or (isinstance(x, (tuple, list)) and any(has(y) for y in x))

    def dt(dtype, default="f"):
        if dtype is None:
            return st.DType(default)
        return st.DType({"int": "i", "_Int": "i", "bool": "b", "float": "f"}.get(getattr(dtype, "__name__", str(dtype)), "f"))

    def rdt(dtype):
        return int if getattr(dtype, "__name__", "") == "_Int" else dtype

    def maker(name, v):
        def f(shape, dtype=None, **k):
            if has(shape):
                return st.full(shape if isinstance(shape, (tuple, list)) else (shape,), v, dtype=dt(dtype))
            return getattr(rn, name)(shape, dtype=rdt(dtype) or float, **k)
        return f
    m.zeros, m.ones = maker("zeros", 0), maker("ones", 1)

    def maker_like(name, v):
        def f(x, dtype=None, **k):
            if has(x):
                return st.full(x.shape, v, dtype=dt(dtype, x.dtype))
            return getattr(rn, name)(x, dtype=rdt(dtype), **k)
        return f
    m.zeros_like, m.ones_like = maker_like("zeros_like", 0), maker_like("ones_like", 1)

    def sym1(name, f):
        def g(x, *a, **k):
            return f(x, *a, **k) if has(x) else getattr(rn, name)(x, *a, **k)
        return g

    def real1(f):
        return lambda x: f(x) if isinstance(x, st.STensor) else st.SymReal(f(st.scalar(x)).at(()))
    for n, f in (("abs", st.tabs), ("sqrt", st.tsqrt), ("exp", st.texp), ("log", st.tlog), ("log10", st.log10),
                 ("tanh", st.ttanh), ("sign", st.tsign)):
        setattr(m, n, sym1(n, real1(f)))
    m.absolute = m.fabs = m.abs

    def cumsum(x, axis=None, **k):
        if isinstance(x, (list, tuple)):
            out, s = [], 0
            for y in x:
                s = s + y
                out.append(s)
            return st.tensor(out)
        raise Unsupported("numpy.cumsum")
    m.cumsum = sym1("cumsum", cumsum)

    def argsort(x, axis=-1, **k):
        """Of a list of symbolic numbers: one case per order."""
        if not isinstance(x, (list, tuple)) or len(x) > 4 or any(isinstance(y, st.STensor) for y in x):
            raise Unsupported("numpy.argsort")
        return sorted(range(len(x)), key=functools.cmp_to_key(lambda i, j: -1 if x[i] < x[j] else 1 if x[j] < x[i] else 0))
    m.argsort = sym1("argsort", argsort)

    def linspace(a, b, num=50, **k):
        if has((a, b, num)):
            if k:
                raise Unsupported("numpy.linspace options")
            return st.linspace(a, b, num)
        return rn.linspace(a, b, num, **k)
    m.linspace = linspace

    def bin_(name, f):
        def g(a, b):
            return f(a, b) if has((a, b)) else getattr(rn, name)(a, b)
        return g
    for n, f in (("logical_and", st.logical_and), ("logical_or", st.logical_or), ("maximum", st.maximum),
                 ("minimum", st.minimum), ("mod", st.remainder), ("remainder", st.remainder)):
        setattr(m, n, bin_(n, f))

    def where(c, *a):
        return st.where(c, *a) if has((c,) + a) else rn.where(c, *a)
    m.where = where

    def piecewise(x, conds, funcs):
        if not has(x):
            return rn.piecewise(x, conds, funcs)
        fs = list(funcs)
        r = st.zeros_like(x)
        if len(fs) == len(conds) + 1:
            r = fs.pop() if not callable(fs[-1]) else fs.pop()(x)
        for c, f in zip(conds, fs):
            r = st.where(c, f(x) if callable(f) else f, r)
        return r
    m.piecewise = piecewise

    def array(x, dtype=None, **k):
        return st.tensor(x, dt(dtype) if dtype is not None else None) if has(x) else rn.array(x, dtype=rdt(dtype), **k)
    m.array = m.asarray = array

    def arange(*a, dtype=None, **k):
        return st.arange(*a) if has(a) else rn.arange(*a, dtype=rdt(dtype), **k)
    m.arange = arange

    def concatenate(xs, axis=0):
        return st.cat([x if isinstance(x, st.STensor) else st.tensor(x) for x in xs], axis) if has(tuple(xs)) else \
            rn.concatenate(xs, axis)
    m.concatenate = concatenate
    other = ("sum", "mean", "diff", "repeat", "tile", "power", "interp", "clip", "isclose", "allclose", "hstack",
             "vstack", "stack", "full", "empty", "floor", "ceil", "round", "full_like", "empty_like", "select")

    def attr(n):
        f = getattr(rn, n)
        if n in other:
            def g(*a, **k):
                if has(a) or has(tuple(k.values())):
                    raise Unsupported(f"numpy.{n}")
                if "dtype" in k:
                    k["dtype"] = rdt(k["dtype"])
                return f(*a, **k)
            return g
        return f
    m.__getattr__ = attr
    return m


def make_warnings():
    import warnings as rw
    m = _Mod("warnings")

    def warn(msg, *a, **k):
        c = cx.cur()
        if c is not None:
            c.warned = getattr(c, "warned", 0) + 1
    m.warn = warn
    m.simplefilter = m.filterwarnings = lambda *a, **k: None
    m.catch_warnings = rw.catch_warnings
    return m
