"""Contract harness: symbolic (proof) mode and concrete (replay) mode.

A contract is a python function f(h, **config).  The same function is run
  * symbolically: h.mod() gives the real source of /repo executed over terms, every h.eq/h.jac/...
    is an obligation that must be discharged for all sizes and values, on every feasible path;
  * concretely: h.mod() gives the real pyoptmat package on real torch, inputs are sampled, and the
    same obligations are evaluated (replay of counterexamples, bounded stand-in).
"""
import builtins
import os
import random
import sys
import time
import traceback
from fractions import Fraction

from . import terms as tm
from .terms import I, R, ZERO, ONE, TRUE, FALSE, Unsupported
from . import ctx as cx
from . import nf
from . import stensor as st
from . import ext
from . import history
from . import loader
from . import loops

REPO = loader.REPO


class Reject(Exception):
    """A concrete sample outside the precondition."""


class Infeasible(Exception):
    """The path's hypotheses are contradictory."""


class Fail(Exception):
    pass


# ------------------------------------------------------------------ registry
REG = []


class Contract:
    def __init__(self, prop, name, fn, configs, functions, samples, expect, sym, internal=()):
        self.prop, self.name, self.fn, self.internal = prop, name, fn, internal
        self.configs = configs
        self.functions = functions
        self.samples = samples
        self.expect = expect
        self.sym = sym

    def prior(self, cfg):
        """Another configuration, used before this one in the same process."""
        n = len(self.configs)
        i = self.configs.index(cfg) if cfg in self.configs else 0
        return self.configs[(i + max(1, n // 3)) % n] if n > 1 else None


def contract(prop, name, configs=({},), functions=(), samples=20, expect=None, sym=True, internal=()):
    """internal: {"module:qualified name": number of arguments} of helpers behind the interface which the contract is about."""
    def dec(f):
        REG.append(Contract(prop, name, f, list(configs), list(functions), samples, expect, sym, internal))
        return f
    return dec


def told(e):
    """Is the exception one by which the code tells its caller of a failure (or a singular system), rather than an accident?"""
    last = traceback.extract_tb(e.__traceback__)[-1]
    return last.filename.startswith(REPO) and (last.line or "").lstrip().startswith("raise") or isinstance(e, RuntimeError) and (
        type(e).__name__ == "LinAlgError" or "linalg." in str(e))


def absent(internal):
    """Why a contract of internal functions has no subject in this tree, if so."""
    import ast
    for x, n in dict(internal).items():
        mod, q = x.split(":")
        try:
            node = ast.parse(open(os.path.join(REPO, *mod.split(".")) + ".py").read())
        except (OSError, SyntaxError):
            return None
        for part in q.split("."):
            node = next((c for c in node.body if getattr(c, "name", None) == part), None)
            if node is None:
                return f"there is no {q}"
        if isinstance(node, ast.FunctionDef):
            a = node.args
            pos = len(a.posonlyargs + a.args)
            if not (pos - len(a.defaults) <= n and (n <= pos or a.vararg)):
                return f"{q} takes other arguments"
    return None


RANKS = ({"rank": 1}, {"rank": 2})


# ------------------------------------------------------------------ symbolic harness
class Obl:
    __slots__ = ("name", "ok", "why", "backend", "cases", "time")

    def __init__(self, name, ok, why="", backend="", cases=0, time=0.0):
        self.name, self.ok, self.why, self.backend, self.cases, self.time = name, ok, why, backend, cases, time


class SymKey:
    """A string known only to be one of keys."""

    def __init__(self, code, keys):
        self.code, self.keys = code, keys

    def __hash__(self):
        raise Unsupported("symbolic string as a key")

    def __eq__(self, o):
        if isinstance(o, str):
            return self.code == (self.keys.index(o) if o in self.keys else -1)
        raise Unsupported("comparison of symbolic strings")

    def __ne__(self, o):
        return ~(self == o)


class SymDict(dict):
    def __getitem__(self, k):
        if isinstance(k, SymKey):
            vs = [dict.__getitem__(self, x) for x in k.keys]
            if any(type(v) is not int for v in vs):
                raise Unsupported("lookup of a symbolic string")
            r = tm.I(vs[-1])
            for j in reversed(range(len(vs) - 1)):
                r = tm.iite(tm.ieq(st.as_iT(k.code), I(j)), I(vs[j]), r)
            return st.wi(r)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        return self[k] if isinstance(k, SymKey) else dict.get(self, k, d)


class SymH:
    sym = True
    tm = tm

    def term(self, k):
        return st.as_iT(k)

    def size(self, x, d):
        return st.wi(x.dims[d])

    def initialised(self, name, x):
        """No element is one that was never written."""
        with self.point(x.dims) as (vs,):
            t = nf.simp_conds(R(x.at(vs)), self.ctx)
            bad = uninit(t)
        self._add(name, not bad, f"may be uninitialised: {tm.show(t)[:300]}" if bad else "", "path")

    def __init__(self, ld, ctx):
        self.ld, self.ctx = ld, ctx
        self.torch = ld.shims["torch"]
        self.obls = []
        self.earlier_results = []
        self.inputs = []
        self.assumed = []
        self.rng = random.Random(0)
        self.noframe = set()
        self.witness = []
        self.elementwise = []

    # ---- environment
    def mod(self, n):
        return self.ld.load(n)

    def earlier(self, f, *tensors):
        """f() was called before, when the tensors held other values."""
        self.earlier_results.append(history.earlier(self.ctx, lambda _, *a: f(), None, tensors, {}))

    @property
    def warming(self):
        """Inside the earlier call of history.py."""
        return self.ctx.warm is not None

    def dim(self, name, lo=1, hi=4, choices=None):
        v = tm.ivar(name)
        self.ctx.varfacts[v] = [tm.ile(I(lo), v)]
        self.ctx.assume(tm.ile(I(lo), v))
        return st.SymInt(v)

    def batch(self, rank, lo=1):
        return tuple(self.dim(f"nb{k}", lo) for k in range(rank))

    def idx(self, name, n):
        v = tm.ivar(name)
        self.ctx.varfacts[v] = [tm.ile(I(0), v), tm.ilt(v, st.as_iT(n))]
        self.ctx.assume(tm.ile(I(0), v))
        self.ctx.assume(tm.ilt(v, st.as_iT(n)))
        return st.SymInt(v)

    def real(self, name, shape, pos=False, gt=None, ge=None, lt=None, le=None, nonzero=False, con=None,
             frame=True, facts=None, zeros=False):
        dims = tuple(st.as_iT(x) for x in shape)
        d = {"pos": pos or (isinstance(gt, (int, float)) and gt >= 0)}
        bnds = [(gt, lambda t, b: tm.rlt(b, t)), (ge, lambda t, b: tm.rle(b, t)),
                (lt, lambda t, b: tm.rlt(t, b)), (le, lambda t, b: tm.rle(t, b))]
        if pos:
            bnds.append((0, lambda t, b: tm.rlt(b, t)))
        bnds = [(b, f) for b, f in bnds if b is not None]
        snaps = [((b.snap(), b.dims) if isinstance(b, st.STensor) else b, f) for b, f in bnds]

        def ff(t):
            ix = t.args[1]
            out = []
            for b, f in snaps:
                if isinstance(b, tuple):
                    bt = R(b[0](st.bidx(b[1], dims, ix)))
                else:
                    bt = st.as_rT(b)
                out.append(f(t, bt))
            if nonzero:
                out.append(tm.bnot(tm.req(t, ZERO)))
            if facts:
                out += facts(t, ix)
            return out
        d["facts"] = ff
        d["dims"] = dims
        self.ctx.decl[name] = d
        t = st.STensor.new(dims, lambda ix: tm.app(name, ix), "f", name)
        t.app = name
        if frame:
            self.inputs.append((name, t, t.st.get, t.st))
        return t

    def mask(self, name, shape):
        dims = tuple(st.as_iT(x) for x in shape)
        return st.STensor.new(dims, lambda ix: tm.bu(name, *ix), "b", name)

    def nanable(self, x, bad):
        """x, not a number where bad."""
        return ext.Ext(x, bad)

    def ints(self, name, shape, lo, hi):
        """Integer tensor with entries in [lo, hi]."""
        dims = tuple(st.as_iT(x) for x in shape)
        self.ctx.decl[name] = {"facts": lambda t: [tm.ile(st.as_iT(lo), t), tm.ile(t, st.as_iT(hi))]}
        return st.STensor.new(dims, lambda ix: tm.uint(name, *ix), "i", name)

    def phases(self, name, n, batch, k):
        """Integer labels (n, batch): per sample 0 ... 0 1 ... 1 ... k ... k (some labels possibly absent).
        Returns (labels, [first position with a label >= j for j = 1..k])."""
        n_ = st.as_iT(n)
        dims = tuple(st.as_iT(b) for b in batch)
        cuts, lo = [], 0
        for j in range(1, k + 1):
            c = self.ints(f"{name}~cut{j}", batch, 0, n)
            if j > 1:
                p, f0 = cuts[-1].snap(), self.ctx.decl[f"{name}~cut{j}"]["facts"]
                self.ctx.decl[f"{name}~cut{j}"]["facts"] = lambda t, p=p, f0=f0: f0(t) + [tm.ile(p(t.args[1]), t)]
            cuts.append(c)
        snaps = [c.snap() for c in cuts]
        self.witness.append((dims, lambda i: (tm.I(0),) + tuple(s(i) for s in snaps)))
        lab = st.STensor.new((n_,) + dims, lambda i: tm.isum_list(
            [tm.iite(tm.ile(s(i[1:]), i[0]), I(1), I(0)) for s in snaps]), "i", name)
        return lab, cuts

    def texts(self, name, n, keys):
        """A sequence of n strings, each one of keys; returns (sequence, tensor of positions in keys)."""
        c = self.ints(name, (n,), 0, len(keys) - 1)
        return loops.SymSeq(st.as_iT(n), lambda i: SymKey(st.wi(c.at((st.as_iT(i),))), tuple(keys))), c

    def columns(self, f):
        """A contract f(tensors) that treats each experiment (entry of the last axis) on its own, applied
        to tensors or to a selection of experiments."""
        def g(*ts):
            ms = [t for t in ts if isinstance(t, st.Masked)]
            if not ms:
                return f(*ts)
            if len(ms) != len(ts) or any(m.pos != ms[0].pos or not st.same_mask(m.mask, ms[0].mask) for m in ms):
                raise Unsupported("selections of different experiments")
            if ms[0].pos + 1 != len(ms[0].base.dims):
                raise Unsupported("selection of something else than experiments")
            return st.Masked(f(*[m.base for m in ms]), ms[0].pos, ms[0].mask)
        return g

    def dictionary(self, mod, name):
        """Let a module-level dictionary be looked up with symbolic strings."""
        m = self.mod(mod)
        self.patch(mod, name, SymDict(getattr(m, name)))

    # ---- sorted data and interval location
    def increasing(self, name, shape, axis=-1, weak=False):
        """Tensor strictly increasing along an axis (weak: only its first step is, the others nondecreasing)."""
        shape = shape if isinstance(shape, tuple) else (shape,)
        t = self.real(name, shape)
        ax = axis % len(shape)

        def pair(a, b):
            ia, ib = a.args[1], b.args[1]
            same = tm.band(*[tm.ieq(p, q) for k, (p, q) in enumerate(zip(ia, ib)) if k != ax])
            lt = tm.rlt if not weak else lambda x, y: tm.rle(x, y)
            if weak:
                zero = lambda i: tm.band(same, tm.ieq(i, I(0)))
                first = [tm.bor(tm.bnot(tm.band(zero(ia[ax]), tm.ilt(I(0), ib[ax]))), tm.rlt(a, b)),
                         tm.bor(tm.bnot(tm.band(zero(ib[ax]), tm.ilt(I(0), ia[ax]))), tm.rlt(b, a))]
            else:
                first = []
            return first + [tm.bor(tm.bnot(tm.band(same, tm.ilt(ia[ax], ib[ax]))), lt(a, b)),
                    tm.bor(tm.bnot(tm.band(same, tm.ilt(ib[ax], ia[ax]))), lt(b, a)),
                    tm.bor(tm.bnot(tm.band(same, tm.ieq(ib[ax], ia[ax]))), tm.req(b, a))]
        self.ctx.decl[name]["pair"] = pair
        return t

    def pick(self, x, j):
        """x[lead..., n] at j[batch...]: element j of each sample's row (lead = trailing batch dims)."""
        xs, js, nl = x.snap(), j.snap(), len(x.dims) - 1
        xd, jd = x.dims, j.dims
        return st.STensor.new(jd, lambda b: xs(st.bidx(xd[:-1], jd[len(jd) - nl:], b[len(b) - nl:]) + (js(b),)), "f")

    def in_interval(self, name, batch, x, left=True):
        """A query point per batch entry, anywhere in the range of the sorted data x[lead..., n].
        Every such point lies in some interval j: x_j <= t <= x_{j+1} (ghost; left=False: x_j < t
        except at the first point, which is also always possible)."""
        batch = tuple(batch)
        n = x.dims[-1]
        j = self.ints(name + "~interval", batch, 0, st.SymInt(tm.isub(n, I(2))))
        x0, x1 = self.pick(x, j), self.pick(x, j + 1)
        s0, s1 = x0.snap(), x1.snap()
        t = self.real(name, batch, ge=x0, le=x1, facts=lambda t, ix: [tm.rlt(R(s0(ix)), R(s1(ix)))] + (
            [] if left else [tm.bor(tm.ieq(js(ix), I(0)), tm.rlt(R(s0(ix)), t))]))
        js = j.snap()
        dims = tuple(st.as_iT(b) for b in batch)
        self.witness.append((dims, lambda i: [js(i), tm.isub(js(i), I(1))]))
        return t, j, x0, x1

    def unique_candidates(self, lead, K, all_=False):
        """Candidate positions per element of lead, from the interval ghosts whose dims are lead,
        up to unit dims and reversal."""
        one = lambda ds: [k for k, d in enumerate(ds) if tm.iconst(d) != 1]
        kl = one(lead)
        out = []
        for dims, f in self.witness:
            kd = one(dims)
            if len(kd) != len(kl):
                continue
            for rev in (False, True):
                ks = kl[::-1] if rev else kl
                if all(st.eqdim(lead[a], dims[b]) for a, b in zip(ks, kd)):
                    def g(i, ks=ks, kd=kd, dims=dims, f=f):
                        ix = [I(0)] * len(dims)
                        for a, b in zip(ks, kd):
                            ix[b] = i[a]
                        js = f(tuple(ix))
                        if isinstance(js, tuple):
                            return js
                        j, jm = js
                        return [tm.iadd(j, I(1)), tm.iadd(j, I(2)), j] if all_ else [j, jm]
                    out.append(g)
        if out:
            return out
        raise Unsupported("masked selection without a known witness")

    def prove(self, name, goal):
        """Obligation raised while executing the code."""
        t0 = time.time()
        r = nf.prove_bool(goal, self.ctx)
        self._add(name, r.ok, r.why, r.backend, r.cases, t0)

    def stub(self, mod, fn, repl):
        """Replace a callee by its contract."""
        if (mod, fn) not in loader.STUBBABLE:
            raise Unsupported(f"{mod}.{fn} cannot be replaced by its contract")
        self.ld.stubs[(mod, fn)] = repl

    def patch(self, mod, name, repl):
        """Replace a class of a module, or an attribute of a class ("Class.method"), by its contract."""
        m = self.mod(mod)
        *cls, name = name.split(".")
        for c in cls:
            m = getattr(m, c)
        if name not in m.__dict__:
            raise Unsupported(f"there is no {'.'.join(cls + [name])} to stand for")
        self.ld.patches.append((m, name, m.__dict__[name]))
        setattr(m, name, repl)

    def torch_stub(self, name, repl):
        """Replace a function of torch by its contract."""
        m = self.torch
        *mods, name = name.split(".")
        for c in mods:
            m = getattr(m, c)
        old = m.__dict__.get(name, loader.ABSENT)
        self.ld.patches.append((m, name, old))
        setattr(m, name, repl)

    def sequence(self, name, n, lo=None, hi=None):
        """A sequence of n arbitrary integers (ghost: the same name is the same sequence)."""
        self.ctx.decl[name] = {"facts": lambda t: ([tm.ile(st.as_iT(lo), t)] if lo is not None else []) + (
            [tm.ile(t, st.as_iT(hi))] if hi is not None else [])}
        return loops.SymSeq(st.as_iT(n), lambda i: st.wi(tm.uint(name, st.as_iT(i))))

    def mapped(self, seq, f):
        """The sequence f(k), k = 0 .. len - 1."""
        return loops.SymSeq(seq.n, f)

    def choose(self, label):
        """Both answers, on separate paths."""
        return self.ctx.choose(label)

    def reached(self, j, n):
        """The loop over n items has ended at j."""
        return self.ctx.entails(tm.ieq(st.as_iT(j), st.as_iT(n)))

    def seq_len(self, x):
        return loops.sym_len(x)

    def is_seq(self, x):
        return isinstance(x, loops.SymSeq)

    def is_range(self, x, n):
        """range(n)"""
        return isinstance(x, loops.SymRange) and x.a is I(0) and x.s is I(1) and self.ctx.entails(tm.ieq(x.b, st.as_iT(n)))

    def loop(self, mod, qual, n=0, **k):
        """Attach a contract (init, havoc, check, managed, attrs, when) to the n-th loop of a function."""
        self.ctx.loops[(mod, qual, n)] = loops.Spec(**k)

    def like(self, *shape, dtype="f"):
        """Role of a loop contract: a tensor of this shape."""
        return loops.Like(shape, dtype)

    def attempt(self, f):
        """(result, None | "warned" | the exception raised)."""
        w0 = getattr(self.ctx, "warned", 0)
        try:
            r = f()
        except Exception as e:
            if not told(e):
                raise
            return None, e
        return r, "warned" if getattr(self.ctx, "warned", 0) > w0 else None

    def int(self, name, lo=None, hi=None):
        v = tm.fresh_ivar(name)
        f = []
        if lo is not None:
            f.append(tm.ile(st.as_iT(lo), v))
        if hi is not None:
            f.append(tm.ile(v, st.as_iT(hi)))
        self.ctx.varfacts[v] = f
        for x in f:
            self.ctx.assume(x)
        return st.SymInt(v)

    def arbitrary(self, shape, name="any"):
        """A fresh tensor about which nothing is known."""
        return self.real(f"{name}!{st._next()}", shape, frame=False)

    def havoc(self, t, name=None):
        """Overwrite a tensor's storage with arbitrary values."""
        nm = f"{name or 'hv'}!{st._next()}"
        s = t.st
        s.set(lambda i: tm.app(nm, i) if t.dtype == "f" else tm.uint(nm, *i) if t.dtype == "i" else tm.bu(nm, *i))
        s.version += 1
        return nm

    def shift(self, x, s):
        """Row r is x[r - s], zero for r < s."""
        g, s = x.snap(), st.as_iT(s)
        return st.STensor.new(x.dims, lambda i: tm.rite(tm.ile(s, i[0]), R(g((tm.isub(i[0], s),) + tuple(i[1:]))), ZERO))

    def rowview(self, t, i, m):
        """The 2^m rows of t as (2^i, 2^(m-i)): entry (p, q) is row p + 2^i q, in place."""
        from . import strided
        from .shim import LU
        u = t.unsqueeze(0)
        i, m = st.as_iT(i), st.as_iT(m)
        s = tm.pow2(i)
        v = strided.rowview(u, strided.rows_of(u), s, tm.pow2(tm.isub(m, i)), I(1), s)
        if isinstance(t, LU):
            v.__class__ = LU
        return v

    def same_view(self, a, b):
        """Both tensors are the same elements of the same memory."""
        if not (isinstance(a, st.STensor) and a.st is b.st and len(a.dims) == len(b.dims)):
            return False
        if not all(x is y or self.ctx.entails(tm.ieq(x, y)) for x, y in zip(a.dims, b.dims)):
            return False
        idx = tuple(self.ctx.new_var("x", d) for d in a.dims)
        fa = a.fwd(idx) if a.fwd else idx
        fb = b.fwd(idx) if b.fwd else idx
        return all(x is y or self.ctx.entails(tm.ieq(x, y)) for x, y in zip(fa, fb))

    def root(self, name, R_, J_, x0):
        """The contract of a nonlinear solve for a batch of scalar equations: returns x with R(x) = 0,
        J(x) its exact, nonzero derivative (obligations on the caller's R, J are emitted)."""
        nb = len(x0.dims) - 1
        if tm.iconst(x0.dims[-1]) != 1:
            raise Unsupported("root: scalar systems only")
        nm = f"{name}!{st._next()}"
        xg = self.real(nm + "~any", x0.shape, frame=False)
        r, j = R_(xg), J_(xg)
        self.shape(name + ": residual shape", r, x0.shape)
        self.jac(name + ": Jacobian given to the solver", j, r, xg, nb)
        x = self.real(nm, x0.shape, frame=False)
        r, j = R_(x).clone(), J_(x).clone()
        dx = self.ctx.decl[nm]
        z = (I(0),)
        dx["eqs"] = lambda t: [R(r.at(t.args[1]))]
        dx["facts"] = lambda t: [tm.req(R(r.at(t.args[1])), ZERO)]

        def chain(app, idx):
            def impl(t, dd):
                if t.args[0] != nm:
                    return None
                b = t.args[1][:-1]
                d = nf.diff(R(r.at(b + z)), app, idx)
                return tm.rneg(tm.rdiv(d, R(j.at(b + z + z))))
            return impl
        self.ctx.root_nonzero = (nm, j)
        x.chain = chain
        return x, j

    def fresh(self):
        self.nfresh = getattr(self, "nfresh", 0) + 1
        return self.nfresh

    def flt(self, name, **k):
        t = self.real(name, (), frame=False, **k)
        return st.SymReal(t.at(()))

    def pyro_reset(self):
        from . import pyroshim
        self.ctx.pyro = pyroshim.State()

    def pyro_run(self, f, *args):
        """Run a pyro model or guide; (result, {site name: site}, {parameter name: parameter})."""
        from . import pyroshim
        s = pyroshim.state()
        s.sites = {}
        r = f(*args)
        for x in s.sites.values():
            x.weight = x.scale
        return r, dict(s.sites), dict(s.params)

    def track(self, name, t):
        """Frame-check an already existing tensor."""
        self.inputs.append((name, t, t.st.get, t.st))

    def fn(self, name, batch, scalars=(), vectors=(), out=(), bidx=True, pos=False):
        """Uninterpreted smooth function, per batch entry; returns tensor batch+out."""
        batch = tuple(st.as_iT(b) for b in batch)
        out = tuple(st.as_iT(o) for o in out)
        if pos:
            self.ctx.decl.setdefault(name, {"pos": True, "facts": lambda t: [tm.rgt0(t)]})
        return self._fn(name, batch, scalars, vectors, out, None, bidx)

    def dfn(self, name, batch, scalars=(), vectors=(), out=(), wrt=None, bidx=True):
        """Partial derivative wrt ('a',k) scalar or ('v',k) vector (adds the vector's dim at the end)."""
        batch = tuple(st.as_iT(b) for b in batch)
        out = tuple(st.as_iT(o) for o in out)
        return self._fn(name, batch, scalars, vectors, out, wrt, bidx)

    def _fn(self, name, batch, scalars, vectors, out, wrt, bidx=True):
        nb = len(batch)
        ss = [(x.snap(), x.dims) if isinstance(x, st.STensor) else ((lambda i, x=x: st.as_rT(x)), ()) for x in scalars]
        vs = [(v.snap(), v.dims) for v in vectors]
        dims = batch + out
        if wrt is not None and wrt[0] == "v":
            dims = dims + (vs[wrt[1]][1][-1],)

        def get(ix):
            b, rest = ix[:nb], ix[nb:]
            last = None
            if wrt is not None and wrt[0] == "v":
                rest, last = rest[:-1], rest[-1]
            args = tuple(R(s(st.bidx(d, batch, b))) for s, d in ss)
            lams = []
            for s, d in vs:
                w = self.ctx.new_var("w", d[-1])
                lams.append(tm.lam(w, nf.simp_conds(R(s(st.bidx(d[:-1], batch, b) + (w,))), self.ctx)))
            ii = (tuple(b) if bidx else ()) + tuple(rest)
            if not lams:
                nm = name
                if wrt is None:
                    return tm.app(nm, ii, args)
                return nf.partial(nm, wrt[1], ii, args)
            nf.UFDIM[name] = tuple(d[-1] for s, d in vs)
            if wrt is None:
                return tm.ufapp(name, ii, args, lams)
            return nf.ufpartial(name, wrt, ii, args, tuple(lams), last)
        return st.STensor.new(dims, get, "f")

    # ---- assumptions
    def require(self, c, why=""):
        if isinstance(c, st.STensor):
            vs = tuple(self.ctx.new_var("h", d) for d in c.dims)
            if vs:
                cc = c.clone()
                self.elementwise.append((tuple(cc.dims), cc.bterm))
                t = c.bterm(vs)
                for v, d in zip(reversed(vs), reversed(c.dims)):
                    t = tm.forall(d, v, t)
            else:
                t = c.bterm(())
        else:
            t = st.as_bT(c)
        if t is FALSE:
            raise Infeasible(why)
        self.ctx.assume(t)

    def split(self, c):
        """Explore both truth values of a condition on separate paths."""
        return self.ctx.decide(st.as_bT(c))

    def point(self, *groups):
        """Fresh index variables for each group of sizes; elementwise assumptions are
        instantiated there (for the duration of the obligation)."""
        h = self

        class P:
            def __enter__(p):
                p.saved = list(h.ctx.hyps), h.ctx.cache
                vs = [tuple(I(0) if tm.iconst(d) == 1 else h.ctx.new_var("x", d) for d in g) for g in groups]
                add = []
                for g, v in zip(groups, vs):
                    for dims, f in h.elementwise:
                        if len(dims) <= len(g) and all(a is b or tm.iconst(a) == 1 for a, b in zip(dims, g[len(g) - len(dims):])):
                            add.append(f(st.bidx(dims, tuple(g), v)))
                if add:
                    h.ctx.cache = {}
                    for a in add:
                        h.ctx.assume(a)
                return vs

            def __exit__(p, *a):
                h.ctx.hyps, h.ctx.cache = p.saved
        return P()

    # ---- obligations
    def _add(self, name, ok, why="", backend="", cases=0, t0=None):
        self.obls.append(Obl(name, ok, why, backend, cases, time.time() - t0 if t0 else 0.0))

    def _tensor(self, x):
        if isinstance(x, st.STensor):
            return x
        if isinstance(x, st.Masked):
            return x.flat()
        return st.scalar(x)

    def _dims_eq(self, name, a, b):
        """rank and sizes equal."""
        if len(a) != len(b):
            self._add(name + ":shape", False, f"rank {len(a)} vs {len(b)}: {a} vs {b}", "shape")
            return False
        for p, q in zip(a, b):
            if p is not q and not self.ctx.entails(tm.ieq(p, q)):
                self._add(name + ":shape", False, f"shape {a!r} vs {b!r}", "shape")
                return False
        return True

    def shape(self, name, x, shape):
        if self._dims_eq(name, tuple(x.dims), tuple(st.as_iT(s) for s in shape)):
            self._add(name + ":shape", True, backend="shape")

    def eq(self, name, got, want, bcast=False, cases=()):
        t0 = time.time()
        if isinstance(got, ext.Ext) or isinstance(want, ext.Ext):
            (a, m), (b, n) = [(x, y if y is not None else st.full(x.shape, False, dtype=st.DType("b")))
                 for x, y in (ext.split(got), ext.split(want))]
            self.eq(name + " (numbers)", st.where(n, 0.0, a), st.where(n, 0.0, b))
            return self.eq(name + " (NaN)", m, n)
        got, want = self._tensor(got), self._tensor(want)
        if bcast:
            try:
                got, want = st.broadcast_list([got, want])
            except st.ShapeError as e:
                self._add(name, False, f"shapes not broadcastable: {e}", "shape")
                return
        if not self._dims_eq(name, got.dims, want.dims):
            return
        with self.point(got.dims) as (vs,):
            a, b = got.at(vs), want.at(vs)
            if a.sort == "B" or b.sort == "B":
                a, b = got.bterm(vs), want.bterm(vs)
                r = nf.prove_bool(tm.band(tm.bor(tm.bnot(a), b), tm.bor(a, tm.bnot(b))), self.ctx)
            elif a.sort == "I" and b.sort == "I":
                r = nf.prove_bool(tm.ieq(a, b), self.ctx)
            else:
                r = nf.prove_zero(tm.rsub(R(a), R(b)), self.ctx)
        self._add(name, r.ok, r.why, r.backend, r.cases, t0)

    def same(self, got, want):
        """Are the tensors provably equal?  (no obligation)"""
        n = len(self.obls)
        try:
            self.eq("?", got, want)
            return all(o.ok for o in self.obls[n:])
        except Unsupported:
            return False
        finally:
            del self.obls[n:]

    def jac(self, name, J, out, x, nb, chain=None):
        """J[b..., i..., j...] == d out[b..., i...] / d x[b..., j...], and out[b] independent of x[b'].
        chain: implicit-derivative hook (see nf.diff)."""
        t0 = time.time()
        if not hasattr(x, "app"):
            raise Unsupported("jac wrt non-input")
        dims = tuple(out.dims) + tuple(x.dims[nb:])
        if not self._dims_eq(name, J.dims, dims):
            return
        if tuple(out.dims[:nb]) != tuple(x.dims[:nb]):
            for p, q in zip(out.dims[:nb], x.dims[:nb]):
                if not self.ctx.entails(tm.ieq(p, q)):
                    self._add(name + ":shape", False, f"batch {out.dims} {x.dims}")
                    return
        with self.point(out.dims[:nb], out.dims[nb:], x.dims[nb:]) as (b, i, j):
            self._jac(name, J, out, x, nb, chain, t0, b, i, j)

    def _jac(self, name, J, out, x, nb, chain, t0, b, i, j):
        ch = (lambda idx: chain(x.app, idx)) if chain else (lambda idx: None)
        g = nf.diff(R(out.at(b + i)), x.app, b + j, ch(b + j))
        r = nf.prove_zero(tm.rsub(R(J.at(b + i + j)), g), self.ctx)
        self._add(name, r.ok, r.why, r.backend, r.cases, t0)
        if nb:
            t0 = time.time()
            ok, why, cs = True, "", 0
            for k in range(nb):
                b2 = tuple(self.ctx.new_var("c", d) for d in x.dims[:nb])
                sv, sc = list(self.ctx.hyps), self.ctx.cache
                self.ctx.hyps.append(tm.bnot(tm.ieq(b[k], b2[k])))
                self.ctx.cache = {}
                g = nf.diff(R(out.at(b + i)), x.app, b2 + j, ch(b2 + j))
                r = nf.prove_zero(g, self.ctx)
                self.ctx.hyps, self.ctx.cache = sv, sc
                if not r.ok:
                    ok, why = False, r.why
                cs += r.cases
            self._add(name + ":batch-independent", ok, why, "nf", cs, t0)

    def operator(self, name, J, R_, X):
        """J (bidiagonal operator: A blocks on the diagonal, B below) is the exact derivative of
        R[b, j, i] with respect to X[b, k, l]."""
        b, n, p = X.shape
        A, B = J.A, J.B
        self.shape(name + " diagonal", A, (n, b, p, p))
        self.shape(name + " off-diagonal", B, (n - 1, b, p, p))
        a, bb = A.snap(), B.snap()

        def dense(i):
            bi, j, r, k, c = i
            return tm.radd(tm.rite(tm.ieq(j, k), R(a((j, bi, r, c))), ZERO),
                           tm.rite(tm.ieq(j, tm.iadd(k, I(1))), R(bb((k, bi, r, c))), ZERO))
        D = st.STensor.new(X.dims + X.dims[1:], dense, "f")
        X.app = X.st.name if not hasattr(X, "app") else X.app
        self.jac(name + " is the exact derivative of the residual", D, R_, X, 1)

    def holds(self, name, c):
        """c: tensor (elementwise) or bool."""
        t0 = time.time()
        if isinstance(c, (bool,)):
            self._add(name, c, "" if c else "false", "python")
            return
        dims = c.dims if isinstance(c, st.STensor) else ()
        with self.point(dims) as (vs,):
            g = c.bterm(vs) if isinstance(c, st.STensor) else st.as_bT(c)
            r = nf.prove_bool(g, self.ctx)
        self._add(name, r.ok, r.why, r.backend, r.cases, t0)

    def within(self, name, x, lo=None, hi=None):
        """lo <= x <= hi, elementwise (floating-point comparison with a tolerance when replayed)."""
        if lo is not None:
            self.holds(name + ":lower", x >= lo)
        if hi is not None:
            self.holds(name + ":upper", x <= hi)

    def defined(self, name, x):
        """Every element is a well-defined finite real: no division by zero, no power or
        logarithm outside its domain, on every input of the precondition."""
        t0 = time.time()
        x = self._tensor(x)
        ok, why = True, ""
        with self.point(x.dims) as (vs,):
            t = x.at(vs)
            for g, c in tm.side_conditions(t, self.ctx.new_var):
                sv, sc = list(self.ctx.hyps), self.ctx.cache
                self.ctx.cache = {}
                self.ctx.hyps.extend(g)
                r = nf.prove_bool(c, self.ctx)
                self.ctx.hyps, self.ctx.cache = sv, sc
                if not r.ok:
                    ok, why = False, f"not shown: {tm.show(c)[:300]} ({r.why[:300]})"
                    break
        self._add(name, ok, why, "z3", 1, t0)

    def raises(self, name, exc, f):
        try:
            f()
        except exc:
            self._add(name, True, backend="path")
            return
        except (Unsupported, Infeasible):
            raise
        except Exception as e:
            self._add(name, False, f"raised {type(e).__name__}: {e}", "path")
            return
        self._add(name, False, "no exception", "path")

    def fail(self, name, why):
        self._add(name, False, why, "path")

    def ok(self, name):
        self._add(name, True, "", "path")

    def parameter(self, name, shape, **k):
        """A leaf of the autograd graph."""
        return self.torch.nn.Parameter(self.real(name, shape, **k))

    def gradient(self, name, f, params):
        """The results f() are put together from the parameters by operations autograd follows."""
        n = st.CUTS[0]
        r = f()
        if st.CUTS[0] != n:
            raise Unsupported("a tensor is taken off the autograd graph")
        self._add(name, True, "", "structure")
        return r

    # ---- finish
    def finish(self):
        for e in self.earlier_results:
            history.kept(self.ctx, e)
        for name, t, g0, s in self.inputs:
            if s.version == 0 or name in self.noframe:
                continue
            t0 = time.time()
            vs = tuple(self.ctx.new_var("x", d) for d in t.dims)
            r = nf.prove_zero(tm.rsub(R(t.at(vs)), R(g0(vs) if t.fwd is None else g0(t.fwd(vs)))), self.ctx)
            self._add(f"frame:{name} unmodified", r.ok, r.why, r.backend, r.cases, t0)


def uninit(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return False
    seen.add(t)
    if t.op == "u" and t.args[0].startswith("empty"):
        return True
    return any(uninit(c, seen) for c in tm.children(t))


# tolerate exceptions raised through python's torch-like API on symbolic shapes
class SymRun:
    def __init__(self):
        self.obls = []
        self.paths = 0
        self.infeasible = 0
        self.unsupported = None
        self.functions = set()
        self.time = 0.0
        self.assumptions = []
        self.max_paths = 256


_cov = {"on": False}


def _start_cov(found):
    """Record functions of /repo's pyoptmat that are executed (their code under contract)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return None
    tid = 3
    try:
        mon.use_tool_id(tid, "pvc")
    except ValueError:
        pass
    root = os.path.join(REPO, "pyoptmat")

    def cb(code, off):
        if code.co_filename.startswith(root):
            found.add(os.path.basename(code.co_filename)[:-3] + "." + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
    mon.restart_events()
    return tid


def _stop_cov(tid):
    if tid is None:
        return
    sys.monitoring.set_events(tid, 0)
    sys.monitoring.free_tool_id(tid)


class OutOfTime(BaseException):
    pass


def _alarm(*a):
    raise OutOfTime()


def run_sym(fn, cfg, deadline=None, prior=None):
    import signal
    res = SymRun()
    t0 = time.time()
    tid = _start_cov(res.functions)
    try:
        if deadline:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, max(0.01, deadline - t0))
        _run_sym(fn, cfg, res, deadline, prior)
    except OutOfTime:
        res.unsupported, res.timeout = "time budget exhausted", True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _stop_cov(tid)
        cx.CUR[0] = None
    res.functions = {f for f in res.functions if not f.endswith("<module>") and "<lambda>" not in f}
    res.time = time.time() - t0
    return res


def _dry(fn, prior, ld):
    """Execute one path of the contract in another configuration, proving nothing: whatever that leaves behind (in classes,
    modules, default arguments) is there when the configuration of interest is verified."""
    ctx = cx.Ctx()
    ctx.prefix = []
    cx.CUR[0] = ctx
    nf.DRY[0] = True
    try:
        h = SymH(ld, ctx)
        h.dropped = set()
        ctx.h = ctx.engine = h
        fn(h, **prior)
    except (Exception, loops.PathDone, loops.Retry):
        pass
    finally:
        nf.DRY[0] = False


def _run_sym(fn, cfg, res, deadline, prior=None):
    dropped = set()
    while True:
        try:
            return _run_paths(fn, cfg, res, deadline, dropped, prior)
        except loops.Retry:
            res.obls, res.paths, res.infeasible, res.assumptions = [], 0, 0, []


def _run_paths(fn, cfg, res, deadline, dropped, prior=None):
    prefixes = [[]]
    ld = loader.Loader()
    if prior is not None:
        _dry(fn, prior, ld)
    while prefixes:
        if res.paths + res.infeasible > res.max_paths:
            res.unsupported = "path budget exhausted"
            return
        if deadline and time.time() > deadline:
            res.unsupported = "time budget exhausted"
            res.timeout = True
            return
        p = prefixes.pop()
        ctx = cx.Ctx()
        ctx.prefix = p
        cx.CUR[0] = ctx
        h = SymH(ld, ctx)
        h.dropped = dropped
        ctx.h = h
        ctx.engine = h
        ld.stubs = {}
        ld.unpatch()
        label = ""
        try:
            fn(h, **cfg)
            h.finish()
        except Infeasible:
            prefixes.extend(ctx.pending)
            res.infeasible += 1
            continue
        except Unsupported as e:
            if os.environ.get("PVC_TB"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(REPO)]
            res.unsupported = f"{e}" + (f" at {os.path.basename(loc[-1].filename)}:{loc[-1].lineno}" if loc else
                                        " at " + "/".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:]))
            return
        except loops.PathDone:
            pass
        except RecursionError as e:
            res.unsupported = "recursion limit"
            return
        except Exception as e:
            if os.environ.get("PVC_TB"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(REPO)]
            where = f" at {os.path.basename(loc[-1].filename)}:{loc[-1].lineno}" if loc else ""
            inner = "" if loc else " | ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
            last = tb[-1]
            raised = (last.line or "").lstrip().startswith("raise ")
            own = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
            if not raised and (last.filename.startswith(own) or
                               (isinstance(e, (AttributeError, TypeError, NotImplementedError))
                                and last.filename.startswith(REPO))):
                res.unsupported = f"{type(e).__name__}: {e}{where} {inner or os.path.basename(last.filename) + ':' + str(last.lineno)}"
                return
            try:
                feas = ctx.check([], 5000)
            except Exception:
                feas = "unknown"
            if feas == "unsat":
                prefixes.extend(ctx.pending)
                res.infeasible += 1
                continue
            h._add("no exception on any admissible input", False,
                   f"{type(e).__name__}: {e}{where} {inner}; path {ctx.log!r}"[:1500], "path")
        prefixes.extend(ctx.pending)
        # vacuity: the path's hypotheses must be satisfiable
        if ctx.hyps:
            try:
                f = ctx.check([], 5000)
            except Unsupported:
                f = "unknown"
            if f == "unsat":
                res.infeasible += 1
                continue
        res.paths += 1
        lab = f"path{res.paths}" if (ctx.log or ctx.pending) else ""
        for o in h.obls:
            if lab:
                o.why = (f"[{lab}: " + "; ".join(f"{c!r}={v}" for c, v in ctx.log)[:300] + "] " + o.why) if not o.ok else o.why
            res.obls.append(o)
        for a in h.assumed:
            if a not in res.assumptions:
                res.assumptions.append(a)


# ------------------------------------------------------------------ concrete harness
_con = {}


def con_modules():
    if "torch" in _con:
        return _con["torch"]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import torch
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    _con["torch"] = torch
    return torch


EXTREME = 10 ** 9     # seeds from here on look for a failing input close to the bounds of the preconditions


class ConH:
    sym = False
    layouts = True

    def __init__(self, seed, scale="mid"):
        self.torch = con_modules()
        self.seed = seed
        self.rng = random.Random(seed)
        self.g = self.torch.Generator().manual_seed(seed * 7919 + 13)
        self.failures = []
        self.earlier_results = []
        self.extreme = seed >= EXTREME
        history.STATE.h = self
        self.checked = 0
        self.values = {}
        self.inputs = []
        self.noframe = set()
        self.assumed = []
        self.tol = 1e-4 if self.extreme else 1e-7
        self.fncache = {}

    def mod(self, n):
        import importlib
        m = importlib.import_module(n)
        history.wrap_concrete(m, n)
        return m

    warming = False

    def earlier(self, f, *tensors):
        keep = [(x, list(x)) for x in vars(self).values() if type(x) is list]
        rng, g = self.rng.getstate(), self.g.get_state()
        e = history.earlier_concrete(self.torch, lambda _, *a: f(), None, tensors, {})
        self.rng.setstate(rng)
        self.g.set_state(g)
        for x, y in keep:
            x[:] = y
        self.earlier_results.append(e)

    def dim(self, name, lo=1, hi=4, choices=None):
        if choices:
            v = self.rng.choice(choices)
        else:
            v = self.rng.randint(lo, max(lo, hi))
        self.values[name] = v
        return v

    def batch(self, rank, lo=1):
        return tuple(self.dim(f"nb{k}", lo, 3) for k in range(rank))

    def idx(self, name, n):
        v = self.rng.randrange(n)
        self.values[name] = v
        return v

    def real(self, name, shape, pos=False, gt=None, ge=None, lt=None, le=None, nonzero=False, con=None,
             frame=True, facts=None, zeros=False):
        torch = self.torch
        shape = tuple(int(s) for s in shape)
        lo = gt if gt is not None else ge
        hi = lt if lt is not None else le
        if pos and lo is None:
            lo = 0.0
        if con is not None:
            a, b = con
            u = torch.rand(shape, generator=self.g)
            x = a + (b - a) * u
            if lo is not None:
                x = torch.maximum(x, torch.as_tensor(lo, dtype=x.dtype) + 1e-3 * (1 if gt is not None or pos else 0))
            if hi is not None:
                x = torch.minimum(x, torch.as_tensor(hi, dtype=x.dtype))
        else:
            u = torch.rand(shape, generator=self.g)
            if lo is not None and hi is not None:
                lo_, hi_ = torch.as_tensor(lo, dtype=x_dtype(torch)), torch.as_tensor(hi, dtype=x_dtype(torch))
                x = lo_ + (hi_ - lo_) * (0.02 + 0.96 * u)
            elif lo is not None:
                x = torch.as_tensor(lo, dtype=x_dtype(torch)) + 0.05 + 2.0 * u
            elif hi is not None:
                x = torch.as_tensor(hi, dtype=x_dtype(torch)) - 0.05 - 2.0 * u
            else:
                x = 4.0 * u - 2.0
                if nonzero:
                    x = torch.where(x.abs() < 0.05, torch.full_like(x, 0.1), x)
        if zeros:
            x = torch.where(torch.rand(shape, generator=self.g) < 0.3, torch.zeros(shape), x)
        if self.extreme:
            w = 1.0 if lo is None or hi is None else torch.as_tensor(hi, dtype=x.dtype) - torch.as_tensor(lo, dtype=x.dtype)
            if hi is not None:
                x = torch.where(torch.rand(shape, generator=self.g) < 0.3, torch.as_tensor(hi, dtype=x.dtype) - 4e-4 * w, x)
            if lo is not None:
                x = torch.where(torch.rand(shape, generator=self.g) < 0.3, torch.as_tensor(lo, dtype=x.dtype) + 4e-4 * w, x)
            if lo is None and hi is None:
                x = torch.where(torch.rand(shape, generator=self.g) < 0.3, 20.0 * x, x)
        x = x.clone().contiguous()
        if x.shape != torch.Size(shape):
            x = x.expand(shape).clone()
        self.values[name] = x
        x = x.detach().clone().requires_grad_(False)
        if self.layouts and x.dim() > 1 and self.seed % 3 == 0:
            x = x.transpose(0, 1).contiguous().transpose(0, 1)        # same values in another memory layout
        if frame:
            self.inputs.append((name, x, x.detach().clone()))
        return x

    def nanable(self, x, bad):
        return self.torch.where(bad, self.torch.full_like(x, float("nan")), x)

    def mask(self, name, shape):
        x = self.torch.rand(tuple(shape), generator=self.g) > 0.5
        self.values[name] = x
        return x

    def ints(self, name, shape, lo, hi):
        x = self.torch.randint(int(lo), int(hi) + 1, tuple(shape), generator=self.g)
        self.values[name] = x
        return x

    def phases(self, name, n, batch, k):
        torch = self.torch
        cuts = torch.sort(torch.randint(0, int(n) + 1, (k,) + tuple(batch), generator=self.g), 0)[0]
        lab = (torch.arange(int(n)).reshape((1, -1) + (1,) * len(batch)) >= cuts[:, None]).sum(0)
        self.values[name] = lab
        return lab, list(cuts)

    def texts(self, name, n, keys):
        c = self.ints(name, (n,), 0, len(keys) - 1)
        import numpy as np
        return np.array([keys[int(i)] for i in c]), c

    def dictionary(self, mod, name):
        pass

    def columns(self, f):
        return f

    def shift(self, x, s):
        r = self.torch.zeros_like(x)
        if s < x.shape[0]:
            r[s:] = x[:x.shape[0] - s]
        return r

    def stub(self, mod, fn, repl):
        pass

    def loop(self, *a, **k):
        pass

    def patch(self, *a):
        pass

    def attempt(self, f):
        import warnings
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = f()
            except Exception as e:
                if not told(e):
                    raise
                return None, e
        return r, "warned" if any("did not succeed" in str(x.message) or
                                  x.filename.startswith(REPO) and "torch" not in str(x.message).lower() for x in w) else None

    def increasing(self, name, shape, axis=-1, weak=False):
        torch = self.torch
        shape = shape if isinstance(shape, tuple) else (shape,)
        x = self.real(name, shape, con=(0.2, 1.5), frame=False)
        if weak:
            keep = torch.rand(shape, generator=self.g) > 0.3
            keep.narrow(axis, 0, min(2, shape[axis])).fill_(True)
            x = x * keep
        x = x.cumsum(axis) - 1.0
        self.values[name] = x
        self.inputs.append((name, x, x.detach().clone()))
        return x

    def pick(self, x, j):
        lead = x.shape[:-1]
        x = x.expand(tuple(j.shape) + (x.shape[-1],)) if len(lead) == 0 else \
            x.reshape((1,) * (j.dim() - len(lead)) + tuple(x.shape)).expand(tuple(j.shape) + (x.shape[-1],))
        return self.torch.gather(x, -1, j.long()[..., None])[..., 0]

    def in_interval(self, name, batch, x, left=True):
        torch = self.torch
        j = self.ints(name + "~interval", tuple(batch), 0, x.shape[-1] - 2)
        x0, x1 = self.pick(x, j), self.pick(x, j + 1)
        j = torch.where(x1 > x0, j, torch.zeros_like(j))
        x0, x1 = self.pick(x, j), self.pick(x, j + 1)
        u = torch.rand(tuple(batch), generator=self.g)
        w = torch.rand(tuple(batch), generator=self.g)
        t = torch.where((w < 0.2) & ((j == 0) | left), x0, torch.where(w > 0.8, x1, x0 + (x1 - x0) * u))
        self.values[name] = t
        self.inputs.append((name, t, t.clone()))
        return t, j, x0, x1

    def fresh(self):
        self.nfresh = getattr(self, "nfresh", 0) + 1
        return self.nfresh

    def flt(self, name, **k):
        return float(self.real(name, (), frame=False, **k))

    def pyro_reset(self):
        import pyro
        pyro.clear_param_store()
        pyro.set_rng_seed(self.seed % (2 ** 31))

    def pyro_run(self, f, *args):
        import pyro
        import types
        tr = pyro.poutine.trace(f).get_trace(*args)
        sites, params = {}, {}
        for n, node in tr.nodes.items():
            if node["type"] == "param":
                params[n] = types.SimpleNamespace(value=node["value"])
            if node["type"] != "sample" or type(node["fn"]).__name__ in ("_Subsample", "_Categorical") or n in ("trials", "time"):
                continue
            d = node["fn"]
            ev = len(d.event_shape)
            while hasattr(d, "base_dist") and type(d).__name__ not in ("HalfNormal", "Normal", "Delta"):
                d = d.base_dist
            x = types.SimpleNamespace()
            x.kind, x.event = type(d).__name__, ev
            x.params = {k: getattr(d, k) for k in {"Normal": ("loc", "scale"), "HalfNormal": ("scale",), "Delta": ("v",)}[x.kind]}
            x.batch = tuple(node["fn"].batch_shape)
            x.event_dims = tuple(node["fn"].event_shape)
            x.value = node["value"]
            x.obs = node["value"] if node["is_observed"] else None
            sc = node["scale"]
            x.weight = None if sc is None or (isinstance(sc, (int, float)) and sc == 1) else sc
            x.plates = [(p.name, p.size, p.dim) for p in node["cond_indep_stack"]]
            sites[n] = x
        return tr.nodes["_RETURN"]["value"], sites, params

    def track(self, name, t):
        self.inputs.append((name, t, t.detach().clone()))

    # smooth random functions: f(a, v) = c0 + sum_k p_k sin(w_k . x + q_k)
    def _coef(self, name, nb, batch, n, outn):
        key = (name, tuple(batch), n, outn)
        if key not in self.fncache:
            torch = self.torch
            import zlib
            g = torch.Generator().manual_seed((self.seed * 1000003 + zlib.crc32(name.encode())) % (2**31))
            K = 3
            self.fncache[key] = (torch.rand(tuple(batch) + (outn,), generator=g) * 2 - 1,
                                 torch.rand(tuple(batch) + (outn, K), generator=g) * 2 - 1,
                                 torch.rand(tuple(batch) + (outn, K, n), generator=g) * 2 - 1,
                                 torch.rand(tuple(batch) + (outn, K), generator=g) * 3)
        return self.fncache[key]

    def _fnargs(self, batch, scalars, vectors):
        torch = self.torch
        cols, where_ = [], []
        for x in scalars:
            x = torch.as_tensor(x, dtype=torch.float64)
            where_.append((len(cols), None))
            cols.append(x.expand(batch).unsqueeze(-1))
        off = len(cols)
        pos = off
        vw = []
        for v in vectors:
            vw.append((pos, v.shape[-1]))
            cols.append(v.expand(tuple(batch) + (v.shape[-1],)))
            pos += v.shape[-1]
        X = torch.cat(cols, -1) if cols else torch.zeros(tuple(batch) + (0,))
        return X, vw

    def fn(self, name, batch, scalars=(), vectors=(), out=(), bidx=True, pos=False):
        torch = self.torch
        batch = tuple(batch)
        outn = 1
        for o in out:
            outn *= int(o)
        X, vw = self._fnargs(batch, scalars, vectors)
        c, p, w, q = self._coef(name, len(batch), batch if bidx else (1,) * len(batch), X.shape[-1], outn)
        ph = (w * X[..., None, None, :]).sum(-1) + q
        r = c + (p * torch.sin(ph)).sum(-1)
        if pos:
            r = 4.0 + c * 0.2 + 0.3 * (p * torch.sin(ph)).sum(-1)
        r = r.expand(batch + (outn,))
        return r.reshape(batch + tuple(out))

    def dfn(self, name, batch, scalars=(), vectors=(), out=(), wrt=None, bidx=True, pos=False):
        torch = self.torch
        batch = tuple(batch)
        outn = 1
        for o in out:
            outn *= int(o)
        X, vw = self._fnargs(batch, scalars, vectors)
        c, p, w, q = self._coef(name, len(batch), batch if bidx else (1,) * len(batch), X.shape[-1], outn)
        ph = (w * X[..., None, None, :]).sum(-1) + q
        G = (p[..., None] * torch.cos(ph)[..., None] * w).sum(-2)   # batch, outn, n
        if pos:
            G = 0.3 * G
        G = G.expand(batch + (outn, X.shape[-1]))
        if wrt[0] == "a":
            return G[..., wrt[1]].reshape(batch + tuple(out))
        a, n = vw[wrt[1]]
        return G[..., a:a + n].reshape(batch + tuple(out) + (n,))

    def require(self, c, why=""):
        if isinstance(c, self.torch.Tensor):
            c = bool(c.all())
        if not c:
            raise Reject(why)

    def split(self, c):
        return bool(c)

    # ---- obligations
    def _bad(self, name, msg):
        self.failures.append((name, msg))

    def shape(self, name, x, shape):
        self.checked += 1
        if tuple(x.shape) != tuple(shape):
            self._bad(name + ":shape", f"shape {tuple(x.shape)} expected {tuple(shape)}")

    def _close(self, a, b):
        torch = self.torch
        a, b = a.detach().to(torch.float64), b.detach().to(torch.float64)
        if a.numel() == 0:
            return None
        fin = torch.isfinite(b) & torch.isfinite(a)
        same = (a == b) | (torch.isnan(a) & torch.isnan(b))
        sc = torch.maximum(a.abs(), b.abs())
        scale = float(sc[fin].max()) if bool(fin.any()) else 1.0
        bad = ~(((a - b).abs() <= self.tol * (1.0 + sc) + 1e-9 * scale) & fin) & ~same
        if bool(bad.any()):
            k = int(bad.flatten().to(torch.int).argmax())
            return f"element {k} of {tuple(a.shape)}: got {float(a.flatten()[k])!r}, specification gives {float(b.flatten()[k])!r}"
        return None

    def eq(self, name, got, want, bcast=False, cases=()):
        torch = self.torch
        self.checked += 1
        got, want = torch.as_tensor(got), torch.as_tensor(want)
        if bcast:
            try:
                got, want = torch.broadcast_tensors(got, want)
            except RuntimeError as e:
                return self._bad(name, str(e))
        if got.shape != want.shape:
            return self._bad(name + ":shape", f"shape {tuple(got.shape)} expected {tuple(want.shape)}")
        m = self._close(got, want)
        if m:
            self._bad(name, m)

    def jac(self, name, J, out, x, nb, chain=None):
        torch = self.torch
        self.checked += 1
        exp = tuple(out.shape) + tuple(x.shape[nb:])
        if tuple(J.shape) != exp:
            return self._bad(name + ":shape", f"shape {tuple(J.shape)} expected {exp}")
        # full jacobian, so that cross-batch dependence is seen as well
        rows = []
        fo = out.reshape(-1)
        for k in range(fo.shape[0]):
            if not fo.requires_grad:
                rows.append(torch.zeros(x.shape))
                continue
            g, = torch.autograd.grad(fo[k], x, retain_graph=True, allow_unused=True)
            rows.append(torch.zeros(x.shape) if g is None else g)
        full = (torch.stack(rows) if rows else torch.zeros(0)).reshape(tuple(out.shape) + tuple(x.shape))
        bs = tuple(out.shape[:nb])
        want = torch.zeros(exp)
        import itertools as it
        cross = 0.0
        full = full.detach().clone()
        mid = (slice(None),) * (len(out.shape) - nb)
        for b in it.product(*[range(n) for n in bs]):
            key = b + mid + b
            want[b] = full[key]
            full[key] = 0.0
        m = self._close(J, want)
        if m:
            self._bad(name, m)
        if full.numel() and float(full.abs().max()) > 1e-9:
            self._bad(name + ":batch-independent", f"cross-batch derivative {float(full.abs().max())}")

    def holds(self, name, c):
        self.checked += 1
        if isinstance(c, self.torch.Tensor):
            c = bool(c.all())
        if not c:
            self._bad(name, "condition false")

    def within(self, name, x, lo=None, hi=None):
        self.checked += 1
        tol = 1e-9 * (1 + abs(x))
        if lo is not None and not bool((x >= lo - tol).all()):
            self._bad(name + ":lower", "below the lower bound")
        if hi is not None and not bool((x <= hi + tol).all()):
            self._bad(name + ":upper", "above the upper bound")

    def defined(self, name, x):
        self.checked += 1
        x = self.torch.as_tensor(x)
        if x.numel() and not bool(self.torch.isfinite(x.detach()).all()):
            self._bad(name, f"not a finite number: {x.detach().flatten().tolist()[:6]}")

    def raises(self, name, exc, f):
        self.checked += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            return self._bad(name, f"raised {type(e).__name__}: {e}")
        self._bad(name, "no exception raised")

    def fail(self, name, why):
        self.checked += 1
        self._bad(name, why)

    def ok(self, name):
        self.checked += 1

    def parameter(self, name, shape, **k):
        return self.torch.nn.Parameter(self.real(name, shape, **k))

    def gradient(self, name, f, params):
        """Autograd's gradient of the results f() against finite differences."""
        T = self.torch
        self.checked += 1
        res = f()
        out = []
        history.collect(res, T.Tensor, out)
        w = [T.randn(x.shape, generator=self.g) for x in out]
        L = lambda xs: sum((a * b).sum() for a, b in zip(w, xs))
        loss = L(out)
        gs = [None] * len(params)
        if loss.requires_grad:
            gs = T.autograd.grad(loss, params, allow_unused=True)

        def at():
            xs = []
            with T.no_grad():
                history.collect(f(), T.Tensor, xs)
                return L(xs)
        for i, (p, g) in enumerate(zip(params, gs)):
            v = T.randn(p.shape, generator=self.g) * p.detach().abs().clamp(min=0.1)
            x0 = p.detach().clone()
            d = []
            for e in (1e-5, 1e-6):
                p.data.copy_(x0 + e * v)
                a = at()
                p.data.copy_(x0 - e * v)
                d.append((a - at()) / (2 * e))
                p.data.copy_(x0)
            got = 0.0 if g is None else (g * v).sum()
            sc = 1 + abs(d[0]) + sum(float(x.detach().abs().max()) if x.numel() else 0.0 for x in out)
            if abs(d[0] - d[1]) > 1e-4 * sc:
                continue                      # a kink nearby
            if not abs(got - d[1]) <= 1e-3 * sc:
                self._bad(name, f"autograd gives {float(got)} for parameter {i}, the result changes by {float(d[1])}")
        return res

    def finish(self):
        for e in self.earlier_results:
            history.kept_concrete(e)
        for name, x, x0 in self.inputs:
            if name in self.noframe:
                continue
            if x.shape != x0.shape or not bool(((x.detach() == x0) | (x0 != x0)).all()):
                self._bad(f"frame:{name} unmodified", "input tensor was modified in place")


def x_dtype(torch):
    return torch.float64


def run_con(fn, cfg, seeds, limit=None, stop=1, internal=False, prior=None):
    """Returns dict(samples, rejected, failures=[(seed, name, msg, values)])."""
    import warnings
    t0 = time.time()
    n = rej = chk = 0
    fails = []
    if prior is not None:
        history.STATE.on, history.STATE.depth = True, 0
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(ConH(seeds[0] % EXTREME), **prior)
        except Exception:
            pass
    for sd in seeds:
        if limit and time.time() - t0 > limit:
            break
        h = ConH(sd)
        history.STATE.on, history.STATE.depth = True, 0
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(h, **cfg)
                h.finish()
        except Reject:
            rej += 1
            continue
        except Exception as e:
            if os.environ.get("PVC_TB"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f for f in tb if f.filename.startswith(REPO)]
            if internal and not loc and isinstance(e, (TypeError, ValueError, AttributeError, KeyError)):
                return {"samples": n, "rejected": rej, "checked": chk, "failures": [], "time": time.time() - t0,
                        "other": f"{type(e).__name__}: {e}"}
            if h.extreme:
                continue
            where = f" at {os.path.basename(loc[-1].filename)}:{loc[-1].lineno}" if loc else \
                " harness " + "/".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            h._bad("no exception on any admissible input", f"{type(e).__name__}: {e}{where}")
        n += 1
        chk += h.checked
        for name, msg in h.failures:
            fails.append((sd, name, msg, {k: _ser(v) for k, v in h.values.items()}))
        if fails and len(fails) >= stop:
            break
    return {"samples": n, "rejected": rej, "checked": chk, "failures": fails, "time": time.time() - t0}


def _ser(v):
    if hasattr(v, "tolist"):
        return v.tolist()
    return v
