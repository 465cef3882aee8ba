"""Stand-in pyro: records the sites a model visits (trusted semantics of pyro's primitives)."""
from . import stensor as st
from . import terms as tm
from . import ctx as cx
from .terms import Unsupported, I
from . import shim


class State:
    def __init__(self):
        self.sites = {}
        self.params = {}
        self.plates = []
        self.scales = []
        self.active = 0
        self.cache = []


def state():
    c = cx.cur()
    if not hasattr(c, "pyro"):
        c.pyro = State()
    return c.pyro


class Dist:
    def __init__(self, kind, event=0, **params):
        self.kind, self.event, self.params = kind, event, params
        dims = ()
        for v in params.values():
            if isinstance(v, st.STensor):
                dims = st.bdims(dims, v.dims)
        self.full = tuple(dims)

    def to_event(self, n=None):
        if n is None or not isinstance(n, int):
            raise Unsupported("to_event without a count")
        if self.event + n > len(self.full):
            raise ValueError("Expected reinterpreted_batch_ndims <= len(base_distribution.batch_shape)")
        r = Dist(self.kind, self.event + n, **self.params)
        return r

    def expand(self, *a):
        raise Unsupported("distribution expand")


def Normal(loc, scale, validate_args=None):
    return Dist("Normal", loc=loc, scale=scale)


def HalfNormal(scale, validate_args=None):
    return Dist("HalfNormal", scale=scale)


def Delta(v, log_density=None, event_dim=0, validate_args=None):
    return Dist("Delta", event_dim, v=v)


class Site:
    pass


def sample(name, d, obs=None, infer=None, obs_mask=None):
    s = state()
    if name in s.sites:
        raise RuntimeError(f"Multiple sample sites named '{name}'")
    x = Site()
    x.kind, x.params, x.event = d.kind, d.params, d.event
    batch = d.full[:len(d.full) - d.event]
    ev = d.full[len(d.full) - d.event:]
    pd = [I(1)] * max([-p[2] for p in s.plates], default=0)
    for nm, n, dim in s.plates:
        pd[len(pd) + dim] = st.as_iT(n)
    batch = st.bdims(batch, tuple(pd))
    x.batch, x.event_dims = batch, ev
    x.plates = list(s.plates)
    x.obs = obs
    sc = None
    for v in s.scales:
        sc = v if sc is None else sc * v
    x.scale = sc
    if obs is not None:
        x.value = obs
    elif d.kind == "Delta":
        x.value = d.params["v"].expand(*(batch + ev)) if (batch + ev) else d.params["v"]
    else:
        h = cx.cur().h
        pos = d.kind == "HalfNormal"
        x.value = h.real(f"sample:{name}", batch + ev, pos=pos, frame=False)
    s.sites[name] = x
    return x.value


class PTensor(st.STensor):
    def unconstrained(self):
        return self


def param(name, init=None, constraint=None, event_dim=None):
    s = state()
    if name not in s.params:
        if init is None:
            raise KeyError(name)
        if callable(init) and not isinstance(init, st.STensor):
            init = init()
        h = cx.cur().h
        t = h.real(f"param:{name}", init.dims, pos=constraint == "positive", frame=False)
        t.__class__ = PTensor
        t.init, t.constraint = init.clone(), constraint
        s.params[name] = t
    return s.params[name]


class ParamStore(dict):
    pass


class plate:
    def __init__(self, name, size=None, subsample_size=None, subsample=None, dim=None, use_cuda=None, device=None):
        if subsample is not None or subsample_size is not None or size is None:
            raise Unsupported("plate subsampling")
        self.name, self.size, self.dim = name, size, dim

    def __enter__(self):
        s = state()
        d = self.dim
        if d is None:
            used = {p[2] for p in s.plates}
            d = -1
            while d in used:
                d -= 1
        s.plates.append((self.name, self.size, d))
        return None

    def __exit__(self, *a):
        state().plates.pop()
        return False


class scale:
    def __init__(self, fn=None, scale=None):
        if fn is not None:
            raise Unsupported("poutine.scale on a function")
        self.s = scale

    def __enter__(self):
        state().scales.append(self.s)

    def __exit__(self, *a):
        state().scales.pop()
        return False


class PyroSample:
    def __init__(self, prior):
        self.prior = prior


class PyroModule(shim.Module):
    def __init__(self, name=""):
        shim.Module.__init__(self)
        object.__setattr__(self, "_pyro_samples", {})

    def __setattr__(self, k, v):
        if isinstance(v, PyroSample):
            self._pyro_samples[k] = v
            self.__dict__.pop(k, None)
        else:
            self.__dict__.get("_pyro_samples", {}).pop(k, None)
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        ps = self.__dict__.get("_pyro_samples", {})
        if k not in ps:
            raise AttributeError(f"'{type(self).__name__}' object has no attribute '{k}'")
        s = state()
        if s.active and (id(self), k) in s.cache[-1]:
            return s.cache[-1][(id(self), k)]
        p = ps[k].prior
        # evaluating the prior may visit other sites first
        d = p if isinstance(p, Dist) else p(self)
        v = sample(k, d)
        if s.active:
            s.cache[-1][(id(self), k)] = v
        return v

    def __call__(self, *a, **k):
        s = state()
        s.active += 1
        if s.active == 1:
            s.cache.append({})
        try:
            return self.forward(*a, **k)
        finally:
            s.active -= 1
            if s.active == 0:
                s.cache.pop()


def add_modules(M, mod):
    p = mod("pyro", dict(sample=sample, param=param, plate=plate,
                         get_param_store=lambda: state().params))
    p.poutine = mod("pyro.poutine", dict(scale=scale))
    p.nn = mod("pyro.nn", dict(PyroModule=PyroModule, PyroSample=PyroSample))
    con = mod("pyro.distributions.constraints", dict(positive="positive"))
    p.distributions = mod("pyro.distributions", dict(Normal=Normal, HalfNormal=HalfNormal, Delta=Delta, constraints=con))
    return p
