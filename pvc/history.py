"""Every result holds after any earlier use of the object.

Each outermost call of a method is preceded by the same call on other data: the tensors passed (and the parameter
tensors of temperature models) hold arbitrary other contents during the earlier call and are then changed back in
place.  Whatever the object kept from the earlier call is still there when the call under contract is made."""
import functools
import types

from . import stensor as st
from . import terms as tm
from . import ctx as cx
from . import loops

MODULES = {"pyoptmat." + x for x in ("hardening", "flowrules", "damage", "temperature", "scaling", "utility", "models", "neuralode")}
SKIP = {"ModelIntegrator"}       # its earlier runs are part of its own contract (C19)
LIMIT = 300                      # decisions of the earlier call


class Enough(BaseException):
    pass


def methods(m, name):
    """(class, method name, function) to wrap in a module."""
    if name not in MODULES:
        return
    for c in list(m.__dict__.values()):
        if isinstance(c, type) and c.__module__ == name and c.__name__ not in SKIP:
            for k, f in list(c.__dict__.items()):
                if isinstance(f, types.FunctionType) and not k.startswith("_"):
                    yield c, k, f


def collect(x, kind, out, depth=3):
    if isinstance(x, kind):
        out.append(x)
    elif isinstance(x, (list, tuple)) and depth:
        for y in x:
            collect(y, kind, out, depth - 1)
    elif isinstance(x, dict) and depth:
        for y in x.values():
            collect(y, kind, out, depth - 1)


def parameters(obj, kind, out, depth=5, seen=None):
    """Tensors held by the temperature models reachable from obj."""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth == 0:
        return
    seen.add(id(obj))
    if isinstance(obj, (list, tuple)):
        for y in obj:
            parameters(y, kind, out, depth - 1, seen)
        return
    if type(obj).__module__.split(".")[0] != "pyoptmat" and type(obj).__name__ not in ("ModuleList",):
        return
    d = dict(vars(obj))
    for k in ("_parameters", "_buffers", "_modules", "_params"):
        if isinstance(d.get(k), dict):
            d.update(d.pop(k))
    for v in d.values():
        if isinstance(v, kind):
            if type(obj).__module__ == "pyoptmat.temperature" and v is not d.get("control"):
                out.append(v)
        elif v is not None and not callable(v) or type(v).__module__.split(".")[0] in ("pyoptmat", "pvc", "torch"):
            parameters(v, kind, out, depth - 1, seen)


# ---------------------------------------------------------------- symbolic
def earlier(c, f, self, a, k):
    ts = []
    collect((a, k), st.STensor, ts)
    if not ts:
        return
    parameters(self, st.STensor, ts)
    held, old = {}, []
    for t in ts:
        s = t.st
        if id(s) in held:
            continue
        held[id(s)] = s
        nm = f"earlier!{st._next()}"
        old.append((s, s.get))
        s.get = {"f": lambda i, n=nm: tm.app(n, tuple(i)), "i": lambda i, n=nm: tm.uint(n, *i),
                 "b": lambda i, n=nm: tm.bu(n, *i)}[t.dtype]
    h = c.h
    keep = [(o, n, type(v)(v)) for o in (h, c) for n, v in vars(o).items() if type(v) in (list, dict, set)
            and n not in ("decl", "varfacts", "pending", "prefix", "decisions")]
    flat = [(o, n, v) for o in (h, c) for n, v in vars(o).items() if isinstance(v, (int, bool, type(None))) and n != "warm"]
    c.warm = LIMIT
    res = None
    try:
        res = f(self, *a, **k)
    except (Exception, Enough, loops.PathDone):
        pass
    finally:
        c.warm = None
        for o, n, v in keep:
            cur = getattr(o, n)
            if type(cur) is list:
                cur[:] = v
            else:
                cur.clear()
                cur.update(v)
        for o, n, v in flat:
            setattr(o, n, v)
        for s, g in old:
            s.get = g
    out = []
    collect(res, st.STensor, out)
    return [(t.st, t.st.version) for t in out if id(t.st) not in held]


def kept(c, results):
    """Results handed out earlier are not overwritten by later uses."""
    for s, v in results or ():
        if s.version != v:
            c.h._add(KEPT, False, "a later use writes into the tensor", "path")
            return


KEPT = "results of an earlier use stay as they are"


def wrap_symbolic(m, name):
    for c, k, f in methods(m, name):
        def g(self, *a, __f=f, **kw):
            x = cx.cur()
            if x is None or not getattr(x.h, "history", True) or x.depth:
                return __f(self, *a, **kw)
            x.depth += 1
            try:
                e = earlier(x, __f, self, a, kw)
                r = __f(self, *a, **kw)
                if x.warm is None:
                    kept(x, e)
                return r
            finally:
                x.depth -= 1
        setattr(c, k, functools.wraps(f)(g))


# ---------------------------------------------------------------- concrete
STATE = types.SimpleNamespace(depth=0, on=True, h=None)


def earlier_concrete(torch, f, self, a, k, scale=0.97):
    ts = []
    collect((a, k), torch.Tensor, ts)
    ts = [t for t in ts if type(t) in (torch.Tensor, torch.nn.Parameter)]
    if not ts or torch._C._functorch.maybe_get_level(ts[0]) not in (None, -1):
        return
    parameters(self, torch.Tensor, ts)
    old, out = [], []
    try:
        for t in {id(t): t for t in ts}.values():
            d = t.data
            if any(s == 0 for s, n in zip(d.stride(), d.shape) if n > 1):
                continue
            old.append((d, d.clone()))
            n = d.flip(tuple(range(d.dim()))) if d.dim() else d.clone()
            d.copy_(n * scale if d.is_floating_point() else n)
        import warnings
        with torch.no_grad(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            collect(f(self, *a, **k), torch.Tensor, out)
    except Exception:
        pass
    finally:
        for d, o in old:
            d.copy_(o)
    mine = {t.untyped_storage().data_ptr() for t in ts}
    return [(t, t.clone()) for t in out if type(t) is torch.Tensor and t.untyped_storage().data_ptr() not in mine]


def larger_batch(torch, f, self, a, k):
    """An earlier use on a batch of another size (where the contract's constituents take one)."""
    import warnings
    ts = []
    collect((a, k), torch.Tensor, ts, 1)
    n = next((t.shape[0] for t in ts if t.dim()), 0)
    if not n or any(type(t) is not torch.Tensor or torch._C._functorch.maybe_get_level(t) not in (None, -1) for t in ts):
        return
    def more(x):
        return torch.cat([x.detach(), x.detach()[:1]]) if isinstance(x, torch.Tensor) and x.dim() and x.shape[0] == n else x
    try:
        with torch.no_grad(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f(self, *[more(x) for x in a], **{q: more(x) for q, x in k.items()})
    except Exception:
        pass


def kept_concrete(results):
    for t, o in results or ():
        if not bool(((t == o) | ((t != t) & (o != o))).all()):
            STATE.h._bad(KEPT, "a later use writes into the tensor")
            return


def wrap_concrete(m, name):
    import torch
    if getattr(m, "_pvc_history", False):
        return
    m._pvc_history = True
    for c, k, f in methods(m, name):
        def g(self, *a, __f=f, **kw):
            if STATE.depth or not STATE.on:
                return __f(self, *a, **kw)
            STATE.depth += 1
            try:
                e = earlier_concrete(torch, __f, self, a, kw)
                if STATE.h.seed % 3 == 1:
                    larger_batch(torch, __f, self, a, kw)
                if STATE.h.seed % 2:    # twice without gradients: does the second overwrite the first's results?
                    f2 = earlier_concrete(torch, __f, self, a, kw, 1.03)
                    kept_concrete(e)
                    e = f2
                r = __f(self, *a, **kw)
                kept_concrete(e)
                return r
            finally:
                STATE.depth -= 1
        setattr(c, k, functools.wraps(f)(g))
