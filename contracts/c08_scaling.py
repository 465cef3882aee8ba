"""C08: parameter scalings stay in bounds and invert exactly."""
from pvc.engine import contract

P = "C08"
# parameters of any rank, bounds scalar or one per entry
CFG = [dict(rank=r, brank=b) for r in (0, 1, 2) for b in (0, 1) if b <= r]


def setup(h, rank, brank, log=False):
    class S:
        pass
    S.b = h.batch(rank)
    S.bs = S.b[rank - brank:]
    S.l = h.real("l", S.bs, pos=log)
    S.u = h.real("u", S.bs, gt=S.l)
    return S


def inv_pair(h, f, x, y):
    """x in the parameter range, y in the physical range."""
    h.eq("unscale after scale", f.unscale(f.scale(x)), x)
    h.eq("scale after unscale", f.scale(f.unscale(y)), y)
    h.eq("calling the function scales", f(x), f.scale(x))
    h.shape("shape of scaled", f.scale(x), x.shape)


def stat(h, f, loc, sd, parts):
    msg = f.scale_stat(loc, sd)
    for n, p in parts:
        h.holds("description reports the " + n, str(p) in msg)


@contract(P, "SimpleScalingFunction", CFG)
def simple(h, rank, brank):
    b = h.batch(rank)
    s = h.real("s", b[rank - brank:], pos=True)
    f = h.mod("pyoptmat.scaling").SimpleScalingFunction(s)
    x, x2 = h.real("x", b), h.real("x2", b)
    h.eq("scale", f.scale(x), s * x)
    inv_pair(h, f, x, h.real("y", b))
    h.require(x2 > x)
    h.holds("increasing", f.scale(x2) > f.scale(x))
    sd = h.real("sd", b, pos=True)
    h.eq("mean of the scaled prior", f.scale_mean(x, sd), s * x)
    stat(h, f, x, sd, [("mean", s * x), ("standard deviation", sd * s)])


@contract(P, "BoundedScalingFunction", [dict(c, clamp=k) for c in CFG for k in (None, True, False)])
def bounded(h, rank, brank, clamp):
    S = setup(h, rank, brank)
    cls = h.mod("pyoptmat.scaling").BoundedScalingFunction
    f = cls(S.l, S.u) if clamp is None else cls(S.l, S.u, clamp=clamp)
    x = h.real("x", S.b, ge=0.0, le=1.0)
    x2 = h.real("x2", S.b, ge=x, le=1.0)
    y = h.real("y", S.b, ge=S.l, le=S.u)
    any_ = h.real("any", S.b, con=(-3.0, 4.0))
    h.eq("scale in range", f.scale(x), S.l + x * (S.u - S.l))
    inv_pair(h, f, x, y)
    h.within("range stays in bounds", f.scale(x), S.l, S.u)
    h.within("monotonic", f.scale(x2), lo=f.scale(x))
    h.eq("zero maps to the lower bound", f.scale(x * 0.0), S.l + x * 0.0)
    h.eq("one maps to the upper bound", f.scale(x * 0.0 + 1.0), S.u + x * 0.0)
    if clamp is not False:
        h.within("clamped: never leaves the bounds", f.scale(any_), S.l, S.u)
    else:
        h.eq("unclamped: linear everywhere", f.scale(any_), S.l + any_ * (S.u - S.l))
        h.eq("unscale after scale, anywhere", f.unscale(f.scale(any_)), any_)
    sd = h.real("sd", S.b, pos=True)
    h.eq("mean of the scaled prior", f.scale_mean(x, sd), f.scale(x))
    stat(h, f, x, sd, [("mean", f.scale(x)), ("standard deviation", sd * (S.u - S.l))])


@contract(P, "LogBoundedScalingFunction", [dict(c, clamp=k) for c in CFG for k in (None, True, False)])
def logbounded(h, rank, brank, clamp):
    t = h.torch
    S = setup(h, rank, brank, log=True)
    cls = h.mod("pyoptmat.scaling").LogBoundedScalingFunction
    f = cls(S.l, S.u) if clamp is None else cls(S.l, S.u, clamp=clamp)
    x = h.real("x", S.b, ge=0.0, le=1.0)
    x2 = h.real("x2", S.b, ge=x, le=1.0)
    y = h.real("y", S.b, ge=S.l, le=S.u)
    any_ = h.real("any", S.b, con=(-3.0, 4.0))
    A, B = t.log(S.u) - t.log(S.l), t.log(S.l)
    h.eq("scale in range", f.scale(x), t.exp(B + x * A))
    inv_pair(h, f, x, y)
    h.within("range stays in bounds", f.scale(x), S.l, S.u)
    h.within("monotonic", f.scale(x2), lo=f.scale(x))
    if clamp is not False:
        h.within("clamped: never leaves the bounds", f.scale(any_), S.l, S.u)
    else:
        h.eq("unclamped: geometric everywhere", f.scale(any_), t.exp(B + any_ * A))
        h.eq("unscale after scale, anywhere", f.unscale(f.scale(any_)), any_)
    sd = h.real("sd", S.b, pos=True)
    h.eq("log-space mean of the scaled prior", t.exp(f.scale_mean(x, sd)), f.scale(x))
    stat(h, f, x, sd, [("location", A * x + B), ("scale", A * sd), ("mean", t.exp(A * x + B + (A * sd) ** 2 / 2.0))])


@contract(P, "scaling helpers", CFG)
def helpers(h, rank, brank):
    t = h.torch
    S = setup(h, rank, brank)
    O = h.mod("pyoptmat.optimize")
    x = h.real("x", S.b, ge=0.0, le=1.0)
    x2 = h.real("x2", S.b, ge=x, le=1.0)
    any_ = h.real("any", S.b, con=(-3.0, 4.0))
    s = h.real("s", S.bs, pos=True)

    def inb(name, v, l=S.l, u=S.u):
        h.within(name + " stays in bounds", v, l, u)
    f = O.bounded_scale_function((S.l, S.u))
    inb("bounded_scale_function", f(any_))
    h.eq("bounded_scale_function", f(x), S.l + x * (S.u - S.l))
    m = h.real("minb", S.bs, con=(-1.0, 3.0))
    g = O.bounded_scale_function((S.l, S.u), min_bound=m)
    h.eq("bounded_scale_function with a floor", g(x), t.maximum(S.l + x * (S.u - S.l), m))
    h.within("floor respected", g(any_), lo=m)
    mean, fac = h.real("mean", S.bs, pos=True), h.real("fac", (), ge=0.0, lt=1.0)
    f = O.bound_factor(mean, fac)
    inb("bound_factor", f(any_), mean * (1 - fac), mean * (1 + fac))
    h.eq("bound_factor", f(x), mean * (1 - fac) + x * (2 * fac * mean))
    h.eq("bound_factor with a floor", O.bound_factor(mean, fac, min_bound=m)(x),
         t.maximum(mean * (1 - fac) + x * (2 * fac * mean), m))
    y = h.real("y", S.b, ge=S.l, le=S.u)
    f = O.clamp_scale_function((S.l, S.u))
    inb("clamp_scale_function", f(any_))
    h.eq("clamp_scale_function in range", f(y), y)
    f = O.bound_and_scale(s, (S.l, S.u))
    inb("bound_and_scale", f(any_))
    h.eq("bound_and_scale in range", f(y * s), y)
    h.within("bound_and_scale monotonic", f(x2), lo=f(x))
    yp = h.real("yp", S.b, ge=S.l, le=S.u)
    h.require(yp > 0)
    f = O.log_bound_and_scale(s, (S.l, S.u))
    inb("log_bound_and_scale", f(any_))
    h.eq("log_bound_and_scale in range", f(s * t.log(yp)), yp)
