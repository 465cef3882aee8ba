"""C07: temperature-dependent parameters follow their formulas, scalings applied.

Every numerical scaling is an arbitrary function applied elementwise; the shear modulus is an
arbitrary temperature-dependent parameter."""
from pvc.engine import contract
from .common import Param

P = "C07"
# raw parameter scalar, or one per sample; temperatures with one or two batch dimensions
CFG = [dict(trank=t, prank=p) for t in (1, 2) for p in (0, 1)]


def setup(h, trank, prank):
    class S:
        pass
    S.b = h.batch(trank)
    S.p = S.b[trank - prank:]
    S.T = h.real("T", S.b, pos=True, con=(0.5, 2.0))
    S.par = lambda n, **k: h.real(n, S.p, **k)
    S.out = lambda x: h.fn("scaling", S.b, [x], bidx=False)
    S.sc = lambda n, **k: (lambda x: h.fn(n, x.shape, [x], bidx=False, **k))
    S.mu = Param(h, "mu", S.b, pos=True)
    return S


def scaled(h, S):
    """The final scaling of the parameter: applied to tensors of any shape."""
    return lambda x: h.fn("scaling", x.shape, [x], bidx=False)


def check(h, S, m, value, shape):
    """m: the parameter, value: the documented function before the final scaling."""
    got = m.value(S.T)
    h.eq("unscaled value", got, value, bcast=True)
    h.eq("value with the final scaling", m(S.T), scaled(h, S)(value), bcast=True)
    h.shape("reported shape", h.torch.zeros(m.shape), shape)


@contract(P, "ConstantParameter", CFG)
def const(h, trank, prank):
    S = setup(h, trank, prank)
    p = S.par("pvalue")
    m = h.mod("pyoptmat.temperature").ConstantParameter(p, p_scale=S.sc("ps"), scaling=scaled(h, S))
    check(h, S, m, S.sc("ps")(p), S.p)


@contract(P, "ShearModulusScaling", [dict(c, exp=e) for c in CFG for e in (False, True)])
def shear(h, trank, prank, exp):
    S = setup(h, trank, prank)
    A = S.par("A")
    M = h.mod("pyoptmat.temperature")
    sa = S.sc("As")
    if exp:
        check(h, S, M.ShearModulusScalingExp(A, S.mu, A_scale=sa, scaling=scaled(h, S)), h.torch.exp(sa(A)) * S.mu(S.T), S.p)
    else:
        check(h, S, M.ShearModulusScaling(A, S.mu, A_scale=sa, scaling=scaled(h, S)), sa(A) * S.mu(S.T), S.p)


@contract(P, "MTSScaling", CFG)
def mts(h, trank, prank):
    S = setup(h, trank, prank)
    tau0, g0, q, p = S.par("tau0"), S.par("g0"), S.par("q"), S.par("p")
    k, b = h.real("k", (), pos=True, con=(0.1, 0.5)), h.real("b", (), pos=True, con=(1.0, 2.0))
    st, sg, sq, sp = S.sc("ts"), S.sc("gs", pos=True), S.sc("qs", pos=True), S.sc("ps", pos=True)
    m = h.mod("pyoptmat.temperature").MTSScaling(tau0, g0, q, p, k, b, S.mu, tau0_scale=st, g0_scale=sg,
                                                 q_scale=sq, p_scale=sp, scaling=scaled(h, S))
    x = k * S.T / (S.mu(S.T) * b ** 3 * sg(g0))
    h.require((x > 0) & (x < 1))       # below the athermal temperature
    inner = 1 - x ** (1 / sq(q))
    h.require(inner > 0)
    check(h, S, m, st(tau0) * inner ** (1 / sp(p)), S.p)
    h.defined("finite below the athermal temperature", m.value(S.T))


def clip(h, x, lo, hi):
    t = h.torch
    l, u = t.zeros_like(x) + lo, t.zeros_like(x) + hi
    return t.where(x < lo, l, t.where(x > hi, u, x))


@contract(P, "KMRateSensitivityScaling", [dict(c, cut=k) for c in CFG for k in (False, True)])
def kmn(h, trank, prank, cut):
    S = setup(h, trank, prank)
    A = S.par("A")
    b, k = h.real("b", (), pos=True, con=(1.0, 1.5)), h.real("k", (), pos=True, con=(0.5, 3.0))
    sa = S.sc("As")
    h.require(sa(A) < 0)               # the Kocks-Mecking slope is negative
    M = h.mod("pyoptmat.temperature")
    kw, cutoff = {}, 20.0
    if cut:
        cutoff = h.flt("cutoff", ge=1, con=(1.0, 30.0))
        kw["cutoff"] = cutoff
    m = M.KMRateSensitivityScaling(A, S.mu, b, k, A_scale=sa, scaling=scaled(h, S), **kw)
    check(h, S, m, clip(h, -S.mu(S.T) * b ** 3 / (k * S.T * sa(A)), 1.0, cutoff), S.p)
    v = m.value(S.T)
    h.holds("between one and the cutoff", (v >= 1) & (v <= cutoff))


@contract(P, "KMViscosityScaling", CFG)
def kmeta(h, trank, prank):
    S = setup(h, trank, prank)
    A, B = S.par("A"), S.par("B")
    b, k, e0 = h.real("b", (), pos=True, con=(1.0, 1.5)), h.real("k", (), pos=True, con=(0.2, 1.0)), h.real("eps0", (), pos=True)
    sa, sb = S.sc("As"), S.sc("Bs")
    h.require(sa(A) < 0)
    m = h.mod("pyoptmat.temperature").KMViscosityScaling(A, B, S.mu, e0, b, k, A_scale=sa, B_scale=sb, scaling=scaled(h, S))
    n = clip(h, -S.mu(S.T) * b ** 3 / (k * S.T * sa(A)), 1.0, 1000.0)
    check(h, S, m, h.torch.exp(sb(B)) * S.mu(S.T) * e0 ** (-1.0 / n), S.p)


@contract(P, "PolynomialScaling", [dict(c, ncoef=n) for c in CFG for n in (1, 2, 3, 5)])
def poly(h, trank, prank, ncoef):
    S = setup(h, trank, prank)
    c = h.real("coefs", (ncoef,) + S.p)
    sc = S.sc("cs")
    m = h.mod("pyoptmat.temperature").PolynomialScaling(c, coef_scale_fn=sc, scaling=scaled(h, S))
    want = h.torch.zeros_like(S.T)
    for i in range(ncoef):
        want = want + sc(c)[i] * S.T ** (ncoef - 1 - i)
    check(h, S, m, want, S.p)


@contract(P, "PiecewiseScaling", CFG, samples=40)
def piecewise(h, trank, prank):
    S = setup(h, trank, prank)
    n = h.dim("npoints", 2, 5)
    x = h.increasing("control", n)
    v = h.real("values", S.p + (n,))
    T, j, x0, x1 = h.in_interval("temp", S.b, x)
    S.T = T
    sc = S.sc("vs")
    m = h.mod("pyoptmat.temperature").PiecewiseScaling(x, v, values_scale_fn=sc, scaling=scaled(h, S))
    vs = sc(v)
    v0, v1 = h.pick(vs, j), h.pick(vs, j + 1)
    check(h, S, m, v0 + (v1 - v0) / (x1 - x0) * (T - x0), S.p)


@contract(P, "ArrheniusScaling", [dict(c, inv=i) for c in CFG for i in (False, True)])
def arrh(h, trank, prank, inv):
    S = setup(h, trank, prank)
    A, Q = S.par("A"), S.par("Q")
    sa, sq = S.sc("As"), S.sc("Qs")
    M = h.mod("pyoptmat.temperature")
    ex = h.torch.exp(-sq(Q) / S.T)
    if inv:
        check(h, S, M.InverseArrheniusScaling(A, Q, A_scale=sa, Q_scale=sq, scaling=scaled(h, S)), sa(A) * (1 - ex), S.p)
    else:
        check(h, S, M.ArrheniusScaling(A, Q, A_scale=sa, Q_scale=sq, scaling=scaled(h, S)), sa(A) * ex, S.p)
