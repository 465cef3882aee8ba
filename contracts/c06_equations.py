"""C06: rates follow the published (uniaxial) constitutive equations, at every state including zero."""
from pvc.engine import contract
from .common import Param, state, make_kinematic, make_isotropic, make_flowrule

P = "C06"
CFG = [dict(rank=r, kind=k) for r in (1, 2) for k in ("batch", "const")]
R12 = [dict(rank=1), dict(rank=2)]


def pos(h, x):
    return h.torch.where(x > 0, x, h.torch.zeros_like(x))


def sgn(h, x):
    o = h.torch.ones_like(x)
    return h.torch.where(x > 0, o, h.torch.where(x < 0, -o, h.torch.zeros_like(x)))


def mag(h, x):
    return h.torch.where(x >= 0, x, -x)


def hardening(h, m, S, want):
    r = m.history_rate(*S.args())
    h.eq("history rate equation", r, want)
    h.defined("history rate is finite", r)
    for n in ("dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate"):
        h.defined(n + " is finite", getattr(m, n)(*S.args()))


def iso1(h, m, S):
    h.eq("isotropic hardening is the internal variable", m.value(S.h), S.h[..., 0])


@contract(P, "VoceIsotropicHardeningModel", CFG)
def voce(h, rank, kind):
    S = state(h, rank, 1, nonzero=False)
    R, d = Param(h, "R", S.b, kind), Param(h, "d", S.b, kind)
    m = h.mod("pyoptmat.hardening").VoceIsotropicHardeningModel(R, d)
    x = S.h[..., 0]
    hardening(h, m, S, (d(S.T) * (R(S.T) - x) * mag(h, S.ep))[..., None])
    iso1(h, m, S)


@contract(P, "Theta0VoceIsotropicHardeningModel", CFG)
def theta0(h, rank, kind):
    S = state(h, rank, 1, nonzero=False)
    tau, th = Param(h, "tau", S.b, kind, pos=True), Param(h, "theta", S.b, kind)
    m = h.mod("pyoptmat.hardening").Theta0VoceIsotropicHardeningModel(tau, th)
    x = S.h[..., 0]
    hardening(h, m, S, (th(S.T) * (1 - x / tau(S.T)) * mag(h, S.ep))[..., None])
    iso1(h, m, S)


@contract(P, "Theta0RecoveryVoceIsotropicHardeningModel", CFG)
def theta0rec(h, rank, kind):
    S = state(h, rank, 1, nonzero=False)
    tau, th, R0, r1 = (Param(h, "tau", S.b, kind, pos=True), Param(h, "theta", S.b, kind),
                       Param(h, "R0", S.b, kind), Param(h, "r1", S.b, kind))
    r2 = Param(h, "r2", S.b, kind, gt=1, pos=True)
    h.require(r2(S.T) >= 1)
    m = h.mod("pyoptmat.hardening").Theta0RecoveryVoceIsotropicHardeningModel(tau, th, R0, r1, r2)
    x = S.h[..., 0]
    rec = r1(S.T) * (R0(S.T) - x) * mag(h, R0(S.T) - x) ** (r2(S.T) - 1)
    hardening(h, m, S, (th(S.T) * (1 - x / tau(S.T)) * mag(h, S.ep) + rec)[..., None])
    iso1(h, m, S)


@contract(P, "FAKinematicHardeningModel", [dict(c, default=d) for c in CFG for d in (False, True)])
def fa(h, rank, kind, default):
    S = state(h, rank, 1, nonzero=False)
    C, g = Param(h, "C", S.b, kind), Param(h, "g", S.b, kind)
    x = S.h[..., 0]
    want = C(S.T) * S.ep - g(S.T) * x * mag(h, S.ep)
    H = h.mod("pyoptmat.hardening")
    if default:
        m = H.FAKinematicHardeningModel(C, g)
    else:
        b, r = Param(h, "bb", S.b, kind), Param(h, "r", S.b, kind, gt=1, pos=True)
        h.require(r(S.T) >= 1)
        m = H.FAKinematicHardeningModel(C, g, b=b, r=r)
        want = want - b(S.T) * mag(h, x) ** (r(S.T) - 1) * x
    hardening(h, m, S, want[..., None])
    h.eq("backstress is the internal variable", m.value(S.h), x)


@contract(P, "FAKinematicHardeningModelNoRecovery", CFG)
def fanr(h, rank, kind):
    S = state(h, rank, 1, nonzero=False)
    C, g = Param(h, "C", S.b, kind), Param(h, "g", S.b, kind)
    x = S.h[..., 0]
    m = h.mod("pyoptmat.hardening").FAKinematicHardeningModelNoRecovery(C, g)
    hardening(h, m, S, (C(S.T) * S.ep - g(S.T) * x * mag(h, S.ep))[..., None])
    h.eq("backstress is the internal variable", m.value(S.h), x)


@contract(P, "ChabocheHardeningModel", [dict(c, rec=r) for c in CFG for r in (False, True)])
def chab(h, rank, kind, rec):
    n = h.dim("nback")
    S = state(h, rank, n, nonzero=False)
    H = h.mod("pyoptmat.hardening")
    C, g = Param(h, "C", S.b, kind, (n,)), Param(h, "g", S.b, kind, (n,))
    want = C(S.T) * S.ep[..., None] - g(S.T) * S.h * mag(h, S.ep)[..., None]
    if rec:
        b, r = Param(h, "bb", S.b, kind, (n,)), Param(h, "r", S.b, kind, (n,), gt=1, pos=True)
        h.require(r(S.T) >= 1)
        m = H.ChabocheHardeningModelRecovery(C, g, b, r)
        want = want - b(S.T) * mag(h, S.h) ** (r(S.T) - 1) * S.h
    else:
        m = H.ChabocheHardeningModel(C, g)
    hardening(h, m, S, want)
    h.eq("total backstress is the sum of the backstresses", m.value(S.h), h.torch.sum(S.h, -1))


@contract(P, "SuperimposedKinematicHardening", [dict(rank=r, k=k) for r in (1, 2) for k in (1, 2, 3)])
def superkin(h, rank, k):
    ns = [h.dim(f"n{i}", 0 if i == 1 else 1, 3) for i in range(k)]
    tot = sum(ns[1:], ns[0])
    S = state(h, rank, tot, nonzero=False)
    ms = [make_kinematic(h, f"K{i}", ns[i], S.b) for i in range(k)]
    m = h.mod("pyoptmat.hardening").SuperimposedKinematicHardening(ms)
    r, v, o = m.history_rate(*S.args()), 0, 0
    for i in range(k):
        hi = S.h[..., o:o + ns[i]]
        h.eq(f"history rate of constituent {i}", r[..., o:o + ns[i]],
             ms[i].history_rate(S.s, hi, S.t, S.ep, S.T, S.e))
        v = v + ms[i].value(hi)
        o = o + ns[i]
    h.eq("backstresses add up", m.value(S.h), v)


@contract(P, "NoKinematicHardeningModel", R12)
def nokin(h, rank):
    S = state(h, rank, 0, nonzero=False)
    m = h.mod("pyoptmat.hardening").NoKinematicHardeningModel()
    h.eq("no backstress", m.value(S.h), h.torch.zeros(S.b))
    h.shape("no internal variables", m.history_rate(*S.args()), S.b + (0,))


# ---------------------------------------------------------------- flow rules
def flow_defined(h, m, a):
    for n in ("dflow_dhist", "dflow_derate", "dhist_dstress", "dhist_derate"):
        h.defined(n + " is finite", getattr(m, n)(*a))
    h.defined("flow rate is finite", m.flow_rate(*a)[0])
    h.defined("flow rate derivative is finite", m.flow_rate(*a)[1])
    h.defined("history rate is finite", m.history_rate(*a)[0])
    h.defined("history rate derivative is finite", m.history_rate(*a)[1])


@contract(P, "PerfectViscoplasticity", CFG)
def perfect(h, rank, kind):
    S = state(h, rank, 0, nonzero=False)
    n, eta = Param(h, "n", S.b, kind, gt=1, pos=True), Param(h, "eta", S.b, kind, pos=True)
    h.require(n(S.T) >= 1)
    m = h.mod("pyoptmat.flowrules").PerfectViscoplasticity(n, eta)
    a = (S.s, S.h, S.t, S.T, S.e)
    h.eq("flow rate equation", m.flow_rate(*a)[0], (mag(h, S.s) / eta(S.T)) ** n(S.T) * sgn(h, S.s))
    flow_defined(h, m, a)


@contract(P, "IsoKinViscoplasticity", CFG)
def isokin(h, rank, kind):
    ni, nk = h.dim("niso", 1, 3), h.dim("nkin", 0, 3)
    S = state(h, rank, ni + nk, nonzero=False)
    iso, kin = make_isotropic(h, "iso", ni, S.b), make_kinematic(h, "kin", nk, S.b)
    n, eta, s0 = (Param(h, "n", S.b, kind, gt=1, pos=True), Param(h, "eta", S.b, kind, pos=True),
                  Param(h, "s0", S.b, kind))
    h.require(n(S.T) >= 1)
    m = h.mod("pyoptmat.flowrules").IsoKinViscoplasticity(n, eta, s0, iso, kin)
    a = (S.s, S.h, S.t, S.T, S.e)
    hi, hk = S.h[..., :ni], S.h[..., ni:]
    X, k = kin.value(hk), iso.value(hi)
    over = (mag(h, S.s - X) - s0(S.T) - k) / eta(S.T)
    want = pos(h, over) ** n(S.T) * sgn(h, S.s - X)
    f = m.flow_rate(*a)[0]
    h.eq("flow rate equation", f, want)
    h.eq("no flow inside the yield surface", h.torch.where(over <= 0, f, h.torch.zeros_like(f)), h.torch.zeros_like(f))
    r = m.history_rate(*a)[0]
    h.eq("isotropic rates at the inelastic rate", r[..., :ni], iso.history_rate(S.s, hi, S.t, want, S.T, S.e))
    h.eq("kinematic rates at the inelastic rate", r[..., ni:], kin.history_rate(S.s, hk, S.t, want, S.T, S.e))
    flow_defined(h, m, a)


@contract(P, "SuperimposedFlowRule", [dict(rank=r, k=k) for r in (1, 2) for k in (1, 2, 3)])
def superflow(h, rank, k):
    ns = [h.dim(f"n{i}", 0 if i == 1 else 1, 3) for i in range(k)]
    tot = sum(ns[1:], ns[0])
    S = state(h, rank, tot, nonzero=False)
    ms = [make_flowrule(h, f"F{i}", ns[i], S.b) for i in range(k)]
    m = h.mod("pyoptmat.flowrules").SuperimposedFlowRule(ms)
    r, f, o = m.history_rate(S.s, S.h, S.t, S.T, S.e)[0], 0, 0
    for i in range(k):
        a = (S.s, S.h[..., o:o + ns[i]], S.t, S.T, S.e)
        h.eq(f"history rate of constituent {i}", r[..., o:o + ns[i]], ms[i].history_rate(*a)[0])
        f = f + ms[i].flow_rate(*a)[0]
        o = o + ns[i]
    h.eq("flow rates add up", m.flow_rate(S.s, S.h, S.t, S.T, S.e)[0], f)


@contract(P, "RateIndependentFlowRuleWrapper", R12)
def rateind(h, rank):
    n = h.dim("n", 0, 3)
    S = state(h, rank, n, nonzero=False)
    lm, er = h.real("lmbda", (), ge=0, le=1), h.real("eps_ref", (), pos=True)
    base = make_flowrule(h, "base", n, S.b)
    m = h.mod("pyoptmat.flowrules").RateIndependentFlowRuleWrapper(base, lm, er)
    a = (S.s, S.h, S.t, S.T, S.e)
    sc = 1 - lm + lm * mag(h, S.e) / er
    h.eq("flow rate is scaled with the strain rate", m.flow_rate(*a)[0], sc * base.flow_rate(*a)[0])
    h.eq("history rates are scaled with the strain rate", m.history_rate(*a)[0], sc[..., None] * base.history_rate(*a)[0])
    flow_defined(h, m, a)


@contract(P, "Kocks-Mecking regime switch", [dict(c, soft=s) for c in CFG for s in (False, True)], samples=30)
def km(h, rank, kind, soft):
    n = h.dim("n", 0, 3)
    S = state(h, rank, n, nonzero=False)
    F = h.mod("pyoptmat.flowrules")
    b, eps0, k = (h.real(q, (), pos=True) for q in ("burgers", "eps0", "boltz"))
    g0 = h.real("g0", (), con=(-0.5, 0.5))
    mu = Param(h, "mu", S.b, kind, pos=True)
    eps = h.real("eps", (), pos=True, con=(1e-3, 1e-2))
    gs = lambda x: h.fn("g0scale", (), [x])
    m1, m2 = make_flowrule(h, "m1", n, S.b), make_flowrule(h, "m2", n, S.b)
    g = k * S.T / (mu(S.T) * b ** 3) * h.torch.log(eps0 / (mag(h, S.e) + eps))
    a = (S.s, S.h, S.t, S.T, S.e)
    f1, f2, r1, r2 = m1.flow_rate(*a)[0], m2.flow_rate(*a)[0], m1.history_rate(*a)[0], m2.history_rate(*a)[0]
    if soft:
        sf = h.real("sf", (), pos=True)
        m = F.SoftKocksMeckingRegimeFlowRule(m1, m2, g0, mu, b, eps0, k, sf, eps=eps, g0_scale=gs)
        w = (h.torch.tanh(sf * (g - gs(g0))) + 1) / 2
        h.eq("blending weight", m.f(S.T, S.e), w)
        h.holds("blending weight lies in the unit interval", (m.f(S.T, S.e) >= 0) & (m.f(S.T, S.e) <= 1))
        h.eq("flow rate blends the regimes", m.flow_rate(*a)[0], f1 + w * (f2 - f1))
        h.eq("history rate blends the regimes", m.history_rate(*a)[0], r1 + w[..., None] * (r2 - r1))
    else:
        m = F.KocksMeckingRegimeFlowRule(m1, m2, g0, mu, b, eps0, k, eps=eps, g0_scale=gs)
        second = g > gs(g0)
        h.eq("flow rate of the active regime", m.flow_rate(*a)[0], h.torch.where(second, f2, f1))
        h.eq("history rate of the active regime", m.history_rate(*a)[0], h.torch.where(second[..., None], r2, r1))
    h.eq("activation energy", m.g(S.T, S.e), g)
    flow_defined(h, m, a)


# ---------------------------------------------------------------- damage
@contract(P, "damage models", [dict(c, model=m) for c in CFG for m in ("none", "HayhurstLeckie", "constant", "LarsonMiller")])
def damage(h, rank, kind, model):
    D = h.mod("pyoptmat.damage")
    b = h.batch(rank)
    s = h.real("s", b, zeros=model != "LarsonMiller", nonzero=model == "LarsonMiller")
    d = h.real("d", b, ge=0, lt=1)
    T = h.real("T", b, pos=True)
    t, e = h.real("t", b), h.real("e", b)
    p = lambda n, **k: Param(h, n, b, kind, **k)
    if model == "none":
        m, want = D.NoDamage(), h.torch.zeros(b)
    elif model == "constant":
        R = p("R")
        m, want = D.ConstantDamage(R), R(T) + h.torch.zeros(b)
    elif model == "HayhurstLeckie":
        A, xi, phi = p("A", pos=True), p("xi", pos=True, gt=1), p("phi", pos=True)
        h.require(xi(T) >= 1)
        m = D.HayhurstLeckie(A, xi, phi)
        want = (mag(h, s) / A(T)) ** xi(T) * (1 - d) ** (xi(T) - phi(T))
    else:
        C, A, B = p("C"), p("A", pos=True), p("B")
        m = D.LarsonMillerDamage(C, A, B)
        want = 10.0 ** (C(T) - B(T) / T) * (mag(h, s) * (1 - d)) ** (-A(T) / T)
    r, dr = m.damage_rate(s, d, t, T, e)
    h.eq("damage rate equation", r, want)
    h.defined("damage rate is finite", r)
    h.defined("its derivative is finite", dr)
    h.defined("stress derivative is finite", m.d_damage_rate_d_s(s, d, t, T, e))
