"""C02: flow rules report exact derivatives."""
from pvc.engine import contract
from .common import Param, state, make_kinematic, make_isotropic, make_flowrule, leaf

P = "C02"
R12 = [dict(rank=1), dict(rank=2)]
CFG = [dict(rank=r, kind=k) for r in (1, 2) for k in ("batch", "const")]


def check(h, m, S, nh):
    """The flow-rule contract on one instance."""
    a = (S.s, S.h, S.t, S.T, S.e)
    h.holds("number of internal variables", m.nhist == nh)
    f, df = m.flow_rate(*a)
    h.shape("flow_rate", f, S.b)
    h.jac("d flow / d stress", df, f, S.s, S.rank)
    d = m.dflow_dhist(*a)
    h.shape("dflow_dhist", d, S.b + (1, nh))
    h.jac("d flow / d history", d[..., 0, :], f, S.h, S.rank)
    h.jac("d flow / d total rate", m.dflow_derate(*a), f, S.e, S.rank)
    r, dr = m.history_rate(*a)
    h.shape("history_rate", r, S.b + (nh,))
    h.jac("d history rate / d history", dr, r, S.h, S.rank)
    h.jac("d history rate / d stress", m.dhist_dstress(*a), r, S.s, S.rank)
    h.jac("d history rate / d total rate", m.dhist_derate(*a), r, S.e, S.rank)


@contract(P, "PerfectViscoplasticity", CFG)
def perfect(h, rank, kind):
    S = state(h, rank, 0)
    F = h.mod("pyoptmat.flowrules")
    check(h, F.PerfectViscoplasticity(Param(h, "n", S.b, kind, gt=1, pos=True), Param(h, "eta", S.b, kind, pos=True)), S, 0)


@contract(P, "IsoKinViscoplasticity", CFG, samples=30)
def isokin(h, rank, kind):
    F = h.mod("pyoptmat.flowrules")
    ni, nk = h.dim("niso", 1, 3), h.dim("nkin", 0, 3)
    S = state(h, rank, ni + nk)
    iso, kin = make_isotropic(h, "iso", ni, S.b), make_kinematic(h, "kin", nk, S.b)
    n, eta, s0 = (Param(h, "n", S.b, kind, gt=1, pos=True), Param(h, "eta", S.b, kind, pos=True),
                  Param(h, "s0", S.b, kind))
    nT = n(S.T)
    h.require(nT > 1)
    # away from the two kinks: zero effective stress, and zero overstress
    eff = S.s - kin.value(S.h[..., ni:])
    over = abs(eff) - s0(S.T) - iso.value(S.h[..., :ni])
    lim = 0 if h.sym else 1e-2
    h.require(abs(eff) > lim)
    h.require(abs(over) > lim)
    check(h, F.IsoKinViscoplasticity(n, eta, s0, iso, kin), S, ni + nk)


@contract(P, "SuperimposedFlowRule", [dict(rank=r, k=k) for r in (1, 2) for k in (1, 2, 3)])
def superim(h, rank, k):
    ns = [h.dim(f"n{i}", 0 if i == 1 else 1, 3) for i in range(k)]
    tot = sum(ns[1:], ns[0])
    S = state(h, rank, tot)
    F = h.mod("pyoptmat.flowrules")
    check(h, F.SuperimposedFlowRule([make_flowrule(h, f"F{i}", ns[i], S.b) for i in range(k)]), S, tot)


@contract(P, "RateIndependentFlowRuleWrapper", R12)
def rateind(h, rank):
    n = h.dim("n", 0, 3)
    S = state(h, rank, n)
    F = h.mod("pyoptmat.flowrules")
    lm, er = h.real("lmbda", (), ge=0, le=1), h.real("eps_ref", (), pos=True)
    check(h, F.RateIndependentFlowRuleWrapper(make_flowrule(h, "base", n, S.b), lm, er), S, n)


def km(h, S, n, soft, kind="batch"):
    F = h.mod("pyoptmat.flowrules")
    b, eps0, k = (h.real(q, (), pos=True) for q in ("burgers", "eps0", "boltz"))
    g0 = h.real("g0", (), con=(-0.5, 0.5))
    mu = Param(h, "mu", S.b, kind, pos=True)
    gs = lambda x: h.fn("g0scale", (), [x])
    a = [make_flowrule(h, "m1", n, S.b), make_flowrule(h, "m2", n, S.b), g0, mu, b, eps0, k]
    if soft:
        return F.SoftKocksMeckingRegimeFlowRule(*a, h.real("sf", (), pos=True), eps=h.real("eps", (), pos=True, con=(1e-3, 1e-2)),
                                                g0_scale=gs)
    return F.KocksMeckingRegimeFlowRule(*a, eps=h.real("eps", (), pos=True, con=(1e-3, 1e-2)), g0_scale=gs)


@contract(P, "KocksMeckingRegimeFlowRule", CFG, samples=30)
def kmhard(h, rank, kind):
    n = h.dim("n", 0, 3)
    S = state(h, rank, n)
    check(h, km(h, S, n, False, kind), S, n)


@contract(P, "SoftKocksMeckingRegimeFlowRule", CFG)
def kmsoft(h, rank, kind):
    n = h.dim("n", 0, 3)
    S = state(h, rank, n)
    check(h, km(h, S, n, True, kind), S, n)


@contract(P, "regime switch: constituents must match", [dict(soft=False), dict(soft=True)], samples=3)
def kmmismatch(h, soft):
    F = h.mod("pyoptmat.flowrules")
    n1, n2 = h.dim("n1"), h.dim("n2")
    h.require(n1 != n2)
    b = (2,)
    x = h.real("x", (), pos=True)
    a = [make_flowrule(h, "m1", n1, b), make_flowrule(h, "m2", n2, b), x, x, x, x, x]
    c = F.SoftKocksMeckingRegimeFlowRule if soft else F.KocksMeckingRegimeFlowRule
    h.raises("mismatched internal variables are rejected", ValueError, lambda: c(*a, *([x] if soft else [])))
