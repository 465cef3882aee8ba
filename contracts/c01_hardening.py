"""C01: hardening models report exact derivatives."""
from pvc.engine import contract
from .common import Param, state, make_kinematic, leaf

P = "C01"
CFG = [dict(rank=r, kind=k) for r in (1, 2) for k in ("batch", "const")]


def check(h, m, S, value=True):
    """The hardening-model contract on one model instance."""
    h.holds("number of internal variables", m.nhist == S.h.shape[-1])
    r = m.history_rate(*S.args())
    h.shape("history_rate", r, S.h.shape)
    h.jac("d history_rate / d stress", m.dhistory_rate_dstress(*S.args()), r, S.s, S.rank)
    h.jac("d history_rate / d history", m.dhistory_rate_dhistory(*S.args()), r, S.h, S.rank)
    d = m.dhistory_rate_derate(*S.args())
    h.shape("dhistory_rate_derate", d, S.h.shape + (1,))
    h.jac("d history_rate / d inelastic rate", d[..., 0], r, S.ep, S.rank)
    h.jac("d history_rate / d total rate", m.dhistory_rate_dtotalrate(*S.args()), r, S.e, S.rank)
    if value:
        v = m.value(S.h)
        h.shape("value", v, S.b)
        h.jac("d value / d history", m.dvalue(S.h), v, S.h, S.rank)


@contract(P, "VoceIsotropicHardeningModel", CFG)
def voce(h, rank, kind):
    S = state(h, rank, 1)
    H = h.mod("pyoptmat.hardening")
    check(h, H.VoceIsotropicHardeningModel(Param(h, "R", S.b, kind), Param(h, "d", S.b, kind)), S)


@contract(P, "Theta0VoceIsotropicHardeningModel", CFG)
def theta0(h, rank, kind):
    S = state(h, rank, 1)
    H = h.mod("pyoptmat.hardening")
    check(h, H.Theta0VoceIsotropicHardeningModel(Param(h, "tau", S.b, kind, pos=True),
                                                 Param(h, "theta", S.b, kind)), S)


@contract(P, "Theta0RecoveryVoceIsotropicHardeningModel", CFG)
def theta0rec(h, rank, kind):
    S = state(h, rank, 1)
    H = h.mod("pyoptmat.hardening")
    R0 = Param(h, "R0", S.b, kind)
    # |R0 - h|^(r2-1) is differentiable away from h = R0
    dif = R0(S.T) - S.h[..., 0]
    h.require(abs(dif) > (0 if h.sym else 1e-2))
    check(h, H.Theta0RecoveryVoceIsotropicHardeningModel(
        Param(h, "tau", S.b, kind, pos=True), Param(h, "theta", S.b, kind), R0,
        Param(h, "r1", S.b, kind), Param(h, "r2", S.b, kind, pos=True)), S)


@contract(P, "NoKinematicHardeningModel", [dict(rank=1), dict(rank=2)])
def nokin(h, rank):
    S = state(h, rank, 0)
    H = h.mod("pyoptmat.hardening")
    m = H.NoKinematicHardeningModel()
    check(h, m, S)
    h.eq("value is zero", m.value(S.h), h.torch.zeros(S.b))


@contract(P, "FAKinematicHardeningModel", CFG)
def fa(h, rank, kind):
    S = state(h, rank, 1)
    H = h.mod("pyoptmat.hardening")
    check(h, H.FAKinematicHardeningModel(Param(h, "C", S.b, kind), Param(h, "g", S.b, kind),
                                         b=Param(h, "bb", S.b, kind), r=Param(h, "r", S.b, kind, pos=True)), S)


@contract(P, "FAKinematicHardeningModel, default recovery", CFG)
def fadef(h, rank, kind):
    S = state(h, rank, 1)
    H = h.mod("pyoptmat.hardening")
    check(h, H.FAKinematicHardeningModel(Param(h, "C", S.b, kind), Param(h, "g", S.b, kind)), S)


@contract(P, "FAKinematicHardeningModelNoRecovery", CFG)
def fanr(h, rank, kind):
    S = state(h, rank, 1)
    H = h.mod("pyoptmat.hardening")
    check(h, H.FAKinematicHardeningModelNoRecovery(Param(h, "C", S.b, kind), Param(h, "g", S.b, kind)), S)


@contract(P, "ChabocheHardeningModel", CFG)
def chab(h, rank, kind):
    n = h.dim("nback")
    S = state(h, rank, n)
    H = h.mod("pyoptmat.hardening")
    m = H.ChabocheHardeningModel(Param(h, "C", S.b, kind, (n,)), Param(h, "g", S.b, kind, (n,)))
    check(h, m, S)


@contract(P, "ChabocheHardeningModelRecovery", CFG)
def chabrec(h, rank, kind):
    n = h.dim("nback")
    S = state(h, rank, n)
    H = h.mod("pyoptmat.hardening")
    m = H.ChabocheHardeningModelRecovery(Param(h, "C", S.b, kind, (n,)), Param(h, "g", S.b, kind, (n,)),
                                         Param(h, "bb", S.b, kind, (n,)), Param(h, "r", S.b, kind, (n,), pos=True))
    check(h, m, S)


@contract(P, "SuperimposedKinematicHardening", [dict(rank=r, k=k) for r in (1, 2) for k in (1, 2, 3)])
def superim(h, rank, k):
    ns = [h.dim(f"n{i}", 0 if i == 1 else 1, 3) for i in range(k)]
    tot = sum(ns[1:], ns[0])
    S = state(h, rank, tot)
    H = h.mod("pyoptmat.hardening")
    m = H.SuperimposedKinematicHardening([make_kinematic(h, f"K{i}", ns[i], S.b) for i in range(k)])
    check(h, m, S)
