"""C03: damage models report exact derivatives."""
from pvc.engine import contract
from .common import Param, leaf

P = "C03"
CFG = [dict(rank=r, kind=k) for r in (1, 2) for k in ("batch", "const")]


def st(h, rank):
    class S:
        pass
    S.rank = rank
    S.b = h.batch(rank)
    S.s = h.real("s", S.b, nonzero=True)
    S.d = h.real("d", S.b, ge=0, lt=1)
    S.T = h.real("T", S.b, pos=True)
    S.t = h.real("t", S.b)
    S.e = h.real("e", S.b, nonzero=True)
    leaf(h, S.s, S.d, S.e)
    S.args = (S.s, S.d, S.t, S.T, S.e)
    return S


def check(h, m, S):
    r, dr = m.damage_rate(*S.args)
    h.shape("damage_rate", r, S.b)
    h.jac("d damage rate / d damage", dr, r, S.d, S.rank)
    h.jac("d damage rate / d stress", m.d_damage_rate_d_s(*S.args), r, S.s, S.rank)
    h.jac("d damage rate / d strain rate", m.d_damage_rate_d_e(*S.args), r, S.e, S.rank)


@contract(P, "NoDamage", [dict(rank=1), dict(rank=2)])
def nodamage(h, rank):
    S = st(h, rank)
    m = h.mod("pyoptmat.damage").NoDamage()
    check(h, m, S)
    h.eq("no damage accumulates", m.damage_rate(*S.args)[0], h.torch.zeros(S.b))


@contract(P, "HayhurstLeckie", CFG)
def hl(h, rank, kind):
    S = st(h, rank)
    D = h.mod("pyoptmat.damage")
    check(h, D.HayhurstLeckie(Param(h, "A", S.b, kind, pos=True), Param(h, "xi", S.b, kind, pos=True),
                              Param(h, "phi", S.b, kind, pos=True)), S)


@contract(P, "ConstantDamage", CFG)
def const(h, rank, kind):
    S = st(h, rank)
    D = h.mod("pyoptmat.damage")
    check(h, D.ConstantDamage(Param(h, "R", S.b, kind)), S)


@contract(P, "LarsonMillerDamage", CFG)
def lm(h, rank, kind):
    """The stress derivative divides by |s| + eps (a guard against 0/0): exact up to that guard."""
    S = st(h, rank)
    D = h.mod("pyoptmat.damage")
    eps = h.flt("eps", ge=0, con=(0.0, 0.01))
    m = D.LarsonMillerDamage(Param(h, "C", S.b, kind), Param(h, "A", S.b, kind, pos=True), Param(h, "B", S.b, kind), eps=eps)
    r, dr = m.damage_rate(*S.args)
    h.shape("damage_rate", r, S.b)
    h.jac("d damage rate / d damage", dr, r, S.d, S.rank)
    ds = m.d_damage_rate_d_s(*S.args)
    h.jac("d damage rate / d stress, up to the guard", ds * (abs(S.s) + eps) / abs(S.s), r, S.s, S.rank)
    h.jac("d damage rate / d strain rate", m.d_damage_rate_d_e(*S.args), r, S.e, S.rank)
    m0 = D.LarsonMillerDamage(m.C, m.A, m.B, eps=0.0)
    h.jac("d damage rate / d stress, no guard", m0.d_damage_rate_d_s(*S.args), m0.damage_rate(*S.args)[0], S.s, S.rank)
