"""C04: assembly of the material models' rates and Jacobians."""
from pvc.engine import contract
from .common import Param, make_flowrule, make_damage, leaf

P = "C04"
CFG = [dict(rank=r, kind=k) for r in (1, 2) for k in ("batch", "const")]


def st(h, rank, damaged):
    class S:
        pass
    S.rank, S.b = rank, h.batch(rank)
    S.n = h.dim("n", 0 if rank == 1 else 1, 3)
    S.s = h.real("s", S.b, nonzero=True)
    S.h = h.real("h", S.b + (S.n,))
    leaf(h, S.s, S.h)
    S.parts = [S.s[..., None], S.h]
    S.vars = [("stress", S.s, lambda J: J[..., 0]), ("history", S.h, lambda J: J[..., 1:1 + S.n])]
    if damaged:
        S.d = h.real("d", S.b, ge=0, lt=1, con=(0.0, 0.8))
        leaf(h, S.d)
        S.parts.append(S.d[..., None])
        S.vars.append(("damage", S.d, lambda J: J[..., -1]))
    S.y = h.torch.cat(S.parts, -1)
    h.track("y", S.y)
    S.t, S.T = h.real("t", S.b), h.real("T", S.b)
    S.e = h.real("e", S.b, nonzero=True)
    leaf(h, S.e)
    return S


def jacs(h, S, res, J, Je):
    N = S.y.shape[-1]
    h.shape("state rate", res, S.b + (N,))
    h.shape("state Jacobian", J, S.b + (N, N))
    h.shape("strain rate derivative", Je, S.b + (N,))
    for nm, v, f in S.vars:
        h.jac(f"Jacobian: d stress rate / d {nm}", f(J)[..., 0, :] if nm == "history" else f(J)[..., 0], res[..., 0], v, S.rank)
        h.jac(f"Jacobian: d history rate / d {nm}",
              f(J)[..., 1:1 + S.n, :] if nm == "history" else f(J)[..., 1:1 + S.n], res[..., 1:1 + S.n], v, S.rank)
        if len(S.vars) == 3:
            h.jac(f"Jacobian: d damage rate / d {nm}", f(J)[..., -1, :] if nm == "history" else f(J)[..., -1], res[..., -1], v, S.rank)
    h.jac("d state rate / d strain rate", Je, res, S.e, S.rank)


@contract(P, "InelasticModel", CFG)
def inelastic(h, rank, kind):
    S = st(h, rank, False)
    M = h.mod("pyoptmat.models")
    fr, E = make_flowrule(h, "fr", S.n, S.b), Param(h, "E", S.b, "batch", pos=True)
    if kind == "const":
        E = Param(h, "E", S.b, "const", pos=True)
    m = M.InelasticModel(E, fr)
    h.holds("number of state variables", m.nhist == S.n + 1)
    res, J, Je, JT = m(S.t, S.y, S.e, S.T)
    f = fr.flow_rate(S.s, S.h, S.t, S.T, S.e)[0]
    h.eq("stress rate = E (total - inelastic strain rate)", res[..., 0], E(S.T) * (S.e - f), bcast=True)
    h.eq("history rates from the flow rule", res[..., 1:], fr.history_rate(S.s, S.h, S.t, S.T, S.e)[0])
    jacs(h, S, res, J, Je)


@contract(P, "DamagedInelasticModel", CFG)
def damaged(h, rank, kind):
    S = st(h, rank, True)
    M = h.mod("pyoptmat.models")
    fr, E = make_flowrule(h, "fr", S.n, S.b), Param(h, "E", S.b, "batch", pos=True)
    if kind == "const":
        E = Param(h, "E", S.b, "const", pos=True)
    dm = make_damage(h, "dm", S.b)
    m = M.DamagedInelasticModel(E, fr, dmodel=dm)
    h.holds("number of state variables", m.nhist == S.n + 2)
    res, J, Je, JT = m(S.t, S.y, S.e, S.T)
    se = S.s / (1 - S.d)
    f = fr.flow_rate(se, S.h, S.t, S.T, S.e)[0]
    h.eq("stress rate = (1-d) E (total - inelastic strain rate at the effective stress)", res[..., 0],
         (1 - S.d) * E(S.T) * (S.e - f), bcast=True)
    h.eq("history rates from the flow rule at the effective stress", res[..., 1:-1],
         fr.history_rate(se, S.h, S.t, S.T, S.e)[0])
    h.eq("damage rate from the damage model at the effective stress", res[..., -1],
         dm.damage_rate(se, S.d, S.t, S.T, S.e)[0])
    jacs(h, S, res, J, Je)


@contract(P, "DamagedInelasticModel without damage", [dict(rank=1)])
def undamaged(h, rank):
    """The default damage model leaves the undamaged model's behaviour."""
    S = st(h, rank, True)
    M = h.mod("pyoptmat.models")
    fr, E = make_flowrule(h, "fr", S.n, S.b), Param(h, "E", S.b, "batch", pos=True)
    m = M.DamagedInelasticModel(E, fr)
    res, J, Je, JT = m(S.t, S.y, S.e, S.T)
    h.eq("no damage accumulates", res[..., -1], h.torch.zeros(S.b))
    jacs(h, S, res, J, Je)
