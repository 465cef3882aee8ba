"""Abstract components shared by the contracts.

Each stands for *any* implementation that satisfies its contract; in symbolic mode they are
uninterpreted functions, in concrete mode random smooth functions."""


class Param:
    """A temperature-dependent parameter: calling it gives the (scaled) value at T.
    kind 'batch': a value per sample, depending on that sample's temperature; 'const': one value."""

    def __init__(self, h, name, batch, kind="batch", vec=(), pos=False, con=None, gt=None):
        self.h, self.name, self.batch, self.kind, self.vec, self.pos = h, name, tuple(batch), kind, tuple(vec), pos
        if kind == "const":
            self.c = h.real(name, self.vec, pos=pos, con=con, gt=gt)
            self.raw = h.real(name + "_unscaled", self.vec, pos=pos, con=con)

    @property
    def shape(self):
        return self.h.torch.Size(self.vec)

    @property
    def device(self):
        return self.h.torch.zeros(1).device

    def _f(self, n, T):
        return self.h.fn(n, self.batch, [T], out=self.vec, pos=self.pos)

    def __call__(self, T):
        return self.c if self.kind == "const" else self._f(self.name, T)

    def value(self, T):
        """The value before numerical scaling: not what a model may use."""
        return self.raw if self.kind == "const" else self._f(self.name + "_unscaled", T)


def state(h, rank, nhist=None, sname="s", nonzero=True):
    """Batch of states at which models are evaluated (inputs are frame-checked)."""
    class S:
        pass
    S.b = h.batch(rank)
    S.rank = rank
    z = dict(nonzero=nonzero, zeros=not nonzero)
    S.s = h.real(sname, S.b, **z)
    S.T = h.real("T", S.b)
    S.t = h.real("t", S.b)
    S.ep = h.real("ep", S.b, **z)
    S.e = h.real("e", S.b, **z)
    if nhist is not None:
        S.h = h.real("h", S.b + (nhist,), **z)
    leaf(h, S.s, S.ep, S.e, *([S.h] if nhist is not None else []))
    S.args = lambda: (S.s, S.h, S.t, S.ep, S.T, S.e)
    return S


def leaf(h, *xs):
    """Inputs to differentiate with respect to."""
    if not h.sym:
        for x in xs:
            x.requires_grad_(True)


def bc(h, x, batch):
    """Broadcast a parameter value (const or per-sample) over the batch and trailing dims."""
    return x


def module_base(h):
    return h.torch.nn.Module


def make_kinematic(h, name, n, batch):
    """Any kinematic hardening model with n internal variables."""
    HM = h.mod("pyoptmat.hardening")

    class AbsKin(HM.KinematicHardeningModel):
        def value(self, hh):
            return h.fn(name + "V", batch, vectors=[hh])

        def dvalue(self, hh):
            return h.dfn(name + "V", batch, vectors=[hh], wrt=("v", 0))

        @property
        def nhist(self):
            return n

        def _a(self, s, hh, t, ep, T, e):
            return dict(scalars=[s, t, ep, T, e], vectors=[hh], out=(n,))

        def history_rate(self, *a):
            return h.fn(name + "H", batch, **self._a(*a))

        def dhistory_rate_dstress(self, *a):
            return h.dfn(name + "H", batch, **self._a(*a), wrt=("a", 0))

        def dhistory_rate_dhistory(self, *a):
            return h.dfn(name + "H", batch, **self._a(*a), wrt=("v", 0))

        def dhistory_rate_derate(self, *a):
            return h.dfn(name + "H", batch, **self._a(*a), wrt=("a", 2))[..., None]

        def dhistory_rate_dtotalrate(self, *a):
            return h.dfn(name + "H", batch, **self._a(*a), wrt=("a", 4))
    return AbsKin()


def make_isotropic(h, name, n, batch):
    HM = h.mod("pyoptmat.hardening")
    K = type(make_kinematic(h, name, n, batch))

    class AbsIso(HM.IsotropicHardeningModel):
        value, dvalue, nhist, _a = K.value, K.dvalue, K.nhist, K._a
        history_rate, dhistory_rate_dstress = K.history_rate, K.dhistory_rate_dstress
        dhistory_rate_dhistory, dhistory_rate_derate = K.dhistory_rate_dhistory, K.dhistory_rate_derate
        dhistory_rate_dtotalrate = K.dhistory_rate_dtotalrate
    return AbsIso()


def make_flowrule(h, name, n, batch):
    """Any flow rule with n internal variables."""
    FR = h.mod("pyoptmat.flowrules")

    class AbsFlow(FR.FlowRule):
        def _a(self, s, hh, t, T, e):
            return dict(scalars=[s, t, T, e], vectors=[hh])

        @property
        def nhist(self):
            return n

        def flow_rate(self, *a):
            return (h.fn(name + "F", batch, **self._a(*a)),
                    h.dfn(name + "F", batch, **self._a(*a), wrt=("a", 0)))

        def dflow_dhist(self, *a):
            return h.dfn(name + "F", batch, **self._a(*a), wrt=("v", 0)).unsqueeze(-2)

        def dflow_derate(self, *a):
            return h.dfn(name + "F", batch, **self._a(*a), wrt=("a", 3))

        def history_rate(self, *a):
            return (h.fn(name + "G", batch, **self._a(*a), out=(n,)),
                    h.dfn(name + "G", batch, **self._a(*a), out=(n,), wrt=("v", 0)))

        def dhist_dstress(self, *a):
            return h.dfn(name + "G", batch, **self._a(*a), out=(n,), wrt=("a", 0))

        def dhist_derate(self, *a):
            return h.dfn(name + "G", batch, **self._a(*a), out=(n,), wrt=("a", 3))
    return AbsFlow()


def make_damage(h, name, batch):
    DM = h.mod("pyoptmat.damage")

    class AbsDamage(DM.DamageModel):
        def damage_rate(self, s, d, t, T, e):
            a = dict(scalars=[s, d, t, T, e])
            return h.fn(name, batch, **a), h.dfn(name, batch, **a, wrt=("a", 1))

        def d_damage_rate_d_s(self, s, d, t, T, e):
            return h.dfn(name, batch, scalars=[s, d, t, T, e], wrt=("a", 0))

        def d_damage_rate_d_e(self, s, d, t, T, e):
            return h.dfn(name, batch, scalars=[s, d, t, T, e], wrt=("a", 4))
    return AbsDamage()
