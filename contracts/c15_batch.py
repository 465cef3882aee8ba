"""C15: each sample of a batch gets what it would get on its own.

Relational contracts: everything is evaluated twice, for an arbitrary batch and for the batch that consists of one of
its samples (an arbitrary one, beta), and the results for that sample must agree.  Parameters, temperatures, controls and
constituents are per sample: constituents are arbitrary functions of the sample's own arguments and of its own latent
data u.  Where a solver iterates, its contract is used (C11): the two runs must hand it the same equation for the sample.
Interpolation, the block-bidiagonal and linear solves, the time stepping and the adjoint pass are specified sample by
sample in C09, C10, C12, C13 and C14, loading, formatting, calibrating and driving in C17-C19; those contracts are decided here again."""
from pvc.engine import contract
from .common import Param, make_kinematic, make_isotropic, make_flowrule, make_damage
from . import c07_temperature, c09_interpolation, c10_bidiagonal, c12_linear, c13_ode, c14_adjoint, \
    c17_experiments, c18_calibration, c19_drivers

P = "C15"
OM, CM, SM = "pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.solvers"
RANKS = (1, 2)


class Own:
    """h for one batch: constituents depend on their arguments and on the sample's latent data."""

    def __init__(self, h, b, u):
        self.h, self.b, self.u = h, b, u

    def __getattr__(self, n):
        return getattr(self.h, n)

    def fn(self, name, batch, scalars=(), vectors=(), **k):
        return self.h.fn(name, self.b, scalars=[*scalars, self.u], vectors=vectors, bidx=False, **k)

    def dfn(self, name, batch, scalars=(), vectors=(), **k):
        return self.h.dfn(name, self.b, scalars=[*scalars, self.u], vectors=vectors, bidx=False, **k)

    def par(self, name, vec=(), **k):
        return Param(self, name, self.b, "batch", vec, **k)


class Pair:
    """A batch and one of its samples."""

    def __init__(self, h, rank):
        self.h, self.rank = h, rank
        self.b = h.batch(rank)
        self.beta = h.idx("beta", self.b[-1])
        self.b1 = self.b[:-1] + (1,)
        self.sliced = {}
        u = h.real("u", self.b[-1:])
        self.full = Own(h, self.b, u)
        self.one = Own(h, self.b1, self.alone(u, 0))

    def alone(self, x, axis=None):
        """The sample's part; axis: the batch axis."""
        axis = self.rank - 1 if axis is None else axis
        return x[(slice(None),) * axis + (slice(self.beta, self.beta + 1),)]

    def real(self, name, vec=(), **k):
        x = self.h.real(name, self.b + tuple(vec), **k)
        return x, self.alone(x).clone()

    def same(self, name, got, got1):
        """Results of the two runs, nested tuples of batched tensors."""
        if isinstance(got, (tuple, list)):
            self.h.holds(name + ": as many results", len(got) == len(got1))
            for i, (a, c) in enumerate(zip(got, got1)):
                self.same(f"{name} {i}", a, c)
            return
        self.h.eq(name, self.alone(got), got1)


# ---------------------------------------------------------------- constitutive models
HARD = ("history_rate", "dhistory_rate_dstress", "dhistory_rate_dhistory", "dhistory_rate_derate", "dhistory_rate_dtotalrate")


def hardening(o, n):
    H = o.mod("pyoptmat.hardening")
    p = o.par
    return {
        "Voce": lambda: (H.VoceIsotropicHardeningModel(p("R"), p("d")), 1),
        "Theta0Voce": lambda: (H.Theta0VoceIsotropicHardeningModel(p("tau", pos=True), p("theta")), 1),
        "Theta0RecoveryVoce": lambda: (H.Theta0RecoveryVoceIsotropicHardeningModel(
            p("tau", pos=True), p("theta"), p("R0"), p("r1"), p("r2", pos=True)), 1),
        "NoKinematic": lambda: (H.NoKinematicHardeningModel(), 0),
        "FA": lambda: (H.FAKinematicHardeningModel(p("C"), p("g"), b=p("bb"), r=p("r", pos=True)), 1),
        "FADefault": lambda: (H.FAKinematicHardeningModel(p("C"), p("g")), 1),
        "FANoRecovery": lambda: (H.FAKinematicHardeningModelNoRecovery(p("C"), p("g")), 1),
        "Chaboche": lambda: (H.ChabocheHardeningModel(p("C", (n,)), p("g", (n,))), n),
        "ChabocheRecovery": lambda: (H.ChabocheHardeningModelRecovery(
            p("C", (n,)), p("g", (n,)), p("bb", (n,)), p("r", (n,), pos=True)), n),
        "Superimposed": lambda: (H.SuperimposedKinematicHardening(
            [make_kinematic(o, "K0", n, o.b), make_kinematic(o, "K1", 1, o.b)]), n + 1),
    }


@contract(P, "hardening", [dict(model=m, rank=r) for m in (
    "Voce", "Theta0Voce", "Theta0RecoveryVoce", "NoKinematic", "FA", "FADefault", "FANoRecovery", "Chaboche",
    "ChabocheRecovery", "Superimposed") for r in RANKS], samples=15)
def c_hardening(h, model, rank):
    Q = Pair(h, rank)
    n = h.dim("n", 1, 3)
    m, nh = hardening(Q.full, n)[model]()
    m1, _ = hardening(Q.one, n)[model]()
    s, t, ep, T, e = (Q.real(x) for x in ("s", "t", "ep", "T", "e"))
    hh = Q.real("h", (nh,))
    args = (s, hh, t, ep, T, e)
    for f in HARD:
        Q.same(f, getattr(m, f)(*(a[0] for a in args)), getattr(m1, f)(*(a[1] for a in args)))
    Q.same("value", m.value(hh[0]), m1.value(hh[1]))
    Q.same("dvalue", m.dvalue(hh[0]), m1.dvalue(hh[1]))


def damage(o):
    D = o.mod("pyoptmat.damage")
    p = o.par
    return {
        "No": lambda: D.NoDamage(),
        "Constant": lambda: D.ConstantDamage(p("R")),
        "HayhurstLeckie": lambda: D.HayhurstLeckie(p("A", pos=True), p("xi", pos=True), p("phi", pos=True)),
        "LarsonMiller": lambda: D.LarsonMillerDamage(p("C"), p("A", pos=True), p("B")),
    }


@contract(P, "damage", [dict(model=m, rank=r) for m in ("No", "Constant", "HayhurstLeckie", "LarsonMiller") for r in RANKS],
          samples=15)
def c_damage(h, model, rank):
    Q = Pair(h, rank)
    m, m1 = damage(Q.full)[model](), damage(Q.one)[model]()
    args = (Q.real("s", nonzero=True), Q.real("d", ge=0, lt=1, con=(0.0, 0.9)), Q.real("t"), Q.real("T", pos=True),
            Q.real("e", nonzero=True))
    for f in ("damage_rate", "d_damage_rate_d_s", "d_damage_rate_d_e"):
        Q.same(f, getattr(m, f)(*(a[0] for a in args)), getattr(m1, f)(*(a[1] for a in args)))


FLOW = ("flow_rate", "dflow_dhist", "dflow_derate", "history_rate", "dhist_dstress", "dhist_derate")


def flowrule(o, C, n):
    """C: scalars common to all samples."""
    F = o.mod("pyoptmat.flowrules")
    p = o.par
    gs = lambda x: o.h.fn("g0scale", (), [x])

    def km(cls, *a):
        return cls(make_flowrule(o, "m1", n, o.b), make_flowrule(o, "m2", n, o.b), C["g0"], p("mu", pos=True), C["burgers"],
                   C["eps0"], C["k"], *a, eps=C["eps"], g0_scale=gs), n
    return {
        "Perfect": lambda: (F.PerfectViscoplasticity(p("n", gt=1, pos=True), p("eta", pos=True)), 0),
        "IsoKin": lambda: (F.IsoKinViscoplasticity(p("n", gt=1, pos=True), p("eta", pos=True), p("s0"),
                                                   make_isotropic(o, "iso", 1, o.b), make_kinematic(o, "kin", n, o.b)), n + 1),
        "Superimposed": lambda: (F.SuperimposedFlowRule([make_flowrule(o, "F0", n, o.b), make_flowrule(o, "F1", 1, o.b)]), n + 1),
        "RateIndependent": lambda: (F.RateIndependentFlowRuleWrapper(make_flowrule(o, "base", n, o.b), C["lam"], C["eref"]), n),
        "KocksMecking": lambda: km(F.KocksMeckingRegimeFlowRule),
        "SoftKocksMecking": lambda: km(F.SoftKocksMeckingRegimeFlowRule, C["sf"]),
    }


@contract(P, "flow rules", [dict(model=m, rank=r) for m in ("Perfect", "IsoKin", "Superimposed", "RateIndependent",
                                                            "KocksMecking", "SoftKocksMecking") for r in RANKS], samples=25)
def c_flow(h, model, rank):
    Q = Pair(h, rank)
    n = h.dim("n", 1, 3)
    C = dict(g0=h.real("g0", (), con=(-0.5, 0.5)), eps=h.real("eps", (), pos=True, con=(1e-3, 1e-2)),
             lam=h.real("lmbda", (), ge=0, le=1))
    C.update({k: h.real(k, (), pos=True) for k in ("burgers", "eps0", "k", "eref", "sf")})
    m, nh = flowrule(Q.full, C, n)[model]()
    m1, _ = flowrule(Q.one, C, n)[model]()
    args = (Q.real("s"), Q.real("h", (nh,)), Q.real("t"), Q.real("T"), Q.real("e"))
    for f in FLOW:
        Q.same(f, getattr(m, f)(*(a[0] for a in args)), getattr(m1, f)(*(a[1] for a in args)))


# ---------------------------------------------------------------- parameters
def parameters(o, raw, common, pts):
    """raw: name -> per-sample raw parameter; scalings are arbitrary elementwise functions."""
    M = o.mod("pyoptmat.temperature")
    sc = lambda n, **k: (lambda x: o.h.fn(n, x.shape, [x], bidx=False, **k))
    mu = o.par("mu", pos=True)
    k, b, e0 = common
    out = dict(scaling=sc("scaling"))
    return {
        "Constant": lambda: M.ConstantParameter(raw("A"), p_scale=sc("As"), **out),
        "ShearModulus": lambda: M.ShearModulusScaling(raw("A"), mu, A_scale=sc("As"), **out),
        "ShearModulusExp": lambda: M.ShearModulusScalingExp(raw("A"), mu, A_scale=sc("As"), **out),
        "MTS": lambda: M.MTSScaling(raw("A"), raw("B"), raw("q"), raw("p"), k, b, mu, tau0_scale=sc("ts"),
                                    g0_scale=sc("gs", pos=True), q_scale=sc("qs", pos=True), p_scale=sc("ps", pos=True), **out),
        "KMRateSensitivity": lambda: M.KMRateSensitivityScaling(raw("A"), mu, b, k, A_scale=sc("As"), **out),
        "KMViscosity": lambda: M.KMViscosityScaling(raw("A"), raw("B"), mu, e0, b, k, A_scale=sc("As"), B_scale=sc("Bs"), **out),
        "Arrhenius": lambda: M.ArrheniusScaling(raw("A"), raw("B"), A_scale=sc("As"), Q_scale=sc("Qs"), **out),
        "InverseArrhenius": lambda: M.InverseArrheniusScaling(raw("A"), raw("B"), A_scale=sc("As"), Q_scale=sc("Qs"), **out),
        "Polynomial": lambda: M.PolynomialScaling(raw("coefs"), coef_scale_fn=sc("cs"), **out),
    }


@contract(P, "temperature-dependent parameters", [dict(model=m, rank=r, per=q) for m in (
    "Constant", "ShearModulus", "ShearModulusExp", "MTS", "KMRateSensitivity", "KMViscosity", "Arrhenius",
    "InverseArrhenius", "Polynomial") for r in RANKS for q in (False, True) if not (m == "Constant" and not q)], samples=8)
def c_param(h, model, rank, per):
    """Raw parameters: one for all samples, or one per sample."""
    Q = Pair(h, rank)
    T, T1 = Q.real("T", pos=True, con=(0.5, 2.0))
    got = {}

    def raw(n):
        lead = (3,) if n == "coefs" else ()
        if n not in got:
            got[n] = h.real(n, lead + (Q.b[-1:] if per else ()))
        return got[n]

    def raw1(n):
        x = raw(n)
        return Q.alone(x, len(x.shape) - 1).clone() if per else x
    com = (h.real("k", (), pos=True, con=(0.1, 0.5)), h.real("b", (), pos=True, con=(1.0, 2.0)), h.real("eps0", (), pos=True))
    m = parameters(Q.full, raw, com, None)[model]()
    m1 = parameters(Q.one, raw1, com, None)[model]()
    v, v1 = m.value(T), m1.value(T1)
    if h.sym:
        h.require(v == v)
    else:
        h.require(v.isfinite().all())
    axis = len(v.shape) - 1
    h.eq("value", Q.alone(v, axis), v1)
    h.eq("scaled value", Q.alone(m(T), axis), m1(T1))


# ---------------------------------------------------------------- material models and control
@contract(P, "material models", [dict(damaged=d, rank=r) for d in (False, True) for r in RANKS], samples=15)
def c_model(h, damaged, rank):
    Q = Pair(h, rank)
    n = h.dim("n", 0 if rank == 1 else 1, 3)
    M = h.mod("pyoptmat.models")

    def build(o):
        fr, E = make_flowrule(o, "fr", n, o.b), o.par("E", pos=True)
        if damaged:
            return M.DamagedInelasticModel(E, fr, dmodel=make_damage(o, "dm", o.b))
        return M.InelasticModel(E, fr)
    s, hh = Q.real("s", (1,)), Q.real("h", (n,))
    d = Q.real("d", (1,), ge=0, lt=1, con=(0.0, 0.8))
    y = [h.torch.cat([s[i], hh[i]] + ([d[i]] if damaged else []), -1) for i in (0, 1)]
    t, e, T = Q.real("t"), Q.real("e", nonzero=True), Q.real("T")
    Q.same("rates and derivatives", build(Q.full)(t[0], y[0], e[0], T[0])[:3], build(Q.one)(t[1], y[1], e[1], T[1])[:3])


class Model:
    """Any material model."""

    def __init__(self, o, n):
        self.o, self.n = o, n
        self.nhist = n

    def __call__(self, t, y, erate, T):
        return self.forward(t, y, erate, T)

    def forward(self, t, y, erate, T):
        o, n = self.o, self.n
        a = dict(scalars=[t, erate, T], vectors=[y], out=(n,))
        k = 0.0 if o.h.sym else 12.0          # solvable for the sampled functions
        e0 = o.h.torch.eye(n)[0]
        return (o.fn("f", o.b, **a) + k * erate[..., None] * e0, o.dfn("f", o.b, **a, wrt=("v", 0)),
                o.dfn("f", o.b, **a, wrt=("a", 1)) + k * e0, o.h.torch.zeros_like(y))


def newton(h, Q, runs, vec):
    """Contract of the Newton solvers (C11): a solution that is determined by the sample's own equation and guess; the
    two runs (runs: the calls of the first one) must pose the same one.  vec: unknowns are (nb, ...)."""
    mode = {"run": 0, "i": 0}

    def same(name, a, c):
        h.eq(name, Q.alone(a, 0 if vec else None), c)

    def solve(RJ, x0, *a, **k):
        if mode["run"] == 0:
            X, Pt = h.arbitrary(x0.shape, "X"), h.arbitrary(x0.shape, "probe")
            runs.append((x0.clone(), Pt, RJ(Pt), X))
            J = None if vec else RJ(X)[1]
        else:
            g, Pt, (R, J_), X = runs[mode["i"]]
            mode["i"] += 1
            cut = (lambda z: Q.alone(z, 0)) if vec else Q.alone
            same("guess", g, x0)
            R1, J1 = RJ(cut(Pt).clone())
            same("equation", R, R1)
            if vec:
                h.eq("diagonal blocks of the Jacobian", Q.alone(J_.A, 1), J1.A)
                h.eq("off-diagonal blocks of the Jacobian", Q.alone(J_.B, 1), J1.B)
            else:
                same("Jacobian", J_, J1)
            X = cut(X).clone()
            J = None if vec else RJ(X)[1]
        return X if vec else (X, J)
    return solve, mode


@contract(P, "control wrappers", [dict(kind=k, rank=r) for k in ("strain", "stress", "both") for r in RANKS], samples=15)
def c_control(h, kind, rank):
    Q = Pair(h, rank)
    M = h.mod("pyoptmat.models")
    n = h.dim("n", 1, 3)
    y, t = Q.real("y", (n,)), Q.real("t")
    ctl = h.ints("control", Q.b[-1:], 0, 1)
    rate, base, T = Q.real("rate"), Q.real("base"), Q.real("temp")
    runs = []
    solve, mode = newton(h, Q, runs, False)
    h.stub(SM, "newton_raphson", solve)
    h.stub(SM, "newton_raphson_bt", solve)
    if not h.sym:
        h.tol = 2e-5

    def run(i):
        mode["run"] = i
        m = Model((Q.full, Q.one)[i], n)
        r, v, c = (lambda tt: rate[i]), (lambda tt: base[i]), (lambda tt: T[i])
        w = {"strain": lambda: M.StrainBasedModel(m, r, c), "stress": lambda: M.StressBasedModel(m, r, v, c),
             "both": lambda: M.BothBasedModel(m, r, v, c, Q.alone(ctl, 0).clone() if i else ctl)}[kind]()
        return w(t[i], y[i])
    Q.same("rates and Jacobian", run(0), run(1))


# ---------------------------------------------------------------- time stepping
SCHEMES = {"be": "BackwardEulerScheme", "fe": "ForwardEulerScheme"}


def rate(o, p):
    def f(t, y):
        nn = t.shape[0]
        k = dict(scalars=[t, o.u.unsqueeze(0).expand(nn, o.u.shape[0])], vectors=[y], out=(p,), bidx=False)
        b = (nn, o.u.shape[0])
        return o.h.fn("f", b, **k), o.h.dfn("f", b, **k, wrt=("v", 0))
    return f


@contract(P, "block_update", [dict(scheme=s) for s in SCHEMES], samples=10,
          internal={OM + ":FixedGridBlockSolver.block_update": 6})
def c_block(h, scheme):
    M = h.mod(OM)
    Q = Pair(h, 1)
    n, p = h.dim("nt", 1, 4), h.dim("p", 1, 3)
    ys, ts = Q.real("y_start", (p,)), Q.real("t_start")
    tt = h.real("t", (n,) + Q.b) if h.sym else ts[0] + 0.05 + 0.1 * h.real("t", (n,) + Q.b, con=(0.2, 1)).cumsum(0)
    guess = Q.real("guess", (n * p,), con=(-0.1, 0.1))
    h.noframe.add("guess")
    runs = []
    solve, mode = newton(h, Q, runs, True)
    h.stub(CM, "newton_raphson_chunk", solve)

    def run(i):
        mode["run"] = i
        f = rate((Q.full, Q.one)[i], p)
        s = M.FixedGridBlockSolver(f, ys[i], scheme=getattr(M, SCHEMES[scheme])(), block_size=n, rtol=1e-13, atol=1e-13,
                                   throw_on_fail=True)
        return s.block_update(Q.alone(tt, 1).clone() if i else tt, ts[i], ys[i], f, guess[i].clone())
    h.eq("solution of the block", Q.alone(run(0), 1), run(1))


@contract(P, "form_operators", [dict(scheme=s) for s in SCHEMES], samples=10,
          internal={OM + f":{s}.form_operators": 6 for s in SCHEMES.values()})
def c_form(h, scheme):
    M = h.mod(OM)
    Q = Pair(h, 1)
    n, p = h.dim("nt", 1, 4), h.dim("p", 1, 3)
    b, = Q.b
    a = (h.real("dy", (n + 1, b, p)), h.real("yd", (n + 1, b, p)), h.real("yJ", (n + 1, b, p, p)), h.real("dt", (n, b)))
    s = getattr(M, SCHEMES[scheme])()
    R, J = s.form_operators(*a)
    R1, J1 = s.form_operators(*(Q.alone(x, 1).clone() for x in a))
    h.eq("residual", Q.alone(R, 0), R1)
    h.eq("diagonal blocks", Q.alone(J.A, 1), J1.A)
    h.eq("off-diagonal blocks", Q.alone(J.B, 1), J1.B)


@contract(P, "BidiagonalForwardOperator.forward", samples=10)
def c_fwd(h):
    M = h.mod(CM)
    Q = Pair(h, 1)
    n, p = h.dim("nt", 1, 4), h.dim("p", 1, 3)
    b, = Q.b
    A, B, v = h.real("A", (n, b, p, p)), h.real("B", (n - 1, b, p, p)), h.real("v", (b, n * p))
    F = M.BidiagonalForwardOperator
    cut = lambda x: Q.alone(x, 1).clone()
    h.eq("product", Q.alone(F(A, B)(v), 0), F(cut(A), cut(B))(Q.alone(v, 0).clone()))


@contract(P, "integration and gradients, batch against single samples", [dict(scheme=s, lin=l, direct=d) for s in SCHEMES
          for l, d in (("direct", "thomas"), ("direct", "pcr"), ("direct", "hybrid"), ("dense", "thomas"))], samples=6,
          sym=False, expect="whole runs, sampled; the pieces are under the other contracts")
def c_whole(h, scheme, lin, direct):
    M = h.mod(OM)
    T = h.torch
    Q = Pair(h, 1)
    nt, p, bs = h.dim("nt", 1, 7), h.dim("p", 1, 3), h.dim("block_size", 1, 8)
    t = 0.05 * h.real("t", (nt,) + Q.b, con=(0.2, 1)).cumsum(0)
    y0, G = Q.real("y0", (p,)), h.real("G", (nt,) + Q.b + (p,))
    out = []
    for i in (0, 1):
        f = rate((Q.full, Q.one)[i], p)

        class Rate(T.nn.Module):
            def forward(self, tt, y):
                return f(tt, y)
        x = y0[i].clone().requires_grad_(True)
        tt, g = (Q.alone(z, 1) if i else z for z in (t, G))
        y = M.odeint_adjoint(Rate(), x, tt, method={"be": "backward-euler", "fe": "forward-euler"}[scheme], block_size=bs,
                             rtol=1e-13, atol=1e-13, linear_solve_method=lin, direct_solve_method=direct,
                             direct_solve_min_size=h.rng.randrange(3), throw_on_fail=True)
        (y * g).sum().backward()
        out.append((y.detach(), x.grad))
    h.eq("solution", Q.alone(out[0][0], 1), out[1][0])
    h.eq("gradient by the initial condition", Q.alone(out[0][1], 0), out[1][1])


# ---------------------------------------------------------------- specified sample by sample elsewhere
def inherit(mod, names, prefix):
    from pvc import engine
    for c in list(engine.REG):
        if c.fn.__module__ == mod.__name__ and c.name in names:
            contract(P, f"{prefix}: {c.name}", c.configs, samples=c.samples, expect=c.expect, sym=c.sym,
                     internal=c.internal)(c.fn)


inherit(c07_temperature, ("PiecewiseScaling",), "C07")
inherit(c09_interpolation, ("ArbitraryBatch single time per sample", "ArbitraryBatch block of times", "ArbitraryBatch repeated times",
                              "BatchTimeSeriesInterpolator", "timeseries_interpolate_batch_times"), "C09")
inherit(c10_bidiagonal, ("forward", "thomas_solve"), "C10")
inherit(c12_linear, ("lu_linear_solve", "gmres", "lu_gmres, jacobi_gmres", "gmres converges within n + 1 iterations"), "C12")
inherit(c13_ode, ("form_operators", "block_update", "integrate"), "C13")
inherit(c14_adjoint, ("update_adjoint", "accumulate", "rewind"), "C14")
inherit(c17_experiments, ("format_relaxation", "format_abstract_tensile", "format_cyclic", "convert_results", "load_results"), "C17")
inherit(c18_calibration, ("DeterministicModel", "StatisticalModel", "HierarchicalStatisticalModel"), "C18")
inherit(c19_drivers, ("drivers",), "C19")
