"""C14: adjoint gradients are the exact gradients of the discrete solution.

The discrete solution satisfies E_k = y_k - y_{k-1} - h_k f = 0 (C13).  With adjoint variables l_k, k >= 1, defined by
sum_k (dE_k/dy_j)^T l_k = g_j (j >= 1; g_j the gradient of the loss with respect to y_j), the implicit function
theorem gives dL/dtheta = - sum_k l_k . dE_k/dtheta and dL/dy_0 = g_0 - sum_k (dE_k/dy_0)^T l_k.  The l_k are
arbitrary here and the g_j are what the adjoint equation makes of them (a bijection, for nonsingular diagonal
blocks): this covers every loss.  Row k of the reversed arrays is row nt - 1 - k of the solution."""
from pvc.engine import contract

P = "C14"
OM, CM = "pyoptmat.ode", "pyoptmat.chunktime"
SCHEMES = {"be": "BackwardEulerScheme", "fe": "ForwardEulerScheme"}
METHOD = {"be": "backward-euler", "fe": "forward-euler"}
SOLVERS = ("BidiagonalThomasFactorization", "BidiagonalPCRFactorization", "BidiagonalHybridFactorization")


def both():
    return [dict(scheme=s) for s in SCHEMES]


def tmv(J, x):
    """J^T x."""
    return (J.transpose(-1, -2) * x.unsqueeze(-2)).sum(-1)


class Adjoint:
    """Adjoint variables, the loss gradient they belong to, and what the backward pass must accumulate, in reversed
    time.  dt: (nt - 1, b), negative steps; J: (nt, b, p, p)."""

    def __init__(self, h, scheme, nt, b, p, t, J, name="lam"):
        T = h.torch
        self.scheme, self.h, self.t, self.J = scheme, h, t, J
        d = (t[1:] - t[:-1]).unsqueeze(-1)
        if scheme == "be":
            # (I + J_k d_k)^T l_k = g_k + l_{k-1} =: a_k
            l = self.l = h.real(name, (nt - 1, b, p))
            g0 = h.real(name + "0", (b, p))
            a = l + tmv(J[:-1], l) * d
            self.a = T.cat([a, (g0 + l[-1]).unsqueeze(0)])
            self.g = self.a - T.cat([T.zeros((1, b, p)), l])
        else:
            # l_k = g_k + (I - J_k d_{k-1})^T l_{k-1}
            a = self.a = h.real(name, (nt, b, p))
            self.g = a - T.cat([T.zeros((1, b, p)), a[:-1] - tmv(J[1:], a[:-1]) * d])

    def weight(self):
        """Step k contributes the parameter derivative at time() weighted with this."""
        d = (self.t[1:] - self.t[:-1]).unsqueeze(-1)
        return (self.l if self.scheme == "be" else self.a[:-1]) * -d

    def rows(self, x):
        return x[:-1] if self.scheme == "be" else x[1:]


def matvec_stub(h, expected):
    """Contract of the block-bidiagonal factorizations (C10): the solution of M X = v."""
    T = h.torch

    def matvec(self, v):
        X = expected()
        n, b, p = X.shape
        h.shape("right-hand side", v, (n, b, p, 1))
        h.shape("diagonal blocks", self.A, (n, b, p, p))
        h.shape("off-diagonal blocks", self.B, (n - 1, b, p, p))
        low = (self.B * X[:-1].unsqueeze(-2)).sum(-1)
        M = (self.A * X.unsqueeze(-2)).sum(-1) + T.cat([T.zeros((1, b, p)), low])
        h.eq("adjoint equations of the block", M, v.squeeze(-1))
        return X.unsqueeze(-1).clone()
    for c in ("BidiagonalThomasFactorization", "BidiagonalPCRFactorization", "BidiagonalHybridFactorization"):
        h.patch(CM, f"{c}.matvec", matvec)


@contract(P, "update_adjoint", both(), samples=20,
          internal={OM + f":{s}.update_adjoint": 6 for s in SCHEMES.values()})
def c_update(h, scheme):
    """One block: starting from the adjoint at the border, all adjoints of the block."""
    M = h.mod(OM)
    n, b, p = h.dim("n", 1, 5), h.dim("nb", 1, 3), h.dim("p", 1, 3)
    t = h.real("t", (n + 1, b), con=(-0.2, 0.2))
    J = h.real("J", (n + 1, b, p, p))
    ad = Adjoint(h, scheme, n + 1, b, p, t, J)
    g = ad.g.clone()
    g[0] = h.real("g_border", (b, p))       # accounted for by the previous block
    g0 = g.clone()
    if h.sym:
        matvec_stub(h, lambda: ad.a[1:] - ad.a[0])
    a = getattr(M, SCHEMES[scheme])().update_adjoint(t.diff(dim=0), J, ad.a[0].clone(), g)
    h.shape("adjoints", a, (n + 1, b, p))
    h.eq("adjoints of the block", a, ad.a)
    h.eq("loss gradient unchanged", g, g0)


@contract(P, "accumulate", both(), samples=20, internal={OM + f":{s}.accumulate": 7 for s in SCHEMES.values()})
def c_accumulate(h, scheme):
    """Adds the block's contribution to every parameter's gradient."""
    M = h.mod(OM)
    n, b, p = h.dim("n", 1, 5), h.dim("nb", 1, 3), h.dim("p", 1, 3)
    t = h.real("t", (n + 1, b), con=(-0.2, 0.2))
    y = h.real("y", (n + 1, b, p))
    J = h.real("J", (n + 1, b, p, p))
    ad = Adjoint(h, scheme, n + 1, b, p, t, J)
    prev = (h.real("G0", (h.dim("m", 1, 3),)), h.real("G1", ()))
    add = (h.real("D0", prev[0].shape), h.real("D1", ()))

    def vjp(tt, yy, w):
        h.eq("times of the steps", tt, ad.rows(t))
        h.eq("states of the steps", yy, ad.rows(y))
        h.eq("weights of the steps", w, ad.weight())
        return add
    g = ad.g.clone()
    g[0] = h.real("g_border", (b, p))
    r = getattr(M, SCHEMES[scheme])().accumulate(prev, t, y, ad.a, g, vjp)
    h.holds("one gradient per parameter", len(r) == 2)
    for i in range(2):
        h.eq(f"gradient {i}", r[i], prev[i] + add[i])


class SymRate:
    """Any rate f(t, y; theta) with its Jacobian; its derivative by the parameters is uninterpreted."""

    def __init__(self, h, b, p):
        self.h, self.b, self.p = h, b, p
        self.c = h.real("c", (b,))
        self.theta = (h.real("theta0", (h.dim("m", 1, 3),), frame=False), h.real("theta1", (), frame=False))
        for x in self.theta:
            x.requires_grad = True
        self.last = None

    def args(self, t, y):
        n = t.shape[0]
        return (n, self.b), dict(scalars=[t, self.c.unsqueeze(0).expand(n, self.b)], vectors=[y], bidx=False)

    def __call__(self, t, y):
        bt, k = self.args(t, y)
        self.last = (t, y, self.h.fn("f", bt, out=(self.p,), **k))
        return self.last[2], self.h.dfn("f", bt, out=(self.p,), wrt=("v", 0), **k)

    def jacobian(self, t, y):
        bt, k = self.args(t, y)
        return self.h.dfn("f", bt, out=(self.p,), wrt=("v", 0), **k)

    def parameters(self):
        return iter(self.theta)

    def dtheta(self, i, t, y):
        bt, k = self.args(t, y)
        return self.h.fn(f"f_theta{i}", bt, out=(self.p,) + tuple(self.theta[i].shape), **k)

    def vjp(self, i, t, y, w):
        """Sum over times, samples and states of w df/dtheta_i."""
        D = self.dtheta(i, t, y)
        w = w.reshape(tuple(w.shape) + (1,) * len(self.theta[i].shape))
        return (w * D).sum((0, 1, 2))

    def per_step(self, i, t, y, w):
        D = self.dtheta(i, t, y)
        w = w.reshape(tuple(w.shape) + (1,) * len(self.theta[i].shape))
        return (w * D).sum((1, 2))


def con_rate(h, b, p):
    """A concrete rate with parameters."""
    T = h.torch
    c = h.real("c", (b,))
    m = h.dim("m", 1, 3)
    C = h.real("C", (p, m))
    w0, w1 = h.real("theta0", (m,)), h.real("theta1", ())

    class Rate(T.nn.Module):
        def __init__(self):
            super().__init__()
            self.w0, self.w1 = T.nn.Parameter(w0.clone()), T.nn.Parameter(1.0 + 0.3 * w1.clone())

        def forward(self, t, y):
            n = t.shape[0]
            k = dict(scalars=[t, c.unsqueeze(0).expand(n, b)], vectors=[y], bidx=False)
            v = 0.3 * T.sin(C * self.w0).sum(-1)
            f = self.w1 * h.fn("f", (n, b), out=(p,), **k) + v * y * T.cos(self.w1 * t).unsqueeze(-1)
            J = self.w1 * h.dfn("f", (n, b), out=(p,), wrt=("v", 0), **k) + T.diag_embed(
                (v * T.cos(self.w1 * t).unsqueeze(-1)).expand(n, b, p))
            return f, J
    return Rate()


def grad_hook(h, rate, params):
    """Contract of torch.autograd.grad: vector-Jacobian products of the rate evaluated last."""
    def grad(outputs, inputs, grad_outputs, **k):
        t, y, f = rate.last
        h.holds("the rate is differentiated", outputs is f)
        h.holds("by the adjoint parameters", len(inputs) == len(params) and all(a is b for a, b in zip(inputs, params)))
        h.shape("weights", grad_outputs, f.shape)
        return tuple(rate.vjp([q is x for q in rate.theta].index(True), t, y, grad_outputs) for x in inputs)
    h.ctx.autograd_grad = grad


@contract(P, "_get_param_partial", samples=10, internal={OM + ":FixedGridBlockSolver._get_param_partial": 4})
def c_partial(h):
    M = h.mod(OM)
    T = h.torch
    n, b, p = h.dim("n", 1, 4), h.dim("nb", 1, 3), h.dim("p", 1, 3)
    t, y, w = h.real("t", (n, b)), h.real("y", (n, b, p)), h.real("w", (n, b, p))
    y0 = h.real("y0", (b, p))
    rate = SymRate(h, b, p) if h.sym else con_rate(h, b, p)
    ps = tuple(rate.parameters())[::-1]
    if h.sym:
        grad_hook(h, rate, ps)
    s = M.FixedGridBlockSolver(rate, y0, adjoint_params=ps)
    g = s._get_param_partial(t, y, w)
    h.holds("one gradient per parameter", len(g) == len(ps))
    for i, (q, x) in enumerate(zip(ps, g)):
        if h.sym:
            h.eq(f"weighted derivative {i}", x, rate.vjp(len(ps) - 1 - i, t, y, w))
        else:
            e, = T.autograd.grad((rate(t, y)[0] * w).sum(), q)
            h.eq(f"weighted derivative {i}", x, e)


@contract(P, "rewind", [dict(scheme=s, params=q) for s in SCHEMES for q in (0, 1, 2)], samples=10,
          internal={OM + ":FixedGridBlockSolver.rewind": 2})
def c_rewind(h, scheme, params):
    """Block after block, over all steps: gradients of all parameters and of the initial condition."""
    M = h.mod(OM)
    T = h.torch
    nt, bs = h.dim("nt", 2, 8), h.dim("block_size", 1, 5)
    b, p = h.dim("nb", 1, 3), h.dim("p", 1, 3)
    y0 = h.real("y0", (b, p))
    tf, yf = h.real("tf", (nt, b), con=(-0.2, 0.2)), h.real("yf", (nt, b, p))
    rate = SymRate(h, b, p) if h.sym else con_rate(h, b, p)
    ps = tuple(rate.parameters())[:params]
    J = rate.jacobian(tf, yf) if h.sym else rate(tf, yf)[1].detach()
    ad = Adjoint(h, scheme, nt, b, p, tf, J)
    s = M.FixedGridBlockSolver(rate, y0, scheme=getattr(M, SCHEMES[scheme])(), block_size=bs, adjoint_params=ps)
    s.t, s.result = tf, yf
    G = ad.g.flip(0).clone()
    if h.sym:
        steps = [rate.per_step(i, ad.rows(tf), ad.rows(yf), ad.weight()) for i in range(len(ps))]
        grad_hook(h, rate, ps)
        now = {}

        def update_adjoint(self, dt, J_, a_prev, grads, solver=None):
            """Contract of update_adjoint, proved on its own."""
            k = now["k"]
            h.eq("steps of the block", dt, tf[k - 1:k + bs][1:] - tf[k - 1:k + bs][:-1])
            h.eq("Jacobians of the block", J_, J[k - 1:k + bs])
            h.eq("adjoint at the border", a_prev, ad.a[k - 1])
            h.eq("loss gradient of the block", grads[1:], ad.g[k - 1:k + bs][1:])
            return ad.a[k - 1:k + bs].clone()
        h.patch(OM, f"{SCHEMES[scheme]}.update_adjoint", update_adjoint)

        def inv(L, k):
            h.eq("adjoint at the border", L["prev_adjoint"], ad.a[k - 1])
            for i in range(len(ps)):
                h.eq(f"gradient {i} of the steps so far", L["grad_result"][i], steps[i][:k - 1].sum(0))

        def init(L, k):
            h.holds("starts with the first step", k == 1)
            inv(L, k)

        def havoc(L, k):
            now["k"] = k
            h.require(k >= 1)
            h.split(k + bs <= nt)
            e = k if h.split(k < nt) else nt
            return dict(prev_adjoint=ad.a[e - 1].clone(),
                        grad_result=tuple(x[:e - 1].sum(0) for x in steps) if params else L["grad_result"])

        def check(L, k2):
            h.holds("the next block starts where this one ends", k2 == now["k"] + bs)
            inv(L, k2 if h.split(k2 <= nt) else nt)
        h.loop(OM, "FixedGridBlockSolver.rewind", 0, init=init, havoc=havoc, check=check, first=(1, bs), index=[(1, bs, nt), (0, bs, nt - 1)],
               roles=dict(prev_adjoint=lambda L: ad.a[0], grad_result=lambda L: tuple(T.zeros(q.shape) for q in ps)))
    g, l0 = s.rewind(G)
    h.eq("gradient by the initial condition", l0, ad.a[nt - 1])
    h.holds("one gradient per parameter", len(g) == len(ps))
    if h.sym:
        for i in range(len(ps)):
            h.eq(f"gradient by parameter {i}", g[i], steps[i].sum(0))
    else:
        t_, y_, w = ad.rows(tf), ad.rows(yf), ad.weight()
        for i, q in enumerate(ps):
            e, = T.autograd.grad((rate(t_, y_)[0] * w).sum(), q)
            h.eq(f"gradient by parameter {i}", g[i], e)


@contract(P, "odeint_adjoint", [dict(scheme=s, y0grad=y, extra=e) for s in SCHEMES for y in (False, True) for e in (False, True)],
          samples=10)
def c_wiring(h, scheme, y0grad, extra):
    """Every gradient reaches the tensor it belongs to; the whole chain against an independent adjoint."""
    M = h.mod(OM)
    T = h.torch
    nt, b, p = h.dim("nt", 1, 7), h.dim("nb", 1, 3), h.dim("p", 1, 3)
    bs = h.dim("block_size", 1, 8)
    y0 = h.real("y0", (b, p))
    if h.sym:
        t = h.real("t", (nt, b))
        rate = SymRate(h, b, p)
        ex = (h.real("extra", (h.dim("me", 1, 3),), frame=False),) if extra else ()
        for x in ex:
            x.requires_grad = True
        y0.requires_grad = y0grad
        Y = h.real("Y", (nt, b, p), frame=False)

        rate2, t2, y02 = SymRate(h, b, p), h.arbitrary((nt, b), "t2"), h.arbitrary((b, p), "y02")
        y02.requires_grad = y0grad

        def integrate(self, times, cache_adjoint=False):
            """Contract of integrate (C13)."""
            if self.func is rate2:
                self.t, self.result = times.flip(0), h.arbitrary((nt, b, p), "Y2")
                return self.result.flip(0)
            h.holds("reversed solution kept", cache_adjoint is True)
            h.eq("times", times, t)
            h.holds("initial condition", self.y0 is y0)
            h.holds("rate", self.func is rate)
            h.holds("scheme", type(self.scheme) is getattr(M, SCHEMES[scheme]))
            self.t, self.result = times.flip(0), Y.flip(0)
            return Y.clone()
        h.patch(OM, "FixedGridBlockSolver.integrate", integrate)
        want = tuple(rate.theta) + ex
        G = h.real("G", (nt, b, p))
        grads = tuple(h.arbitrary(x.shape, "grad") for x in want)
        lam = h.arbitrary((b, p), "lam")

        def rewind(self, og):
            """Contract of rewind, proved on its own."""
            h.holds("rewinds the solver that integrated", self.func is rate)
            h.eq("along its times", self.t, t.flip(0))
            h.eq("along its solution", self.result, Y.flip(0))
            h.eq("loss gradient", og, G)
            h.holds("adjoint parameters", len(self.adjoint_params) == len(want) and all(
                x is y for x, y in zip(self.adjoint_params, want)))
            return grads, lam
        h.patch(OM, "FixedGridBlockSolver.rewind", rewind)
        kw = dict(method=METHOD[scheme], block_size=bs, **({"extra_params": list(ex)} if extra else {}))
        y = M.odeint_adjoint(rate, y0, t, **kw)
        h.eq("solution", y, Y)
        cls, ctx, args, r = h.ctx.autograd_calls[-1]
        M.odeint_adjoint(rate2, y02, t2, **kw)      # another solve comes between
        out = cls.backward(ctx, G)
        h.holds("one gradient per argument", len(out) == len(args))
        for i, (a, o) in enumerate(zip(args, out)):
            which = [j for j, x in enumerate(want) if x is a]
            if which:
                h.eq(f"gradient of parameter {which[0]}", o, grads[which[0]])
            elif a is y0:
                h.eq("gradient of the initial condition", o, lam)
            else:
                h.holds("no gradient for the others", o is None)
        h.holds("every parameter is differentiated", all(any(a is x for a in args) for x in want))
        h.holds("the initial condition is differentiated when asked", any(a is y0 for a in args) == y0grad)
        return
    t = 0.05 * h.real("t", (nt, b), con=(0.2, 1)).cumsum(0)
    rate = con_rate(h, b, p)
    ps = list(rate.parameters())
    ex = []
    if h.rng.random() < 0.4 and (y0grad or not extra):   # a rate with a single parameter
        w = ps.pop(0)
        del rate._parameters["w0"]
        rate.__dict__["w0"] = w.detach()
    if extra:
        ex = [ps.pop()]            # known to the solver only through extra_params
        w1 = rate.w1
        del rate._parameters["w1"]
        rate.__dict__["w1"] = w1
    y0.requires_grad_(y0grad)
    lin = (("direct", "thomas"), ("direct", "pcr"), ("direct", "hybrid"), ("dense", "thomas"))[h.rng.randrange(4)]
    y = M.odeint_adjoint(rate, y0, t, method=METHOD[scheme], block_size=bs, rtol=1e-13, atol=1e-13, throw_on_fail=True,
                         linear_solve_method=lin[0], direct_solve_method=lin[1], direct_solve_min_size=h.rng.randrange(4),
                         **({"extra_params": ex} if extra else {}))
    G = h.real("G", (nt, b, p))
    # another solve comes between
    M.odeint_adjoint(con_rate(h, b, p), 0.5 * y0, 0.7 * t, method=METHOD[scheme], block_size=bs)
    if h.seed % 2:         # another loss of the same solution first
        (y * h.real("G_first", (nt, b, p))).sum().backward(retain_graph=True)
        for q in [y0] + list(rate.parameters()) + ex:
            q.grad = None
    (y * G).sum().backward()
    # independent adjoint: one step after the other, dense
    yd = y.detach()
    J = rate(t, yd)[1].detach()
    d = t[1:] - t[:-1]
    lam, lams = T.zeros((b, p)), [None] * (nt - 1)
    I = T.eye(p)
    for k in range(nt - 2, -1, -1):
        # the equation of step k connects y[k] and y[k + 1]
        if scheme == "be":
            lam = T.linalg.solve((I - J[k + 1] * d[k, :, None, None]).transpose(-1, -2), G[k + 1] + lam)
        else:
            lam = G[k + 1] + (lam + (tmv(J[k + 1], lam) * d[k + 1].unsqueeze(-1)) if k + 2 < nt else 0.0)
        lams[k] = lam
    w = T.stack(lams) * d.unsqueeze(-1) if lams else T.zeros((0, b, p))
    f = rate(t, yd)[0]
    f = f[1:] if scheme == "be" else f[:-1]
    for i, q in enumerate(ps + ex):
        e, = T.autograd.grad((f * w).sum(), q, retain_graph=True)
        h.eq(f"gradient by parameter {i}", q.grad, e)
    if y0grad:
        e = G[0] if nt == 1 else G[0] + lams[0] + (tmv(J[0], lams[0]) * d[0].unsqueeze(-1) if scheme == "fe" else 0.0)
        h.eq("gradient by the initial condition", y0.grad, e)


# ---------------------------------------------------------------- the graph between the parameters and the rates
# The backward pass differentiates the rates with torch.autograd: every parameter must be reached by it, that is belong
# to the module and influence the rates through operations autograd follows.
class Leaves:
    def __init__(self, h):
        self.h, self.all, self.temperature = h, [], h.mod("pyoptmat.temperature")

    def raw(self, name, shape=(), **k):
        k.setdefault("con", (0.5, 1.5))
        x = self.h.parameter(name, shape, **k)
        self.all.append(x)
        return x

    def __call__(self, name, shape=(), **k):
        return self.temperature.ConstantParameter(self.raw(name, shape, pos=True, **k))


def parameter_leaves(h, p, model):
    M = p.temperature
    mu = lambda: M.PolynomialScaling(p.raw("mu", (2,), pos=True))
    k = dict(k=h.real("k", (), pos=True, con=(0.1, 0.2)), b=h.real("b", (), pos=True, con=(1.0, 1.2)))
    neg = dict(lt=0, con=(-1.5, -0.5))
    return {
        "Constant": lambda: M.ConstantParameter(p.raw("A")),
        "ShearModulus": lambda: M.ShearModulusScaling(p.raw("A"), mu()),
        "ShearModulusExp": lambda: M.ShearModulusScalingExp(p.raw("A"), mu()),
        "MTS": lambda: M.MTSScaling(p.raw("tau0"), p.raw("g0", pos=True), p.raw("q", pos=True), p.raw("p", pos=True),
                                    k["k"], k["b"], mu()),
        "KMRateSensitivity": lambda: M.KMRateSensitivityScaling(p.raw("A", **neg), mu(), k["b"], k["k"]),
        "KMViscosity": lambda: M.KMViscosityScaling(p.raw("A", **neg), p.raw("B"), mu(), h.real("eps0", (), pos=True), k["b"], k["k"]),
        "Polynomial": lambda: M.PolynomialScaling(p.raw("coefs", (3,))),
        "Arrhenius": lambda: M.ArrheniusScaling(p.raw("A"), p.raw("Q")),
        "InverseArrhenius": lambda: M.InverseArrheniusScaling(p.raw("A"), p.raw("Q")),
    }[model]


@contract(P, "temperature-dependent parameters are reached by autograd", [dict(model=m) for m in (
    "Constant", "ShearModulus", "ShearModulusExp", "MTS", "KMRateSensitivity", "KMViscosity", "Polynomial",
    "Arrhenius", "InverseArrhenius", "Piecewise")], samples=10)
def c_graph_parameters(h, model):
    b = h.batch(1)
    p = Leaves(h)
    if model == "Piecewise":
        x = h.increasing("control", h.dim("npoints", 2, 5))
        T, j, x0, x1 = h.in_interval("temp", b, x)
        build = lambda: p.temperature.PiecewiseScaling(x, p.raw("values", x.shape))
    else:
        T = h.real("T", b, pos=True, con=(0.5, 1.0))
        build = parameter_leaves(h, p, model)
    m = build()
    h.gradient("gradient of the value", lambda: m(T), p.all)
    registered(h, m, p)


def registered(h, m, p):
    mine = list(m.parameters())
    h.holds("every parameter belongs to the module", all(any(x is q for q in mine) for x in p.all))


def constitutive(h, p, n):
    H, F, D, M = (h.mod("pyoptmat." + x) for x in ("hardening", "flowrules", "damage", "models"))

    def flow(tag=""):
        return F.IsoKinViscoplasticity(
            p(tag + "n", gt=1, con=(2.0, 4.0)), p(tag + "eta"), p(tag + "s0"), H.VoceIsotropicHardeningModel(p(tag + "R"), p(tag + "d")),
            H.FAKinematicHardeningModel(p(tag + "C"), p(tag + "g")))

    def kin(cls, tag="", rec=False):
        v = [p(tag + "C", (n,)), p(tag + "g", (n,))] + ([p(tag + "b", (n,)), p(tag + "r", (n,))] if rec else [])
        return cls(*v)

    def km(cls, *a):
        c = {k: h.real(k, (), pos=True, con=(0.5, 1.5)) for k in ("mu", "burgers", "eps0", "kb", "g0")}
        return cls(flow("a"), flow("b"), c["g0"],
                   p.temperature.ConstantParameter(c["mu"]), c["burgers"], c["eps0"], c["kb"], *a)
    E = lambda: p("E")
    return {
        "Voce": (lambda: H.VoceIsotropicHardeningModel(p("R"), p("d")), 1),
        "Theta0Voce": (lambda: H.Theta0VoceIsotropicHardeningModel(p("tau"), p("theta")), 1),
        "Theta0RecoveryVoce": (lambda: H.Theta0RecoveryVoceIsotropicHardeningModel(*(p(x) for x in ("tau", "theta", "R0", "r1", "r2"))), 1),
        "FA": (lambda: H.FAKinematicHardeningModel(p("C"), p("g"), b=p("b"), r=p("r")), 1),
        "FANoRecovery": (lambda: H.FAKinematicHardeningModelNoRecovery(p("C"), p("g")), 1),
        "Chaboche": (lambda: kin(H.ChabocheHardeningModel), n),
        "ChabocheRecovery": (lambda: kin(H.ChabocheHardeningModelRecovery, rec=True), n),
        "SuperimposedKinematic": (lambda: H.SuperimposedKinematicHardening(
            [kin(H.ChabocheHardeningModel, "x"), H.FAKinematicHardeningModel(p("C"), p("g"))]), n + 1),
        "Perfect": (lambda: F.PerfectViscoplasticity(p("n", gt=1, con=(2.0, 4.0)), p("eta")), 0),
        "IsoKin": (flow, 2),
        "SuperimposedFlow": (lambda: F.SuperimposedFlowRule([flow("a"), flow("b")]), 4),
        "RateIndependent": (lambda: F.RateIndependentFlowRuleWrapper(flow(), 0.5, 0.3), 2),
        "KocksMecking": (lambda: km(F.KocksMeckingRegimeFlowRule), 2),
        "SoftKocksMecking": (lambda: km(F.SoftKocksMeckingRegimeFlowRule, h.real("sf", (), pos=True)), 2),
        "ConstantDamage": (lambda: D.ConstantDamage(p("R")), 0),
        "HayhurstLeckie": (lambda: D.HayhurstLeckie(p("A"), p("xi"), p("phi")), 0),
        "LarsonMiller": (lambda: D.LarsonMillerDamage(p("C"), p("A"), p("B")), 0),
        "Inelastic": (lambda: M.InelasticModel(E(), flow()), 3),
        "Damaged": (lambda: M.DamagedInelasticModel(E(), flow(), dmodel=D.HayhurstLeckie(p("A"), p("xi"), p("phi"))), 4),
    }


HARDENING = ("Voce", "Theta0Voce", "Theta0RecoveryVoce", "FA", "FANoRecovery", "Chaboche", "ChabocheRecovery", "SuperimposedKinematic")
FLOWS = ("Perfect", "IsoKin", "SuperimposedFlow", "RateIndependent", "KocksMecking", "SoftKocksMecking")
DAMAGES = ("ConstantDamage", "HayhurstLeckie", "LarsonMiller")
MODELS = ("Inelastic", "Damaged")


@contract(P, "the parameters of the models are reached by autograd", [dict(model=m) for m in HARDENING + FLOWS + DAMAGES + MODELS], samples=10)
def c_graph_models(h, model):
    b = h.batch(1)
    n = h.dim("nback", 1, 3)
    p = Leaves(h)
    build, nh = constitutive(h, p, n)[model]
    m = build()
    s, ep, t, e = (h.real(x, b, pos=True, con=(0.5, 1.5)) for x in ("s", "ep", "t", "e"))
    T = h.real("T", b, pos=True, con=(0.5, 1.0))
    if model in DAMAGES:
        d = h.real("damage", b, gt=0, lt=1, con=(0.1, 0.5))
        h.gradient("gradient of the damage rate", lambda: m.damage_rate(s, d, t, T, e)[0], p.all)
    elif model in MODELS:
        y = h.torch.cat([s[:, None], h.real("h", b + (2,), pos=True, con=(0.1, 0.4))] + (
            [h.real("damage", b + (1,), gt=0, lt=1, con=(0.1, 0.5))] if model == "Damaged" else []), -1)
        h.gradient("gradient of the rates", lambda: m(t, y, e, T)[0], p.all)
    else:
        hh = h.real("h", b + (nh,), pos=True, con=(0.1, 0.4))
        if model in HARDENING:
            h.gradient("gradient of value and rates", lambda: (m.value(hh), m.history_rate(s, hh, t, ep, T, e)), p.all)
        else:
            h.gradient("gradient of the rates", lambda: (m.flow_rate(s, hh, t, T, e)[0], m.history_rate(s, hh, t, T, e)[0]), p.all)
    registered(h, m, p)


@contract(P, "the parameters of a driven model are reached by autograd", [dict(kind=k) for k in ("strain", "both")], samples=5)
def c_graph_control(h, kind):
    """The module handed to the integrator holds the parameters of the material model."""
    b = h.batch(1)
    p = Leaves(h)
    M = h.mod("pyoptmat.models")
    m = constitutive(h, p, 1)["Inelastic"][0]()
    f = lambda x: (lambda t: x)
    r, v, T = h.real("rate", b, pos=True), h.real("base", b, pos=True), h.real("temp", b, pos=True)
    if kind == "strain":
        w = M.StrainBasedModel(m, f(r), f(T))
        y = h.real("y", b + (3,), pos=True, con=(0.2, 1.0))
        t = h.real("t", b)
        h.gradient("gradient of the rates", lambda: w(t, y)[0], p.all)
    else:
        w = M.BothBasedModel(m, f(r), f(v), f(T), h.ints("control", b, 0, 1))
    registered(h, w, p)
    registered(h, M.StressBasedModel(m, f(r), f(v), f(T)), p)
