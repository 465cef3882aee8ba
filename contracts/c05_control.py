"""C05: stress control inverts the model; mixed control routes each sample.

newton_raphson is replaced by its contract (it returns x with R(x)=0; C11 covers what it does on
convergence), after checking that the Jacobian it is given is the exact derivative of the residual."""
from pvc.engine import contract

P = "C05"


class Model:
    """Any material model: f(t, y, erate, T) with exact derivatives (C04)."""

    def __init__(self, h, n, b):
        self.h, self.n, self.b = h, n, b

    @property
    def nhist(self):
        return self.n

    def __call__(self, t, y, erate, T):
        return self.forward(t, y, erate, T)

    def forward(self, t, y, erate, T):
        h, n, b = self.h, self.n, self.b
        a = dict(scalars=[y[..., 0], t, erate, T], vectors=[y[..., 1:]])
        ax = dict(a, out=(n - 1,))
        f0, f0s, f0e = h.fn("f0", b, **a), h.dfn("f0", b, **a, wrt=("a", 0)), h.dfn("f0", b, **a, wrt=("a", 2))
        if not h.sym:     # make the equation solvable for the sampled functions
            f0, f0e = f0 + 12.0 * erate, f0e + 12.0
        f0h = h.dfn("f0", b, **a, wrt=("v", 0))
        r = h.torch.cat([f0[..., None], h.fn("fh", b, **ax)], -1)
        row0 = h.torch.cat([f0s[..., None, None], f0h[..., None, :]], -1)
        row1 = h.torch.cat([h.dfn("fh", b, **ax, wrt=("a", 0))[..., None], h.dfn("fh", b, **ax, wrt=("v", 0))], -1)
        Je = h.torch.cat([f0e[..., None], h.dfn("fh", b, **ax, wrt=("a", 2))], -1)
        return r, h.torch.cat([row0, row1], -2), Je, h.torch.zeros_like(y)


def setup(h, rank):
    class S:
        pass
    S.b = h.batch(rank)
    S.rank = rank
    S.n = h.dim("n", 1 if rank == 1 else 2, 4)
    S.y = h.real("y", S.b + (S.n,))
    S.t = h.real("t", S.b)
    S.model = Model(h, S.n, S.b)
    S.rate = lambda t: h.fn("rate_fn", S.b, [t])
    S.base = lambda t: h.fn("base_fn", S.b, [t])
    S.T = lambda t: h.fn("T_fn", S.b, [t])
    S.roots = []

    def newton(RJ, x0, **k):
        x, j = h.root("newton", lambda x: RJ(x)[0], lambda x: RJ(x)[1], x0)
        b = tuple(h.ctx.new_var("b", d) for d in x0.dims[:-1])
        if not h.warming:
            S.roots.append(x)
        return x, j
    h.stub("pyoptmat.solvers", "newton_raphson", newton)
    h.stub("pyoptmat.solvers", "newton_raphson_bt", newton)
    if not h.sym:
        h.tol = 2e-5
    return S


def at_prescribed(h, S, e):
    """The model evaluated at the prescribed stress and strain rate e."""
    yp = h.torch.cat([S.base(S.t)[..., None], S.y[..., 1:]], -1)
    r, J, Je, _ = S.model(S.t, yp, e, S.T(S.t))
    return r, J, Je


def stress_spec(h, S, res, J, sel, nm=""):
    """sel: restricts obligations to the samples concerned."""
    r, Jb, Je = at_prescribed(h, S, res[..., 0])
    h.eq(nm + "the model produces the prescribed stress rate", sel(r[..., 0]), sel(S.rate(S.t)))
    h.eq(nm + "the other rates are the model's", sel(res[..., 1:]), sel(r[..., 1:]))
    if h.sym:
        h.require(Je[..., 0] != 0)
    de = -Jb[..., 0, 1:] / Je[..., :1]        # d strain rate / d history, by the implicit function theorem
    h.eq(nm + "Jacobian: no dependence on the strain", sel(J[..., :, 0]), sel(h.torch.zeros_like(J[..., :, 0])))
    h.eq(nm + "Jacobian: strain rate row", sel(J[..., 0, 1:]), sel(de))
    h.eq(nm + "Jacobian: history rows", sel(J[..., 1:, 1:]), sel(Jb[..., 1:, 1:] + Je[..., 1:, None] * de[..., None, :]))


@contract(P, "StrainBasedModel", [dict(rank=1), dict(rank=2)])
def strain(h, rank):
    S = setup(h, rank)
    m = h.mod("pyoptmat.models").StrainBasedModel(S.model, S.rate, S.T)
    out = m(S.t, S.y)
    h.holds("returns rate and Jacobian", len(out) == 2)
    r, J, _, _ = S.model(S.t, S.y, S.rate(S.t), S.T(S.t))
    h.eq("rates are the model's at the prescribed strain rate", out[0], r)
    h.eq("Jacobian is the model's", out[1], J)


@contract(P, "StressBasedModel", [dict(rank=1), dict(rank=2)])
def stress(h, rank):
    S = setup(h, rank)
    m = h.mod("pyoptmat.models").StressBasedModel(S.model, S.rate, S.base, S.T)
    res, J = m(S.t, S.y)
    h.shape("rates", res, S.b + (S.n,))
    h.shape("Jacobian", J, S.b + (S.n, S.n))
    stress_spec(h, S, res, J, lambda x: x)
    if h.sym and len(S.roots) == 1:
        h.jac("Jacobian is the derivative of the returned rates", J, res, S.y, rank, S.roots[0].chain)


@contract(P, "BothBasedModel", [dict(rank=1), dict(rank=2)])
def both(h, rank):
    S = setup(h, rank)
    ctl = h.ints("control", S.b[-1:], 0, 1)
    m = h.mod("pyoptmat.models").BothBasedModel(S.model, S.rate, S.base, S.T, ctl)
    res, J = m(S.t, S.y)
    h.shape("rates", res, S.b + (S.n,))
    h.shape("Jacobian", J, S.b + (S.n, S.n))

    def pick(v):
        def f(x):
            c = ctl
            for _ in range(len(x.shape) - len(S.b)):
                c = c[..., None]
            return h.torch.where(c == v, x, h.torch.zeros_like(x))
        return f
    r, Jm, _, _ = S.model(S.t, S.y, S.rate(S.t), S.T(S.t))
    h.eq("strain-controlled samples: rates", pick(0)(res), pick(0)(r))
    h.eq("strain-controlled samples: Jacobian", pick(0)(J), pick(0)(Jm))
    stress_spec(h, S, res, J, pick(1), "stress-controlled samples: ")
