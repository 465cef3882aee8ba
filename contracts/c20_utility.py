"""C20: utility operators and the neural-ODE wrapper."""
from pvc.engine import contract

P = "C20"
UM = "pyoptmat.utility"
RANKS = [dict(rank=1), dict(rank=2)]


@contract(P, "heaviside and macaulay", [dict(rank=0), dict(rank=1), dict(rank=2)])
def brackets(h, rank):
    U, T = h.mod(UM), h.torch
    x = h.real("x", h.batch(rank), zeros=True)
    one, zero = T.ones_like(x), T.zeros_like(x)
    h.eq("Heaviside step", U.heaviside(x), T.where(x > 0, one, T.where(x < 0, zero, 0.5 * one)))
    h.eq("Macaulay bracket", U.macaulay(x), T.where(x > 0, x, zero))


@contract(P, "mbmm", [dict(rank=r) for r in (0, 1, 2)])
def mbmm(h, rank):
    b = h.batch(rank)
    n, k, m = h.dim("n", 1, 3), h.dim("k", 1, 3), h.dim("m", 1, 3)
    A, B = h.real("A", b + (n, k)), h.real("B", b + (k, m))
    h.eq("batched matrix product", h.mod(UM).mbmm(A, B), (A[..., :, :, None] * B[..., None, :, :]).sum(-2))


@contract(P, "mbmm broadcasts over the batch")
def mbmmb(h):
    (b,) = h.batch(1)
    n, k, m = h.dim("n", 1, 3), h.dim("k", 1, 3), h.dim("m", 1, 3)
    A, B = h.real("A", (n, k)), h.real("B", (b, k, m))
    h.eq("batched matrix product", h.mod(UM).mbmm(A, B), (A[..., :, :, None] * B[..., None, :, :]).sum(-2))


@contract(P, "add_id")
def addid(h):
    (b,) = h.batch(1)
    n = h.dim("n", 1, 4)
    A = h.real("A", (b, n, n))
    h.eq("adds the identity", h.mod(UM).add_id(A), A + h.torch.eye(n).expand(b, n, n))


# ------------------------------------------------------------------ numerical differentiation
def affine(h, b, so, si):
    """f(x) = A x + c per sample; so/si: output/input are vectors."""
    m, n = (h.dim("m", 1, 3),) if so else (), (h.dim("n", 1, 4),) if si else ()
    A, c = h.real("A", b + m + n), h.real("c", b + m)
    x = h.real("x", b + n, zeros=True)

    def f(y):
        if not si:
            return A * (y[..., None] if so else y) + c
        return (A * (y[..., None, :] if so else y)).sum(-1) + c
    return A, x, f, n


def diff_loop(h, fn, A, n, batch, so, squeeze):
    """Columns already computed hold the derivative."""
    def cols(d, k):
        return d[..., :k]

    W = A if so or squeeze else A[..., None, :]

    def want(L, k):
        return W[..., :k]

    def havoc(L, k):
        d = L["d"]
        Y = h.arbitrary(d.shape, "cols")
        T_ = h.tm
        kt, g, old, w = h.term(k), Y.snap(), d.snap(), W.snap()
        d.st.set(lambda i: T_.rite(T_.ilt(i[-1], kt), w(i), g(i)))
        return {"d": d}

    def check(L, k):
        h.eq("columns computed so far are exact", cols(L["d"], k), want(L, k))
    h.loop(UM, fn, 0, init=lambda L, k: h.holds("starts with the first column", k == 0), havoc=havoc, check=check,
           managed=lambda L: [L["d"]], roles=dict(d=lambda L: h.like(*W.shape)), index=(0, 1, n))


DIFFS = [dict(so=a, si=b) for a in (False, True) for b in (False, True)]


@contract(P, "batch_differentiate", [dict(d, rank=r) for d in DIFFS for r in (1, 2)])
def bdiff(h, so, si, rank):
    b = h.batch(rank)
    A, x, f, n = affine(h, b, so, si)
    eps = h.flt("eps", pos=True, con=(1e-5, 1e-3))
    if si and h.sym:
        diff_loop(h, "batch_differentiate", A, n, b, so, False)
    d = h.mod(UM).batch_differentiate(f, x, eps=eps, nbatch_dim=rank)
    h.eq("exact for affine functions", d, A)


@contract(P, "new_differentiate", DIFFS)
def ndiff(h, so, si):
    b = h.batch(1)
    A, x, f, n = affine(h, b, so, si)
    eps = h.flt("eps", pos=True, con=(1e-5, 1e-3))
    if si and h.sym:
        diff_loop(h, "new_differentiate", A, n, b, so, False)
    d = h.mod(UM).new_differentiate(f, x, eps=eps)
    W = A if so and si else A[:, None, :] if si else A[:, :, None] if so else A[:, None, None]
    h.eq("exact for affine functions", d, W)


@contract(P, "differentiate", DIFFS)
def odiff(h, so, si):
    b = h.batch(1)
    A, x, f, n = affine(h, b, so, si)
    eps = h.flt("eps", pos=True, con=(1e-5, 1e-3))
    if si and h.sym:
        diff_loop(h, "differentiate", A, n, b, so, True)
    h.eq("exact for affine functions", h.mod(UM).differentiate(f, x, eps=eps), A)


# ------------------------------------------------------------------ exact differentiation
def smooth(h, name, m, xs):
    """Any function of the given vectors, sample by sample."""
    def f(*v):
        return h.fn(name, v[0].shape[:-1], vectors=list(v), out=(m,), bidx=False)

    def df(k):
        return h.dfn(name, xs[0].shape[:-1], vectors=list(xs), out=(m,), wrt=("v", k), bidx=False)
    if not h.sym:
        h.fn(name, (), vectors=[x[(0,) * (x.dim() - 1)] for x in xs], out=(m,), bidx=False)
    return f, df


@contract(P, "jacobianize", [dict(rank=r, arg=a) for r in (0, 1, 2) for a in ("all", 0, 1, (1,), (0, 1))])
def jacobianize(h, rank, arg):
    b = h.batch(rank)
    n1, n2, m = h.dim("n1", 1, 3), h.dim("n2", 1, 3), h.dim("m", 1, 3)
    x, y = h.real("x", b + (n1,)), h.real("y", b + (n2,))
    f, df = smooth(h, "f", m, [x, y])
    U = h.mod(UM)
    g = U.jacobianize(argnums=None if arg == "all" else arg)(lambda x, z=None: f(x, y if z is None else z))
    if arg == "all" and rank == 0:         # the decorated function may be called with any number of its arguments
        v, J = g(x)
        h.eq("function value, one argument", v, f(x, y))
        h.holds("one derivative per argument given", len(J) == 1)
        h.eq("derivative wrt the only argument", J[0], df(0))
    v, J = g(x, y)
    h.eq("function value", v, f(x, y))
    if isinstance(arg, int):
        h.eq("derivative", J, df(arg))
    else:
        a = (0, 1) if arg == "all" else arg
        h.holds("one derivative per requested argument", len(J) == len(a))
        for k, j in zip(a, J):
            h.eq(f"derivative wrt argument {k}", j, df(k))


@contract(P, "NeuralODE", RANKS)
def node(h, rank):
    b, T = h.batch(rank), h.torch
    n, k = h.dim("n", 1, 3), h.dim("nforce", 1, 3)
    t, y = h.real("t", b), h.real("y", b + (n,))
    f = h.fn("force", b, [t], out=(k,))
    x = T.cat([y, f], -1)
    net, dnet = smooth(h, "net", n, [x])

    class Net(T.nn.Module):
        def forward(self, x):
            return net(x)

    def force(tt):
        h.eq("forcing evaluated at each sample's time", tt, t)
        return f
    v, J = h.mod("pyoptmat.neuralode").NeuralODE(Net(), force)(t, y)
    h.eq("value of the network", v, net(x))
    h.eq("Jacobian with respect to the state only", J, dnet(0)[..., :n])
