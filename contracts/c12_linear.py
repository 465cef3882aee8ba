"""C12: linear solves satisfy their residual contract sample by sample.

Right-hand sides of exact solves are written as A X with X arbitrary (A nonsingular: this covers all of them).
The iterative solver is proved to check the true residual of every sample before it stops early, whatever the
preconditioner and the least-squares routine return; that the iteration limit suffices (at least n + 1
iterations) is a statement about Krylov spaces and is checked by sampling (bounded)."""
from pvc.engine import contract

P = "C12"
SM = "pyoptmat.solvers"


def matrix(h, b, n, name="A"):
    A = h.real(name, (b, n, n), con=(-1, 1))
    if not h.sym:
        A += (1.0 + n) * h.torch.eye(n) * (1 if h.split(h.rng.random() < 0.7) else -1)
        h.inputs[-1] = (name, A, A.clone())
    return A


def mv(A, x):
    return (A * x.unsqueeze(-2)).sum(-1)


@contract(P, "lu_linear_solve", samples=30)
def c_lu(h):
    M = h.mod(SM)
    b, n = h.dim("nb", 1, 5), h.dim("n", 1, 5)
    A, X = matrix(h, b, n), h.real("X", (b, n))
    r = mv(A, X).clone()
    r0 = r.clone()
    h.eq("exact solution", M.lu_linear_solve(A, r), X)
    h.eq("right-hand side unchanged", r, r0)


@contract(P, "jacobi_iteration_linear_solve", samples=30)
def c_jacobi(h):
    """The exact solution for diagonal matrices (and for single equations)."""
    M = h.mod(SM)
    T = h.torch
    b, n = h.dim("nb", 1, 5), h.dim("n", 1, 5)
    d = h.real("d", (b, n), con=(0.5, 2.0), nonzero=True)
    off = T.arange(n)[:, None] != T.arange(n)
    A = T.where(off, 0.0, d.unsqueeze(-1) + T.zeros((b, n, n)))
    X = h.real("X", (b, n))
    h.eq("exact solution", M.jacobi_iteration_linear_solve(A, mv(A, X)), X)
    # in general one iteration: every row solved with the others ignored
    G = matrix(h, b, n, "G")
    r = h.real("r", (b, n))
    dG = T.diagonal(G, dim1=-2, dim2=-1)
    if h.sym:
        i, j = h.idx("i", b), h.idx("j", n)
        h.require(dG[i, j] != 0)
        h.eq("one iteration", (M.jacobi_iteration_linear_solve(G, r) * dG)[i, j], r[i, j])
    else:
        h.eq("one iteration", M.jacobi_iteration_linear_solve(G, r) * dG, r)


@contract(P, "preconditioners", samples=30)
def c_preconditioners(h):
    M = h.mod(SM)
    T = h.torch
    b, n = h.dim("nb", 1, 5), h.dim("n", 1, 5)
    A, X = matrix(h, b, n), h.real("X", (b, n))
    h.eq("no preconditioner", M.NoOp().dot(X), X)
    op = M.LUPreconitionerOperator(A)
    h.eq("LU: the inverse", op.dot(mv(A, X)), X)
    h.eq("LU: again", op.dot(mv(A, X)), X)
    d = h.real("d", (b, n), con=(0.5, 2.0), nonzero=True)
    off = T.arange(n)[:, None] != T.arange(n)
    D = T.where(off, A, d.unsqueeze(-1) + T.zeros((b, n, n)))
    h.eq("Jacobi: the inverse of the diagonal", M.JacobiPreconitionerOperator(D).dot(X) * d, X)


def wellknown(h, b, n):
    """Batch with everything in it: zero right-hand sides, solved samples, identity matrices, ordinary ones."""
    T = h.torch
    A = matrix(h, b, n)
    X, x0 = h.real("X", (b, n)), h.real("x0", (b, n))
    for i in range(b):
        k = h.rng.randrange(6)
        if k == 1:
            X[i] = 0
            x0[i] = 0
        elif k == 2:
            x0[i] = X[i]
        elif k == 3:
            A[i] = T.eye(n)
        elif k == 4:
            X[i] = 0
        elif k == 5:
            X[i] *= 1e-6
    h.inputs[-3:] = [("A", A, A.clone()), ("X", X, X.clone()), ("x0", x0, x0.clone())]
    return A, X, x0


@contract(P, "gmres", [dict(x0=x) for x in (False, True)], samples=60)
def c_gmres(h, x0):
    """Stopping before the iteration limit means every sample's true residual is below the tolerance; nothing the
    caller owns is modified."""
    M = h.mod(SM)
    T = h.torch
    b, n = h.dim("nb", 1, 5), h.dim("n", 1, 6)
    if h.sym:
        A, r = h.real("A", (b, n, n)), h.real("b", (b, n))
        s = h.real("x0", (b, n)) if x0 else None
    else:
        A, X, s = wellknown(h, b, n)
        r = mv(A, X)
        s = s if x0 else None
    tol = h.flt("tol", pos=True, con=(1e-10, 1e-6))
    maxiter, check = h.dim("maxiter", 1, 12), h.dim("check", 1, 6)

    class Any:
        """Any preconditioner."""
        def dot(self, x):
            return h.arbitrary(x.shape, "dot") if h.sym else 0.5 * x
    if h.sym:
        def havoc(L, k):
            for v in ("V", "Z", "H"):
                h.havoc(L[v], v)
            return dict(x=h.arbitrary(r.shape, "x"), k=k - 1)

        def sames(L, k):
            h.shape("iterate", L["x"], r.shape)
        def start(L, k):
            sames(L, k)
            h.defined("first basis vector, solved samples included", L["V"][..., 0])
            h.defined("norms of the initial residuals", L["e1"][:, 0])
        h.loop(SM, "gmres", 0, init=start, havoc=havoc, check=sames, managed=lambda L: [L["V"], L["Z"], L["H"]])

        def ihavoc(L, j):
            h.havoc(L["H"], "H")
            return dict(w=h.arbitrary(r.shape, "w"))
        h.loop(SM, "gmres", 1, init=lambda L, j: h.shape("basis vector", L["w"], r.shape), havoc=ihavoc,
               check=lambda L, j: h.shape("basis vector", L["w"], r.shape), managed=lambda L: [L["H"]])
    r0 = r.clone()
    x, k = M.gmres(A, r, x0=s, M=Any(), tol=tol, maxiter=maxiter, check=check, return_iters=True)
    h.shape("solution", x, (b, n))
    h.eq("right-hand side unchanged", r, r0)
    h.holds("iteration count in range", (k >= 0) & (k < maxiter))
    if h.split(k < maxiter - 1):
        res = r - mv(A, x)
        h.holds("residual of every sample below the tolerance", (T.sqrt((res * res).sum(-1)) < tol * (1 if h.sym else 1.01)
                                                                 + (0 if h.sym else 1e-14)).all())


@contract(P, "gmres converges within n + 1 iterations", [dict(f=f, x0=x) for f in ("gmres", "lu_gmres", "jacobi_gmres")
                                                       for x in (False, True)], samples=40, sym=False,
          expect="termination of Krylov iterations is outside the contracts; sampled")
def c_converges(h, f, x0):
    M = h.mod(SM)
    b, n = h.dim("nb", 1, 5), h.dim("n", 1, 6)
    A, X, s = wellknown(h, b, n)
    r = mv(A, X)
    kw = {} if h.rng.random() < 0.5 or f == "lu_gmres" else {"check": h.dim("check", 1, 6)}
    kw.update({} if h.rng.random() < 0.5 else {"maxiter": n + 1 + h.dim("more", 0, 5)})
    x = getattr(M, f)(A, r, **({"x0": s} if x0 else {}), **kw)
    h.within("residual of every sample", r - mv(A, x), -1e-10, 1e-10)
    h.within("solution of every sample", x - X, -1e-8, 1e-8)


@contract(P, "lu_gmres, jacobi_gmres", [dict(f=f) for f in ("lu_gmres", "jacobi_gmres")], samples=10)
def c_wrappers(h, f):
    """The wrappers only add a preconditioner made from the same matrix."""
    M = h.mod(SM)
    b, n = h.dim("nb", 1, 5), h.dim("n", 1, 5)
    A, X = matrix(h, b, n), h.real("X", (b, n))
    s = h.real("x0", (b, n))
    r = mv(A, X)
    got = {}

    def gmres(A_, b_, x0=None, M=None, tol=1e-10, maxiter=100, check=5, return_iters=False, eps=1e-15):
        got.update(A=A_, b=b_, x0=x0, M=M, tol=tol, maxiter=maxiter, ri=return_iters)
        return "the answer"
    h.stub(SM, "gmres", gmres)
    out = getattr(M, f)(A, r, x0=s, tol=1e-7, maxiter=17)
    if h.sym:
        h.holds("the answer of the iteration", out == "the answer")
        h.holds("options passed on", got["tol"] == 1e-7 and got["maxiter"] == 17 and got["x0"] is s and not got["ri"])
        h.eq("same matrix", got["A"], A)
        h.eq("same right-hand side", got["b"], r)
        P_ = got["M"]
        if f == "lu_gmres":
            h.eq("preconditioner", P_.dot(r), X)
        else:
            i, j = h.idx("i", b), h.idx("j", n)
            d = h.torch.diagonal(A, dim1=-2, dim2=-1)
            h.require(d[i, j] != 0)
            h.eq("preconditioner", (P_.dot(X) * d)[i, j], X[i, j])
    else:
        h.within("solution of every sample", out - X, -1e-6, 1e-6)
