"""C11: a Newton solve that returns quietly has converged.

Loop contract of every Newton loop: at the loop head R, J and the residual norms are those of the
current iterate, whatever the linear solver returned; the loop is left either converged or with the
iteration count exhausted (then the user is told)."""
from pvc.engine import contract

SM = "pyoptmat.solvers"
CM = "pyoptmat.chunktime"


def problem(h, n=None):
    b, = h.batch(1)
    n = n if n is not None else h.dim("n", 2, 4)
    x0 = h.real("x0", (b, n))
    h.noframe.add("x0")        # documented to be the starting point; it is overwritten
    T = h.torch

    def fn(x):
        R = 3.0 * x + h.fn("res", (b,), vectors=[x], out=(n,))
        J = 3.0 * T.eye(n) + h.dfn("res", (b,), vectors=[x], out=(n,), wrt=("v", 0))
        return R, J
    return b, n, x0, fn


def options(h):
    atol = h.flt("atol", pos=True, con=(1e-10, 1e-3))
    rtol = h.flt("rtol", pos=True, con=(1e-10, 1e-3))
    miter = h.dim("miter", 1, 12, choices=None if h.sym else (1, 2, 3, 5, 12, 12))
    return atol, rtol, miter


def norm(h, R):
    return h.torch.sqrt((R * R).sum(-1))


def converged(h, R, nR0, atol, rtol):
    """Every sample within the absolute tolerance, or every sample within the relative one."""
    T = h.torch
    nR = norm(h, R)
    tol = 1.0 if h.sym else 1 + 1e-12
    a = (nR <= atol * tol).all()
    r = (nR <= rtol * nR0 * tol).all()
    h.holds("quiet return means converged", T.logical_or(a, r))


def newton_spec(h, mod, qual, fn, miter, x0, **k):
    """Residual, Jacobian and norm belong to the current point."""
    def at(x):
        R, J = fn(x)
        return dict(R=R, J=J, nR=norm(h, R))

    def inv(L, _):
        want = at(L["x"])
        h.eq("R is the residual at x", L["R"], want["R"])
        if "J" in L:
            h.eq("J is the Jacobian at x", L["J"], want["J"])
        h.eq("nR is the norm of the residual at x", L["nR"], want["nR"])

    def havoc(L, _):
        h.havoc(L["x"], "x")
        return dict(x=L["x"], **at(L["x"]))
    h.loop(mod, qual, 0, init=inv, havoc=havoc, check=inv, managed=lambda L: [L["x"]], counter=miter,
           roles=dict(x=lambda L: x0, R=lambda L: fn(L["x"])[0], J=lambda L: fn(L["x"])[1],
                      nR=lambda L: norm(h, fn(L["x"])[0])), **k)


@contract("C11", "newton_raphson", configs=({"n": None, "lin": "lu"}, {"n": None, "lin": "diag"}, {"n": 1, "lin": "lu"}),
          samples=30)
def c_newton(h, n, lin):
    M = h.mod(SM)
    b, n, x0, fn = problem(h, n)
    atol, rtol, miter = options(h)
    newton_spec(h, SM, "newton_raphson", fn, miter, x0)
    h.stub(SM, "lu_linear_solve", lambda A, r, **k: h.arbitrary(r.shape, "dx"))
    nR0 = norm(h, fn(x0)[0]).clone()
    h.require(nR0 > 0)
    r, told = h.attempt(lambda: M.newton_raphson(fn, x0, linsolver=lin, rtol=rtol, atol=atol, miter=miter))
    if told is not None:
        return h.ok("the user is told")
    x, J = r
    h.eq("returned Jacobian belongs to the returned point", J, fn(x)[1])
    converged(h, fn(x)[0], nR0, atol, rtol)


def backtracking_spec(h):
    h.loop(SM, "newton_raphson_bt", 1, init=lambda L, _: None, havoc=lambda L, _: {"alpha": h.havoc(L["alpha"], "alpha") and L["alpha"]},
           check=lambda L, _: None, managed=lambda L: [L["alpha"]], counter=10)


@contract("C11", "newton_raphson_bt", configs=({"n": None}, {"n": 1}), samples=30)
def c_newton_bt(h, n):
    M = h.mod(SM)
    b, n, x0, fn = problem(h, n)
    atol, rtol, miter = options(h)
    newton_spec(h, SM, "newton_raphson_bt", fn, miter, x0)
    backtracking_spec(h)
    h.stub(SM, "lu_linear_solve", lambda A, r, **k: h.arbitrary(r.shape, "dx"))
    nR0 = norm(h, fn(x0)[0]).clone()
    h.require(nR0 > 0)
    r, told = h.attempt(lambda: M.newton_raphson_bt(fn, x0, rtol=rtol, atol=atol, miter=miter))
    if told is not None:
        return h.ok("the user is told")
    x, J = r
    h.eq("returned Jacobian belongs to the returned point", J, fn(x)[1])
    converged(h, fn(x)[0], nR0, atol, rtol)


@contract("C11", "newton_raphson_chunk", configs=({"throw": False}, {"throw": True}), samples=30)
def c_chunk(h, throw):
    M = h.mod(CM)
    b, n, x0, fn = problem(h)
    atol, rtol, miter = options(h)
    newton_spec(h, CM, "newton_raphson_chunk", fn, miter, x0)

    class Solver:
        def solve(self, J, R):
            if h.sym:
                return h.arbitrary(R.shape, "dx")
            return h.torch.linalg.solve(J, R)
    nR0 = norm(h, fn(x0)[0]).clone()
    h.require(nR0 > 0)
    x, told = h.attempt(lambda: M.newton_raphson_chunk(fn, x0, Solver(), rtol=rtol, atol=atol, miter=miter,
                                                       throw_on_fail=throw))
    if told is not None:
        h.holds("an exception exactly when requested", (told != "warned") == throw)
        return
    converged(h, fn(x)[0], nR0, atol, rtol)


@contract("C11", "PreconditionerReuseNonlinearSolver.solve", samples=20)
def c_reuse(h):
    M = h.mod(SM)
    b, n, x0, fn = problem(h)
    atol, rtol, miter = options(h)
    Q = "PreconditionerReuseNonlinearSolver.solve"

    newton_spec(h, SM, Q, fn, miter, x0, attrs=[("self", "stored_preconditioner")])
    h.stub(SM, "gmres", lambda A, r, **k: (h.arbitrary(r.shape, "dx"), h.int("niter", 0)))
    nR0 = norm(h, fn(x0)[0]).clone()
    h.require(nR0 > 0)
    s = M.PreconditionerReuseNonlinearSolver()
    r, told = h.attempt(lambda: s.solve(fn, x0, rtol=rtol, atol=atol, miter=miter))
    if told is not None:
        return h.ok("the user is told")
    x, J = r
    h.eq("returned Jacobian belongs to the returned point", J, fn(x)[1])
    converged(h, fn(x)[0], nR0, atol, rtol)


@contract("C11", "a residual that is not a number is reported", samples=12,
          configs=tuple({"which": w, "n": n} for w in ("nr", "bt", "chunk", "reuse") for n in (None, 1)))
def c_nan(h, which, n):
    """Any component of the residual may be NaN at any iterate, in any sample."""
    T = h.torch
    b, n, x0, fn0 = problem(h, n)
    S, C = h.mod(SM), h.mod(CM)
    if h.sym:
        def fn(x):
            R, J = fn0(x)
            return h.nanable(R, h.fn("bad", (b,), vectors=[x], out=(n,)) > 0), J
        for f in ("lu_linear_solve", "jacobi_iteration_linear_solve"):
            h.stub(SM, f, lambda A, r, **k: h.arbitrary(r.shape, "dx"))
        h.stub(SM, "gmres", lambda A, r, **k: (h.arbitrary(r.shape, "dx"), h.int("niter", 0)))
    else:
        bad = h.mask("bad", (b,))
        late = h.split(h.rng.random() < 0.5)
        calls = [0]

        def fn(x):
            R, J = fn0(x)
            calls[0] += 1
            if calls[0] > late:
                R = h.nanable(R, bad[:, None].expand(R.shape))
            return R, J

    class Solver:
        def solve(self, J, R):
            return h.arbitrary(R.shape, "dx") if h.sym else T.linalg.solve(J, R)
    atol, rtol, miter = options(h)
    for m, q, k in ((SM, "newton_raphson", {}), (SM, "newton_raphson_bt", {}), (CM, "newton_raphson_chunk", {}),
                    (SM, "PreconditionerReuseNonlinearSolver.solve", dict(attrs=[("self", "stored_preconditioner")]))):
        newton_spec(h, m, q, fn, miter, x0, **k)
    backtracking_spec(h)
    o = dict(rtol=rtol, atol=atol, miter=miter)
    f = {"nr": lambda: S.newton_raphson(fn, x0, **o)[0], "bt": lambda: S.newton_raphson_bt(fn, x0, **o)[0],
         "chunk": lambda: C.newton_raphson_chunk(fn, x0, Solver(), **o),
         "reuse": lambda: S.PreconditionerReuseNonlinearSolver().solve(fn, x0, **o)[0]}[which]
    x, told = h.attempt(f)
    if told is None:
        h.holds("quiet return means the residual is a number", T.logical_not(T.isnan(norm(h, fn(x)[0]))))
