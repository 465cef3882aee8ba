"""C13: integration satisfies the time-stepping equations at every step.

Chain of contracts: form_operators gives residual and operator; RJ (inside block_update) gives the
Newton solver the Euler residual of the block and its exact Jacobian; the block solution satisfies
the Euler equations; the integrate loop (loop contract) writes every row once, from a block that
starts at the previous row."""
from pvc.engine import contract

CM, OM = "pyoptmat.chunktime", "pyoptmat.ode"
SCHEMES = {"be": "BackwardEulerScheme", "fe": "ForwardEulerScheme"}


def model(h, b, p):
    """An arbitrary smooth rate f_b(t, y), and its exact Jacobian (contract C04)."""
    c = h.real("c", (b,))

    def f(t, y):
        n = t.shape[0]
        sc = [t, c.unsqueeze(0).expand(n, b)]
        return (h.fn("f", (n, b), scalars=sc, vectors=[y], out=(p,), bidx=False),
                h.dfn("f", (n, b), scalars=sc, vectors=[y], out=(p,), wrt=("v", 0), bidx=False))
    return f


def euler(h, scheme, f, t, y):
    """Residual of the Euler equations between consecutive rows of (t, y)."""
    yd = f(t, y)[0]
    dt = (t[1:] - t[:-1]).unsqueeze(-1)
    return y[1:] - y[:-1] - (yd[1:] if scheme == "be" else yd[:-1]) * dt


def rows(x, n, b, p):
    """(b, n*p) -> (n, b, p)"""
    return x.reshape(b, n, p).transpose(0, 1)


@contract("C13", "form_operators", configs=({"scheme": "be"}, {"scheme": "fe"}), samples=10,
          internal={OM + f":{s}.form_operators": 6 for s in SCHEMES.values()})
def c_form(h, scheme):
    M = h.mod(OM)
    n, b, p = h.dim("n", 1, 4), h.dim("nb", 1, 3), h.dim("p", 1, 3)
    dy, yd = h.real("dy", (n + 1, b, p)), h.real("yd", (n + 1, b, p))
    yJ, dt = h.real("yJ", (n + 1, b, p, p)), h.real("dt", (n, b))
    sch = getattr(M, SCHEMES[scheme])()
    h.earlier(lambda: sch.form_operators(dy, yd, yJ, dt), dy, yd, yJ, dt)
    R, J = sch.form_operators(dy, yd, yJ, dt)
    s = 1 if scheme == "be" else 0
    h.shape("residual", R, (b, n * p))
    h.eq("residual", rows(R, n, b, p), dy[1:] - dy[:-1] - (yd[1:] if s else yd[:-1]) * dt.unsqueeze(-1))
    I = h.torch.eye(p).expand(n, b, p, p)
    d = dt.unsqueeze(-1).unsqueeze(-1)
    h.eq("diagonal blocks", J.A, I - yJ[1:] * d if s else I)
    h.eq("off-diagonal blocks", J.B, -I[1:] if s else -I[1:] - yJ[1:-1] * d[1:])


def newton_stub(h, M, seen):
    """Contract of newton_raphson_chunk (C11), idealised to an exact root; the caller's residual and
    Jacobian are checked at an arbitrary point."""
    def solve(fn, x0, solver, rtol=1e-6, atol=1e-10, miter=100, throw_on_fail=False):
        b, n, p = seen["b"], x0.shape[1] // seen["p"], seen["p"]
        n = seen.get("n", n)
        h.shape("starting guess", x0, (b, n * p))
        X = h.arbitrary((b, n, p), "X")
        R, J = fn(X.flatten(start_dim=1))
        h.shape("block residual", R, (b, n * p))
        Rr = R.reshape(b, n, p)
        h.operator("block Jacobian", J, Rr, X)
        x0.write(h.arbitrary((b, n, p), "root").flatten(start_dim=1))
        seen["fn"], seen["x"] = fn, x0
        return x0
    h.stub(CM, "newton_raphson_chunk", solve)


@contract("C13", "block_update", configs=({"scheme": "be"}, {"scheme": "fe"}), samples=10,
          internal={OM + ":FixedGridBlockSolver.block_update": 6})
def c_block(h, scheme):
    M = h.mod(OM)
    n, b, p = h.dim("n", 1, 4), h.dim("nb", 1, 3), h.dim("p", 1, 3)
    f = model(h, b, p)
    ys, ts = h.real("y_start", (b, p)), h.real("t_start", (b,))
    t = h.real("t", (n, b)) if h.sym else ts + 0.05 + 0.1 * h.real("t", (n, b), con=(0.2, 1)).cumsum(0)
    guess = h.real("guess", (b, n * p), con=(-0.1, 0.1))
    h.noframe.add("guess")
    seen = {"b": b, "p": p, "n": n}
    newton_stub(h, M, seen)
    s = M.FixedGridBlockSolver(f, ys, scheme=getattr(M, SCHEMES[scheme])(), block_size=n, rtol=1e-13, atol=1e-13,
                               throw_on_fail=True)
    h.earlier(lambda: s.block_update(t, ts, ys, f, guess), t, ts, ys, guess)
    y = s.block_update(t, ts, ys, f, guess)
    h.shape("block solution", y, (n, b, p))
    T = h.torch
    full = T.cat([ys.unsqueeze(0), y])
    tt = T.cat([ts.unsqueeze(0), t])
    E = euler(h, scheme, f, tt, full)
    if h.sym:
        R = seen["fn"](seen["x"])[0]
        h.eq("Euler residual of the block is the residual the Newton solver drives to zero", E, rows(R, n, b, p))
    else:
        h.eq("Euler equations hold in the block", E, T.zeros(E.shape))


def full_check(h, scheme, f, t, y0, y, name="Euler equation holds between all consecutive times"):
    h.eq("starts at the initial condition", y[0], y0)
    E = euler(h, scheme, f, t, y)
    h.eq(name, E, h.torch.zeros(E.shape))


def integrate_loop(h, scheme, f, t, y0, nt, bs, b, p, seen):
    """Contract of the time-marching loop."""
    Y = h.real("Y", (nt, b, p), frame=False)      # the rows already computed
    at = [None]

    def init(L, k):
        h.eq("first row is the initial condition", L["result"][0], y0)
        h.holds("the loop starts after the initial row", k == 1)

    def havoc(L, k):
        g = Y.snap()
        r = L["result"]
        old = r.snap()
        T_ = h.tm
        kt = h.term(k)
        r.st.set(lambda i: T_.rite(T_.ilt(i[0], kt), g(i), old(i)))
        at[0] = k
        h.require(k >= 1)
        h.require((Y[0] == y0))
        h.split(k + bs <= nt)
        return {}

    def check(L, k2):
        r = L["result"]
        k = at[0]
        h.holds("the next block starts where this one ends", (k2 == k + bs))
        h.eq("rows already computed are kept", r[:k], Y[:k])
        n = h.size(r[k:k + bs], 0)
        E = euler(h, scheme, f, t[k - 1:k + bs], r[k - 1:k + bs])
        R = seen["fn"](seen["x"])[0]
        h.eq("Euler residual of the new rows is the residual the Newton solver drives to zero", E, rows(R, n, b, p))
        h.initialised("new rows are written", r[k:k + bs])
    h.loop(OM, "FixedGridBlockSolver.integrate", 0, init=init, havoc=havoc, check=check,
           managed=lambda L: [L["result"]], first=(1, bs), index=[(1, bs, nt), (0, bs, nt - 1)])
    return Y


@contract("C13", "integrate", configs=tuple({"scheme": s, "guess": g, "adj": a} for s in ("be", "fe")
                                             for g in ("zero", "previous") for a in (False, True)), samples=8)
def c_integrate(h, scheme, guess, adj):
    M = h.mod(OM)
    T = h.torch
    nt, bs = h.dim("nt", 1, 7), h.dim("block_size", 1, 4)
    b, p = h.dim("nb", 1, 3), h.dim("p", 1, 3)
    f = model(h, b, p)
    y0 = h.real("y0", (b, p))
    t = h.real("t", (nt, b)) if h.sym else 0.05 * h.real("t", (nt, b), con=(0.2, 1)).cumsum(0)
    seen = {"b": b, "p": p}
    newton_stub(h, M, seen)
    s = M.FixedGridBlockSolver(f, y0, scheme=getattr(M, SCHEMES[scheme])(), block_size=bs, rtol=1e-13, atol=1e-13,
                               guess_type=guess, throw_on_fail=True)
    Y = integrate_loop(h, scheme, f, t, y0, nt, bs, b, p, seen) if h.sym else None
    h.earlier(lambda: s.integrate(t, cache_adjoint=adj), t, y0)
    y = s.integrate(t, cache_adjoint=adj)
    h.shape("result", y, (nt, b, p))
    if h.sym:
        h.eq("all rows come from the blocks", y[1:], Y[1:])
        h.eq("starts at the initial condition", y[0], y0)
    else:
        full_check(h, scheme, f, t, y0, y)
    if adj:
        h.eq("reversed times kept for the adjoint pass", s.t, t.flip(0))
        h.eq("reversed solution kept for the adjoint pass", s.result, y.flip(0))


LIN = [("direct", "thomas", 0), ("direct", "pcr", 0), ("direct", "hybrid", 1), ("direct", "hybrid", 3), ("dense", "thomas", 0)]


@contract("C13", "odeint", configs=tuple({"scheme": s, "lin": l, "direct": d, "ms": m} for s in ("be", "fe") for l, d, m in LIN)
          + tuple({"scheme": s, "lin": "direct", "direct": "thomas", "ms": 0, "adjoint": True} for s in ("be", "fe")), samples=6)
def c_odeint(h, scheme, lin, direct, ms, adjoint=False):
    M = h.mod(OM)
    T = h.torch
    nt, bs = h.dim("nt", 1, 8), h.dim("block_size", 1, 9)
    b, p = h.dim("nb", 1, 3), h.dim("p", 1, 3)
    f = model(h, b, p)
    y0 = h.real("y0", (b, p))
    t = h.real("t", (nt, b)) if h.sym else 0.05 * h.real("t", (nt, b), con=(0.2, 1)).cumsum(0)
    seen = {"b": b, "p": p}
    newton_stub(h, M, seen)
    Y = integrate_loop(h, scheme, f, t, y0, nt, bs, b, p, seen) if h.sym else None

    class Rate(T.nn.Module):
        def forward(self, t, y):
            return f(t, y)
    method = {"be": "backward-euler", "fe": "forward-euler"}[scheme]
    rate = Rate()

    def run():
        return (M.odeint_adjoint if adjoint else M.odeint)(rate, y0, t, method=method, block_size=bs, linear_solve_method=lin,
                                                           direct_solve_method=direct, direct_solve_min_size=ms,
                                                           rtol=1e-13, atol=1e-13, throw_on_fail=True)
    h.earlier(run, t, y0)
    y = run()
    if h.sym:
        h.eq("all rows come from the blocks", y[1:], Y[1:])
        h.eq("starts at the initial condition", y[0], y0)
    else:
        full_check(h, scheme, f, t, y0, y)
