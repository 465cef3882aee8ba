"""C19: the drivers impose exactly the prescribed histories.

odeint / odeint_adjoint are replaced by their contract (they integrate the function they are given
from the initial condition they are given over the times they are given: C13, C14); the function
handed to them must be the control wrapper (C05) fed, at any block of times in the data range, with
the piecewise-linear interpolants of each sample's own temperature, value and rate histories."""
from pvc.engine import contract

P = "C19"
OM, MM = "pyoptmat.ode", "pyoptmat.models"


class Model:
    """Any material model: f(t, y, erate, T) with exact derivatives (C04)."""

    def __init__(self, h, n):
        self.h, self.n, self.training = h, n, False

    @property
    def nhist(self):
        return self.n

    def __call__(self, t, y, erate, T):
        return self.forward(t, y, erate, T)

    def forward(self, t, y, erate, T):
        h, n = self.h, self.n
        b = tuple(y.shape[:-1])
        a = dict(scalars=[t, erate, T], vectors=[y], out=(n,), bidx=False)
        e0 = h.torch.eye(n)[0]
        k = 0.0 if h.sym else 12.0          # makes the stress equation solvable for the sampled functions
        r = h.fn("f", b, **a) + k * erate[..., None] * e0
        J = h.dfn("f", b, **a, wrt=("v", 0))
        Je = h.dfn("f", b, **a, wrt=("a", 1)) + k * e0
        return r, J, Je, h.torch.zeros_like(y)


def module(h, m):
    """The model as a torch module (odeint_adjoint collects its parameters)."""
    N = h.torch.nn.Module

    class W(N):
        nhist = m.n

        def forward(self, *a):
            return m.forward(*a)
    return W()


def rates(h, times, d):
    """Difference quotient of the prescribed history; nothing is imposed before the first time, nor
    over a step of zero length."""
    T = h.torch
    dt, dd = times[1:] - times[:-1], d[1:] - d[:-1]
    return T.cat([T.zeros_like(d[:1]), T.where(dt == 0, T.zeros_like(dd), dd / T.where(dt == 0, T.ones_like(dt), dt))])


def line(h, t, j, x0, x1, v):
    vt = v.transpose(0, 1)
    v0, v1 = h.pick(vt, j), h.pick(vt, j + 1)
    return v0 + (v1 - v0) / (x1 - x0) * (t - x0)


def const(x):
    return lambda t: x


def wrapper(h, kind, m, rate, base, temp, ctl):
    M = h.mod(MM)
    if kind == "strain":
        return M.StrainBasedModel(m, const(rate), const(temp))
    if kind == "stress":
        return M.StressBasedModel(m, const(rate), const(base), const(temp))
    return M.BothBasedModel(m, const(rate), const(base), const(temp), ctl)


@contract(P, "drivers", [dict(kind=k, adj=a) for k in ("strain", "stress", "both") for a in (False, True)], samples=12)
def drivers(h, kind, adj):
    M, O, T = h.mod(MM), h.mod(OM), h.torch
    nb, nt, n = h.dim("nb", 1, 3), h.dim("nt", 1, 5), h.dim("nhist", 1, 3)
    forward = not adj if h.sym else h.seed % 2 == 1
    # the oracle of a forward step cannot tell the two rates at a time that occurs twice apart
    times = h.increasing("times", (nt, nb), axis=0, weak=h.sym or not forward)
    times = times if h.sym else times * 0.1
    data = h.real("data", (nt, nb)) if h.sym else 0.1 * h.real("data", (nt, nb))
    temps = h.real("temps", (nt, nb))
    if h.sym:        # equal times: nothing changes
        h.require(T.logical_or(times[1:] != times[:-1], data[1:] == data[:-1]))
    else:
        data, temps = data.clone(), temps.clone()
        for k in range(1, nt):
            same = times[k] == times[k - 1]
            data[k], temps[k] = T.where(same, data[k - 1], data[k]), T.where(same, temps[k - 1], temps[k])
    ctl = h.ints("control", (nb,), 0, 1)
    m = module(h, Model(h, n))
    opts = dict(block_size=h.dim("block_size", 1, 6), rtol=1e-11, atol=1e-11)
    if forward:
        opts["method"] = "forward-euler"
    calls = []

    if h.sym:
        def integrator(name):
            def integ(func, y0, t, **kw):
                calls.append((name, func, y0, t, kw))
                calls.append(h.real("solution", (nt, nb, n), frame=False))
                return calls[-1]
            return integ
        h.stub(OM, "odeint", integrator("odeint"))
        h.stub(OM, "odeint_adjoint", integrator("odeint_adjoint"))

        def newton(RJ, x0, **k):
            # a deterministic function of the equation to be solved (its residual at an arbitrary point)
            p = h.real("probe", x0.shape, frame=False)
            r, j = RJ(p)
            x = h.fn("newton", x0.shape[:-1], scalars=[r[..., 0], x0[..., 0]], out=(1,))
            j = RJ(x)[1]
            h.require(j != 0)              # the stress equation is solvable (C05)
            return x, j
        h.stub("pyoptmat.solvers", "newton_raphson", newton)
        h.stub("pyoptmat.solvers", "newton_raphson_bt", newton)
        nq = h.dim("nq", 1, 4)
        q, j, x0, x1 = h.in_interval("tq", (nq, nb), times.transpose(0, 1))

        class Interpolant:
            """Contract of ArbitraryBatchTimeSeriesInterpolator (C09)."""

            def __init__(self, t, data):
                h.eq("interpolated over the given times", t, times)
                self.data = data

            def __call__(self, t):
                h.eq("interpolated at the requested times", t, q)
                return line(h, q, j, x0, x1, self.data)
        h.patch("pyoptmat.utility", "ArbitraryBatchTimeSeriesInterpolator", Interpolant)
    integ = M.ModelIntegrator(m, use_adjoint=adj, **opts)
    run = {"strain": lambda: integ.solve_strain(times, data, temps),
           "stress": lambda: integ.solve_stress(times, data, temps),
           "both": lambda: integ.solve_both(times, temps, data, ctl)}[kind]
    h.earlier(run, times, data, temps, ctl)
    calls.clear()
    y = run()
    h.shape("results have the shape of the input history", y, (nt, nb, n))
    rt = rates(h, times, data)
    if h.sym:
        h.holds("integrated once", len(calls) == 2)
        (name, func, y0, t, kw), sol = calls
        h.holds("integration method as requested", name == ("odeint_adjoint" if adj else "odeint"))
        h.holds("options passed through", sorted(kw) == sorted(opts) and all(kw[k] is opts[k] for k in opts))
        h.eq("starts from the zero state", y0, T.zeros(nb, n))
        h.eq("integrates over the given times", t, times)
        h.eq("returns the solution", y, sol)
        Y = h.real("Y", (nq, nb, n))
        got, gotJ = func(q, Y)[:2]
        want, wantJ = wrapper(h, kind, m, line(h, q, j, x0, x1, rt), line(h, q, j, x0, x1, data),
                              line(h, q, j, x0, x1, temps), ctl)(q, Y)[:2]
        h.eq("rates of the model at each sample's own prescribed histories", got, want)
        h.eq("Jacobian of the model at each sample's own prescribed histories", gotJ, wantJ)
    else:
        h.tol = 2e-5
        h.eq("starts from the zero state", y[0], T.zeros(nb, n))
        f = wrapper(h, kind, m, rt, data, temps, ctl)(times, y)[0]
        dt = (times[1:] - times[:-1])[..., None]
        h.eq("every step uses the rate, value and temperature prescribed for its own sample", y[1:],
             y[:-1] + (f[:-1] if forward else f[1:]) * dt)
