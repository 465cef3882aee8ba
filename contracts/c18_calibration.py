"""C18: calibration models pass parameters and observations through unchanged.

The material model is arbitrary: the maker records what it is given and returns a model whose
predictions are arbitrary.  convert_results is used through its own contract (C17)."""
from pvc.engine import contract

P = "C18"


class Rec:
    pass


def setup(h, pshapes):
    S = Rec()
    S.nt, S.ne = h.dim("ntime", 1), h.dim("nexp", 1)
    S.data = h.real("data", (3, S.nt, S.ne))
    S.types = h.ints("types", (S.ne,), 0, 6)
    S.control = h.ints("control", (S.ne,), 0, 1)
    S.cycles = h.ints("cycles", (S.nt, S.ne), 0, 2)
    if not h.sym:
        # cycle labels shared by the samples, in order, as every test kind needs them
        c = h.torch.arange(int(S.nt)) * 3 // int(S.nt)
        c[-1] = max(int(c[-1]), 1)
        S.cycles = c[:, None].repeat(1, int(S.ne))
    S.obs = h.real("observations", (S.nt, S.ne))
    S.pred = h.real("predictions", (S.nt, S.ne, 2))
    S.args = (S.data, S.cycles, S.types, S.control)
    S.made, S.solved = [], []

    class Model:
        def solve_both(self, *a, **k):
            S.solved.append((a, k))
            return S.pred

    def maker(*a, **k):
        S.made.append((a, k))
        return Model()
    S.maker = maker
    S.names = ["tau", "n", "eta_ref", "E", "n2"][:len(pshapes)]   # in no particular order
    S.dims = [tuple(h.dim(f"d{i}_{j}", 1, 3) for j in range(r)) for i, r in enumerate(pshapes)]
    S.nan = False
    if h.sym:
        S.formatted = h.real("formatted", (S.nt, S.ne), frame=False)

        def conv(res, cyc, typ):
            h.eq("formats the predicted driven quantity", res, S.pred[:, :, 0])
            h.eq("formats with the given cycle labels", cyc, S.cycles)
            h.eq("formats with the given test types", typ, S.types)
            return S.formatted
        h.stub("pyoptmat.experiments", "convert_results", conv)
    return S


def formatted(h, S):
    if h.sym:
        return S.formatted
    return h.mod("pyoptmat.experiments").convert_results(S.pred[:, :, 0], S.cycles, S.types)


def check_solve(h, S):
    if len(S.solved) != 1:
        return h.fail("integrates the data once", f"{len(S.solved)} calls")
    a, k = S.solved[0]
    if len(a) != 4 or k:
        return h.fail("integrates the given data", "arguments")
    for n, x, y in zip(("times", "temperatures", "driving quantity", "control"), a,
                       (S.data[0], S.data[1], S.data[2], S.control)):
        h.eq("integrates the given " + n, x, y)
    h.ok("integrates the data once")


def check_made(h, S, want, extra=None):
    if len(S.made) != 1:
        return h.fail("builds the model once", f"{len(S.made)} calls")
    a, k = S.made[0]
    if len(a) != len(want):
        return h.fail("builds the model from its named parameters", f"{len(a)} parameters")
    for n, x, y in zip(S.names, a, want):
        h.eq(f"parameter {n} reaches the model in its place", x, y)
    if extra is None:
        h.holds("no other parameters", not k)
    else:
        if set(k) != {"extra_params"} or len(k["extra_params"]) != len(extra):
            return h.fail("registers the per-sample parameters", str(k.keys()))
        for n, x, y in zip(S.names, k["extra_params"], extra):
            h.eq(f"registers the per-sample parameter {n}", x, y)


PS = [dict(pshapes=p) for p in ((0,), (0, 1), (1, 0, 2), (0, 0, 1, 0, 0))]


@contract(P, "DeterministicModel", PS, samples=8)
def deterministic(h, pshapes):
    S = setup(h, pshapes)
    ics = [h.real("ic_" + n, d) for n, d in zip(S.names, S.dims)]
    m = h.mod("pyoptmat.optimize").DeterministicModel(S.maker, S.names, ics)
    for n, v in zip(S.names, ics):
        h.eq(f"{n} under its own name", getattr(m, n), v)
    params = dict(m.named_parameters())
    h.holds("exactly the named parameters are fitted", set(params) == set(S.names))
    for n, x, y in zip(S.names, m.get_params(), ics):
        h.eq(f"get_params {n}", x, y)
    h.earlier(lambda: m(*S.args), *S.args, S.pred, *ics)
    S.made.clear(), S.solved.clear()
    r = m(*S.args)
    check_made(h, S, ics)
    check_solve(h, S)
    h.eq("returns the formatted predictions", r, formatted(h, S))

    def on_graph():
        S.made.clear(), S.solved.clear()
        r = m(*S.args)
        return list(S.made[0][0]) + [r]
    leaves = [getattr(m, n) for n in S.names]
    if not h.sym:
        leaves.append(S.pred.requires_grad_(True))
    h.gradient("the parameters reach the model, and the predictions the result, on the autograd graph", on_graph, leaves)


def check_noise(h, S, scale, eps, tn):
    h.eq("noise of the observation", scale, h.pick(eps, S.types) if tn else eps, bcast=True)


def check_obs(h, S, site, want, tn, eps, plates):
    h.holds("observation is normal", site.kind == "Normal" and site.event == 0)
    h.eq("observation centred on the predictions", site.params["loc"], want, bcast=True)
    check_noise(h, S, site.params["scale"], eps, tn)
    h.holds("observed", site.obs is not None)
    h.eq("observation compared with the experimental results", site.obs, S.obs)
    h.holds("independent over trials and time", sorted((p[0], p[2]) for p in site.plates) == [("time", -2), ("trials", -1)])
    sz = {p[0]: p[1] for p in site.plates}
    h.holds("one entry per trial and time", (sz["trials"] == S.ne) & (sz["time"] == S.nt))


@contract(P, "StatisticalModel", [dict(p, tn=t, nan=n) for p in PS for t in (False, True) for n in (False, True)], samples=6)
def statistical(h, pshapes, tn, nan):
    S = setup(h, pshapes)
    locs = [h.real("loc_" + n, d) for n, d in zip(S.names, S.dims)]
    scales = [h.real("scale_" + n, d, pos=True) for n, d in zip(S.names, S.dims)]
    eps = h.real("eps", (7,) if tn else (), pos=True)
    h.pyro_reset()
    kw = dict(nan_num=True) if nan else {}
    m = h.mod("pyoptmat.optimize").StatisticalModel(S.maker, S.names, locs, scales, eps, **kw)
    run_stat(h, S, m, locs, scales, eps, tn, nan)


def run_stat(h, S, m, locs, scales, eps, tn, nan):
    if nan and not h.sym:
        S.pred[::2] = float("nan")
        S.pred_nan = True
        h.noframe.add("predictions")
    h.earlier(lambda: h.pyro_run(m, *S.args, S.obs), *S.args, S.obs, S.pred)
    S.made.clear(), S.solved.clear()
    r, sites, params = h.pyro_run(m, *S.args, S.obs)
    h.holds("one site per name and one observation", set(sites) == set(S.names) | {"obs"})
    for n, l, s in zip(S.names, locs, scales):
        x = sites[n]
        h.holds(f"{n} is normal", x.kind == "Normal" and not x.plates and x.obs is None)
        h.eq(f"{n} prior location", x.params["loc"], l)
        h.eq(f"{n} prior scale", x.params["scale"], s)
    check_made(h, S, [sites[n].value for n in S.names])
    check_solve(h, S)
    want = formatted(h, S)
    if nan:
        want = h.torch.nan_to_num(want)
    check_obs(h, S, sites["obs"], want, tn, eps, S)
    h.holds("unweighted", sites["obs"].weight is None)
    h.eq("returns the observation", r, S.obs)


W = [dict(p, tn=t, noise=n, weights=w, suffix=("_loc", "_scale", "_param")) for p in PS[1:3] for t in (False, True)
     for n in (False, True) for w in (False, True)]
W += [dict(p, tn=False, noise=True, weights=True, suffix=("_loc", "_scale", "_param")) for p in (PS[0], PS[3])]
W += [dict(PS[2], tn=True, noise=True, weights=False, suffix=("_mean", "_width", "_guide"))]
KINDS = ["tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data"]


@contract(P, "HierarchicalStatisticalModel", W, samples=6)
def hierarchical(h, pshapes, tn, noise, weights, suffix):
    S = setup(h, pshapes)
    sl, sc, sp = suffix
    t = h.torch
    ll = [h.real("loc_loc_" + n, d) for n, d in zip(S.names, S.dims)]
    ls = [h.real("loc_scale_" + n, d, pos=True) for n, d in zip(S.names, S.dims)]
    ss = [h.real("scale_scale_" + n, d, pos=True) for n, d in zip(S.names, S.dims)]
    eps = h.real("noise_prior", (7,) if tn else (), pos=True)
    h.pyro_reset()
    kw = {} if sl == "_loc" else dict(loc_suffix=sl, scale_suffix=sc, param_suffix=sp)
    if noise:
        kw["include_noise"] = True
    if weights:
        ws = [h.flt(f"weight_{k}", ge=0.1, le=3.0) for k in KINDS]
        kw["weights"] = {k: w for k, w in reversed(list(zip(KINDS, ws)))}
    O = h.mod("pyoptmat.optimize")
    m = O.HierarchicalStatisticalModel(S.maker, S.names, ll, ls, ss, eps, **kw)
    h.holds("counts its parameters", m.nparams == len(S.names))
    guide = m.make_guide()
    _, g, _ = h.pyro_run(guide, *S.args, S.obs)
    top = {n + s for n in S.names for s in (sl, sc)} | ({"eps"} if noise else set())
    h.holds("guide visits every latent site", set(g) == top | set(S.names))
    _, _, gp = h.pyro_run(guide, *S.args, S.obs)
    h.holds("one guide parameter per latent site", set(gp) == {n + sp for n in top | set(S.names)})

    def is_param(x, name, init, pos, event):
        h.holds(f"guide for {name} is a point value", x.kind == "Delta" and x.event == event)
        h.eq(f"guide for {name} starts from its prior", x.params["v"] if not h.sym else init_of(h, x, name + sp), init, bcast=True)
        if pos:
            h.holds(f"guide for {name} stays positive", positive(h, x, name + sp))
    for n, d, a, b in zip(S.names, S.dims, ll, ss):
        is_param(g[n + sl], n + sl, a, False, len(d))
        is_param(g[n + sc], n + sc, b, True, len(d))
        is_param(g[n], n, a, False, len(d))
        h.shape(f"one value of {n} per trial", g[n].value, (S.ne,) + d)
        h.holds(f"{n} is independent over the trials", [(p[0], p[2]) for p in g[n].plates] == [("trials", -1)])
        h.holds(f"{n} population values are shared", not g[n + sl].plates and not g[n + sc].plates)
    if noise:
        is_param(g["eps"], "eps", eps, True, 1 if tn else 0)
    extra = m.get_extra_params()
    h.earlier(lambda: h.pyro_run(m, *S.args, S.obs), *S.args, S.obs, S.pred)
    S.made.clear(), S.solved.clear()
    r, sites, params = h.pyro_run(m, *S.args, S.obs)
    h.holds("model and guide visit the same latent sites", set(sites) == set(g) | {"obs"})
    for n, d, a, b, c in zip(S.names, S.dims, ll, ls, ss):
        x, y, z = sites[n + sl], sites[n + sc], sites[n]
        h.holds(f"{n} site kinds", (x.kind, y.kind, z.kind) == ("Normal", "HalfNormal", "Normal"))
        h.holds(f"{n} event dimensions", (x.event, y.event, z.event) == (len(d),) * 3)
        h.holds(f"{n} population sites are shared", not x.plates and not y.plates)
        h.holds(f"{n} is drawn per trial", [(p[0], p[2]) for p in z.plates] == [("trials", -1)])
        h.eq(f"{n} prior of the location: location", x.params["loc"], a)
        h.eq(f"{n} prior of the location: scale", x.params["scale"], b)
        h.eq(f"{n} prior of the scale", y.params["scale"], c)
        h.eq(f"{n} drawn around the population location", z.params["loc"], x.value, bcast=True)
        h.eq(f"{n} drawn with the population scale", z.params["scale"], y.value, bcast=True)
        h.shape(f"{n}: one draw per trial", z.value, (S.ne,) + d)
    if noise:
        e = sites["eps"]
        h.holds("noise prior kind", e.kind == "HalfNormal" and e.event == (1 if tn else 0) and not e.plates)
        h.eq("noise prior", e.params["scale"], eps)
        eps = e.value
    check_made(h, S, [sites[n].value for n in S.names], [params_of(h, n + sp) for n in S.names])
    for n, x in zip(S.names, extra):
        h.eq(f"extra parameter {n}", x, params_of(h, n + sp))
    check_solve(h, S)
    want = formatted(h, S)
    check_obs(h, S, sites["obs"], want, tn, eps, S)
    h.eq("returns the formatted predictions", r, want)
    if weights:
        wt = t.tensor(ws) if not h.sym else stack(h, ws)
        h.eq("weight of each test by its type", sites["obs"].weight, h.pick(wt, S.types), bcast=True)
    elif sites["obs"].weight is not None:
        h.eq("equal weights", sites["obs"].weight, t.ones_like(S.types) * 1.0, bcast=True)


def stack(h, ws):
    r = h.torch.zeros(len(ws))
    for i, w in enumerate(ws):
        r[i] = w
    return r


def init_of(h, x, name):
    return h.ctx.pyro.params[name].init


def positive(h, x, name):
    if h.sym:
        return h.ctx.pyro.params[name].constraint == "positive"
    import pyro
    from torch.distributions import constraints
    c = pyro.get_param_store()._constraints[name]
    return c is constraints.positive or c == constraints.positive


def params_of(h, name):
    if h.sym:
        return h.ctx.pyro.params[name]
    import pyro
    return pyro.param(name)


@contract(P, "HierarchicalStatisticalModel without a guide", [{}], samples=2)
def noguide(h):
    S = setup(h, (0,))
    one = h.torch.ones(())
    h.pyro_reset()
    m = h.mod("pyoptmat.optimize").HierarchicalStatisticalModel(
        S.maker, S.names, [h.real("a", ())], [h.real("b", (), pos=True)], [h.real("c", (), pos=True)], h.real("e", (), pos=True))
    m.make_guide()
    h.raises("missing guide parameters are reported", ValueError, m.get_extra_params)
