"""C17: experimental results are loaded and formatted faithfully.

Every experiment (column) is formatted from its own labels and predictions only; cyclic results by the
loop contract: after cycle i, exactly the points with a label below i hold their own cycle's maximum."""
from pvc.engine import contract

P = "C17"
EM = "pyoptmat.experiments"
TYPES = ("tensile", "relaxation", "strain_cyclic", "creep", "stress_cyclic", "abstract_tensile", "direct_data")
CODE = {"tensile": 0, "relaxation": 1, "strain_cyclic": 2, "creep": 3, "stress_cyclic": 4, "abstract_tensile": 5,
        "direct_data": 6}


def sizes(h):
    return h.dim("nt", 1, 7), h.dim("nb", 1, 4)


def at_first(h, pred, cut):
    """pred[cut[b], b]"""
    T = h.torch
    nt = pred.shape[0]
    if h.sym:
        return h.pick(pred.transpose(0, 1), cut)
    return T.gather(pred, 0, cut.clamp(max=nt - 1)[None])[0]


@contract(P, "format_tensile, format_direct_data")
def direct(h):
    M = h.mod(EM)
    nt, nb = sizes(h)
    c, p = h.ints("cycles", (nt, nb), 0, 3), h.real("pred", (nt, nb))
    h.eq("tensile: unchanged", M.format_tensile(c, p), p)
    h.eq("direct data: unchanged", M.format_direct_data(c, p), p)
    h.eq("registered for tensile", M.exp_fns_num[0](c, p), p)
    h.eq("registered for direct data", M.exp_fns_num[6](c, p), p)


def relaxed(h, c, p, first):
    T = h.torch
    return T.where(c == 1, p - at_first(h, p, first), T.zeros_like(p))


@contract(P, "format_relaxation", samples=40)
def relaxation(h):
    M = h.mod(EM)
    nt, nb = sizes(h)
    c, (first,) = h.phases("cycles", nt, (nb,), 1)
    p = h.real("pred", (nt, nb))
    h.eq("hold relative to its own first point, loading zero", M.format_relaxation(c, p), relaxed(h, c, p, first))


@contract(P, "format_abstract_tensile", samples=40)
def abstract(h):
    M = h.mod(EM)
    T = h.torch
    nt, nb = sizes(h)
    c, (first, _) = h.phases("cycles", nt, (nb,), 2)
    p = h.real("pred", (nt, nb))
    z = T.zeros_like(p)
    want = T.where(c == 1, at_first(h, p, first) + z, T.where(c == 2, T.max(p, 0)[0] + z, z))
    h.eq("zero, yield, ultimate", M.format_abstract_tensile(c, p), want)


def cycle_max(h, c, p):
    T = h.torch
    same = c.unsqueeze(1) == c.unsqueeze(0)
    return T.max(T.where(same, p.unsqueeze(0), -T.inf), 1)[0]


def cyclic_loop(h, c, p):
    T = h.torch

    def want(i):
        return T.where(c < i, cycle_max(h, c, p), 0.0)
    inv = lambda L, i: h.eq("points of the cycles done hold their cycle's maximum, the others zero", L["result"], want(i))
    h.loop(EM, "format_cyclic", 0, init=inv, havoc=lambda L, i: {"result": L["result"].copy_(want(i))},
           check=inv, managed=lambda L: [L["result"]], roles=dict(result=lambda L: h.torch.zeros(p.shape)),
           index=(0, 1, None), first=(0, 1))


@contract(P, "format_cyclic", samples=40)
def cyclic(h):
    M = h.mod(EM)
    nt, nb = sizes(h)
    c = h.ints("cycles", (nt, nb), 0, h.dim("nc", 1, 4))
    p = h.real("pred", (nt, nb))
    cyclic_loop(h, c, p)
    h.eq("maximum of each point's own cycle", M.format_cyclic(c, p), cycle_max(h, c, p))


@contract(P, "convert_results", samples=60)
def convert(h):
    """Each formatter is a function of one experiment's own labels and predictions (its contract above)."""
    M = h.mod(EM)
    T = h.torch
    nt, nb = h.dim("nt", 1, 7), h.dim("nb", 1, 7)
    types = h.ints("types", (nb,), 0, 6)
    p = h.real("pred", (nt, nb))
    c, cuts = h.phases("cycles", nt, (nb,), 2)
    z = T.zeros_like(p)
    spec = {M.format_tensile: lambda c, p: p, M.format_direct_data: lambda c, p: p,
            M.format_relaxation: lambda c, p: relaxed(h, c, p, cuts[0]),
            M.format_cyclic: lambda c, p: cycle_max(h, c, p),
            M.format_abstract_tensile: lambda c, p: T.where(
                c == 1, at_first(h, p, cuts[0]) + z, T.where(c == 2, T.max(p, 0)[0] + z, z))}
    if h.sym:
        # any function of the experiment's own labels and predictions
        def anyfn(name):
            return lambda c, p: h.fn(name, (nb,), vectors=[p.transpose(0, 1), (1.0 * c).transpose(0, 1)],
                                     out=(nt,), bidx=False).transpose(0, 1)
        spec = {f: anyfn(f.__name__) for f in spec}
    keys = list(M.exp_fns_num)
    h.patch(EM, "exp_fns_num", {k: h.columns(spec[f]) for k, f in M.exp_fns_num.items()})
    fns = {0: M.format_tensile, 6: M.format_direct_data, 1: M.format_relaxation, 3: M.format_relaxation,
           2: M.format_cyclic, 4: M.format_cyclic, 5: M.format_abstract_tensile}
    want = z
    for k, f in fns.items():
        want = T.where(types == k, spec[f](c, p), want)

    def done(i, rest):
        m = types < 0
        for k in keys[:i]:
            m = T.logical_or(m, types == k)
        return T.where(m, want, rest)

    def inv(L, i):
        h.eq("experiments of the types done are formatted", L["processed"], done(i, L["processed"]))
    h.loop(EM, "convert_results", 0, init=inv, check=inv,
           havoc=lambda L, i: {"processed": L["processed"].copy_(done(i, h.arbitrary((nt, nb), "rest")))},
           managed=lambda L: [L["processed"]], roles=dict(processed=lambda L: h.like(nt, nb)))
    r = M.convert_results(p, c, types)
    h.eq("formatted by its own type", r, want)


class Values:
    def __init__(self, v):
        self.values = v


@contract(P, "load_results", samples=40)
def load(h):
    M = h.mod(EM)
    T = h.torch
    nt, nb = sizes(h)
    d = {k: h.real(k, (nt, nb)) for k in ("time", "temperature", "strain", "stress")}
    cyc = h.ints("cycle", (nt, nb), 0, 5)
    types, tc = h.texts("type", nb, TYPES)
    ctrl, cc = h.texts("control", nb, ("strain", "stress"))
    h.dictionary(EM, "exp_map")
    h.dictionary(EM, "control_map")
    num = (lambda x: x) if h.sym else (lambda x: x.numpy())
    x = {k: Values(num(v)) for k, v in d.items()}
    x.update(cycle=Values(num(cyc)), type=Values(types), control=Values(ctrl))
    data, results, cycles, ty, co = M.load_results(x)
    h.eq("times", data[0], d["time"])
    h.eq("temperatures", data[1], d["temperature"])
    h.eq("driving quantity", data[2], T.where(cc == 0, d["strain"], d["stress"]))
    h.eq("results", results, T.where(cc == 0, d["stress"], d["strain"]))
    h.eq("cycles", cycles * 1.0, cyc * 1.0)
    want = tc * 0
    for i, k in enumerate(TYPES):
        want = T.where(tc == i, CODE[k], want)
    h.eq("types", ty * 1.0, want * 1.0)
    h.eq("controls", co * 1.0, cc * 1.0)
