"""C16: experiment generators produce consistent test definitions.

Loop contracts describe the histories written so far in closed form; the postconditions are the documented
features: start at zero, limit and rate, holds, cycle labels, strictly increasing times."""
from pvc.engine import contract

P = "C16"
EM = "pyoptmat.experiments"


def signed(h, name, nb):
    """Limits and rates of the same sign (tension or compression)."""
    T = h.torch
    m, r = h.real(name, (nb,), pos=True), h.real("rate", (nb,), pos=True)
    neg = h.mask("compression", (nb,))
    return T.where(neg, -m, m), T.where(neg, -r, r)


def at(h, x, k):
    """x[k] along the first axis, k any index (symbolic or int)."""
    return x[k]


def increasing(h, name, times, n):
    """times[k] < times[k+1] for an arbitrary k."""
    h.holds(name, (times[1:] > times[:-1]).all())


@contract(P, "make_tension_tests", samples=40)
def tension(h):
    M = h.mod(EM)
    T = h.torch
    nb, n = h.dim("nb", 1, 5), h.dim("n", 2, 8)
    lim, rate = signed(h, "limit", nb)
    temp = h.real("temp", (nb,))
    f = (T.arange(n) * 1.0)[:, None] / (n - 1)
    tw, ew, cw = f * (lim / rate), f * lim, f * 0.0 + temp

    def upto(i, w):
        return T.where(T.arange(nb) < i, w, 0.0)

    def inv(L, i):
        for nm, w in (("times", tw), ("strains", ew), ("temps", cw)):
            h.eq(f"{nm} of the tests done", L[nm], upto(i, w))

    def havoc(L, i):
        return {nm: L[nm].copy_(upto(i, w)) for nm, w in (("times", tw), ("strains", ew), ("temps", cw))}
    h.loop(EM, "make_tension_tests", 0, init=inv, check=inv, havoc=havoc,
           managed=lambda L: [L["times"], L["strains"], L["temps"]], first=(0, 1))
    times, strains, temps, cycles = M.make_tension_tests(rate, temp, lim, n)
    for nm, x in (("times", times), ("strains", strains), ("temperatures", temps), ("cycles", cycles)):
        h.shape(nm, x, (n, nb))
    h.eq("times start at zero", times[0], 0.0 * lim)
    h.eq("strains start at zero", strains[0], 0.0 * lim)
    h.eq("strains reach the limit", strains[-1], lim)
    h.eq("loaded at the requested rate", strains, rate * times)
    increasing(h, "times increase", times, n)
    h.eq("constant temperature", temps, temp + 0.0 * strains)
    h.eq("no cycles", cycles * 1.0, 0.0 * strains)


@contract(P, "make_creep_tests", [dict(log=False), dict(log=True)], samples=40)
def creep(h, log):
    M = h.mod(EM)
    T = h.torch
    nb, nl, nh = h.dim("nb", 1, 4), h.dim("nl", 2, 6), h.dim("nh", 1, 6)
    lim, rate = signed(h, "stress", nb)
    temp, hold = h.real("temp", (nb,)), h.real("hold", (nb,), pos=True)
    n = nl + nh
    k = T.arange(n)[:, None]
    load = k < nl
    f = (k * 1.0) / (nl - 1)
    g = (k * 1.0 - (nl - 1)) / (1.0 * nh)
    tl = lim / rate
    if log:
        ht = 10.0 ** (T.log10(tl) + (T.log10(tl + hold) - T.log10(tl)) * g)
    else:
        ht = tl + hold * g
    tw = T.where(load, f * tl, ht)
    sw = T.where(load, f * lim, lim + 0.0 * f)
    cw = f * 0.0 + temp

    def upto(i, w):
        return T.where(T.arange(nb) < i, w, 0.0)
    ws = (("times", tw), ("stresses", sw), ("temperatures", cw))

    def inv(L, i):
        for nm, w in ws:
            h.eq(f"{nm} of the tests done", L[nm], upto(i, w))
    h.loop(EM, "make_creep_tests", 0, init=inv, check=inv, managed=lambda L: [L[nm] for nm, _ in ws],
           havoc=lambda L, i: {nm: L[nm].copy_(upto(i, w)) for nm, w in ws}, first=(0, 1))
    times, stresses, temps, cycles = M.make_creep_tests(lim, temp, rate, hold, nl, nh, logspace=log)
    for nm, x in (("times", times), ("stresses", stresses), ("temperatures", temps), ("cycles", cycles)):
        h.shape(nm, x, (n, nb))
    h.eq("times start at zero", times[0], 0.0 * lim)
    h.eq("stresses start at zero", stresses[0], 0.0 * lim)
    h.eq("loaded at the requested rate", stresses[:nl], rate * times[:nl])
    h.eq("the target stress is reached at the end of loading", stresses[nl - 1], lim)
    h.eq("the target stress is held", stresses[nl:], lim + 0.0 * times[nl:])
    h.eq("held for the requested time", times[-1] - times[nl - 1], hold)
    increasing(h, "times increase while loading", times[:nl], n)
    if log:
        lt = T.log10(times[nl - 1:])
        d = (T.log10(tl + hold) - T.log10(tl)) / (1.0 * nh)
        h.eq("log times increase by equal steps while holding", lt[1:] - lt[:-1], d + 0.0 * lt[1:])
        h.holds("the steps are positive", T.log10((tl + hold) / tl) > 0)
    if not (h.sym and log):
        increasing(h, "times increase while holding", times[nl - 1:], n)
    h.eq("constant temperature", temps, temp + 0.0 * times)
    h.eq("loading and hold are labelled", cycles * 1.0, T.where(load, 0.0, 1.0) + 0.0 * times)


class Uniform:
    """numpy.random: any number in the requested range."""

    def __init__(self, h):
        self.h = h

    def uniform(self, a=0.0, b=1.0, size=None):
        h = self.h
        a, b = h.torch.as_tensor(a), h.torch.as_tensor(b)
        lo, hi = h.torch.minimum(a, b), h.torch.maximum(a, b)
        return h.flt(f"draw!{h.fresh()}", ge=lo, le=hi)


def between(h, name, x, ends, tol=1e-12):
    T = h.torch
    a, b = T.as_tensor(ends[0]), T.as_tensor(ends[1])
    t = 0.0 if h.sym else tol
    lo, hi = T.minimum(a, b), T.maximum(a, b)
    x = T.as_tensor(x)
    h.holds(name, T.logical_and(x >= lo - t * abs(lo), x <= hi + t * abs(hi)))


@contract(P, "generate_random_tension", [dict(default=False), dict(default=True)], samples=40)
def rtension(h, default):
    M = h.mod(EM)
    h.patch(EM, "ra", Uniform(h))
    if default:
        r, rates = M.generate_random_tension(), (1e-6, 1e-2)
        h.eq("maximum strain", h.torch.as_tensor(r["max_strain"]), h.torch.as_tensor(0.2))
    else:
        rates, top = [h.flt("r0", pos=True), h.flt("r1", pos=True)], h.flt("top")
        r = M.generate_random_tension(strain_rate=rates, max_strain=top)
        h.eq("maximum strain", h.torch.as_tensor(r["max_strain"]), h.torch.as_tensor(top))
    between(h, "rate in range", r["strain_rate"], rates)


@contract(P, "generate_random_cycle", [dict(default=False), dict(default=True)], samples=40)
def rcycle(h, default):
    M = h.mod(EM)
    h.patch(EM, "ra", Uniform(h))
    if default:
        k = dict(max_strain=[0, 0.02], R=[-1, 1], strain_rate=[1e-3, 1e-5], tension_hold=[0, 3600.0],
                 compression_hold=[0, 600])
        c = M.generate_random_cycle()
    else:
        k = {n: [h.flt(n + "0", pos=True), h.flt(n + "1", pos=True)] for n in (
            "max_strain", "R", "strain_rate", "tension_hold", "compression_hold")}
        c = M.generate_random_cycle(**k)
    for n, v in k.items():
        between(h, f"{n} in range", c[n], v)


@contract(P, "sample_tension", samples=40)
def stension(h):
    M = h.mod(EM)
    T = h.torch
    n = h.dim("n", 2, 8)
    top, rate = h.flt("top", pos=True), h.flt("rate", pos=True)
    times, strains = M.sample_tension({"max_strain": top, "strain_rate": rate}, nsteps=n)
    times, strains = T.as_tensor(times), T.as_tensor(strains)
    h.shape("times", times, (n,))
    h.shape("strains", strains, (n,))
    h.eq("times start at zero", times[0], T.as_tensor(0.0))
    h.eq("strains reach the maximum", strains[-1], T.as_tensor(top))
    h.eq("loaded at the requested rate", strains, rate * times)
    increasing(h, "times increase", times, n)


def phases(h, nl, nh):
    return [(nl, 0), (nh, 1), (2 * nl, 2), (nh, 3), (nl, 4)]


@contract(P, "sample_cycle_normalized_times", [dict(R="neg"), dict(R="pos"), dict(R="zero")], samples=40)
def cycles(h, R):
    M = h.mod(EM)
    T = h.torch
    N, nl, nh = h.dim("N", 1, 4), h.dim("nl", 1, 5), h.dim("nh", 1, 5)
    emax, rate = h.flt("emax", pos=True), h.flt("rate", pos=True)
    t2, t4 = h.flt("hold_t", pos=True), h.flt("hold_c", pos=True)
    if R == "neg":
        ratio = -h.flt("R", pos=True)
    elif R == "pos":
        ratio = h.flt("R", gt=0, lt=1, con=(0.1, 0.9))
    else:
        ratio = 0.0
    emin = ratio * emax
    t1, t3 = emax / rate, (emax - emin) / rate
    t5 = {"neg": -emin / rate, "pos": emin / rate, "zero": 0.0}[R]
    Nt = 4 * nl + 2 * nh
    steps, durs = [nl, nh, 2 * nl, nh, nl], [t1, t2, t3, t4, t5]
    e0, e1 = [0.0, emax, emax, emin, emin], [emax, emax, emin, emin, 0.0]
    period = t1 + t2 + t3 + t4 + t5
    r = T.arange(Nt)
    q = T.arange(N)

    def by_phase(vals):
        """vals: one value per phase for the points r of a cycle."""
        out, hi = vals[-1], Nt
        for k in (3, 2, 1, 0):
            hi = hi - steps[k + 1]
            out = T.where(r < hi, vals[k], out)
        return out
    tv, ev, off, start = [], [], 0, 0.0
    for k in range(5):
        u = (1.0 * (r - off) + 1.0) / (1.0 * steps[k])
        tv.append(start + durs[k] * u)
        ev.append(e0[k] + (e1[k] - e0[k]) * u)
        off, start = off + steps[k], start + durs[k]
    tw = (1.0 * q[:, None]) * period + by_phase(tv)      # (N, Nt)
    ew = by_phase(ev) + 0.0 * tw
    cw = q[:, None] * 1.0 + 0.0 * tw

    def flat(i, w):
        """First point and the cycles below i."""
        z = T.zeros(1)
        return T.cat([z, T.where(q[:, None] < i, w, 0.0).reshape(N * Nt)])

    def cells(x):
        return x[1:].reshape((N, Nt)) * 1.0

    def inv(L, i):
        h.eq("times of the cycles done", cells(L["times"]), cells(flat(i, tw)))
        h.eq("the first point is zero", T.as_tensor(L["times"][0]), T.as_tensor(0.0))
        h.eq("labels of the cycles done", cells(L["cycles"]), cells(flat(i, cw)))
        h.eq("the first label is zero", T.as_tensor(L["cycles"][0] * 1.0), T.as_tensor(0.0))
        h.eq("position", T.as_tensor(1.0 * L["n"]), T.as_tensor(1.0 * (1 + i * Nt)))
        h.eq("clock", T.as_tensor(L["tc"]), T.as_tensor(1.0 * i * period))

    def havoc(L, i):
        L["times"].copy_(flat(i, tw))
        L["cycles"].copy_(flat_int(i))
        return {"times": L["times"], "cycles": L["cycles"], "n": 1 + i * Nt, "tc": 1.0 * i * period}

    def flat_int(i):
        ci = T.where(q[:, None] < i, q[:, None], 0 * q[:, None]) + 0 * r
        return T.cat([T.zeros(1, dtype=T.int64), ci.reshape(N * Nt)])
    if h.sym:
        h.loop(EM, "sample_cycle_normalized_times", 0, init=inv, check=inv, havoc=havoc,
               managed=lambda L: [L["times"], L["cycles"]], first=(0, 1))
    c = {"max_strain": emax, "R": ratio, "strain_rate": rate, "tension_hold": t2, "compression_hold": t4}
    times, strains, cyc = M.sample_cycle_normalized_times(c, N, nload=nl, nhold=nh)
    times, strains, cyc = T.as_tensor(times), T.as_tensor(strains), T.as_tensor(cyc)
    for nm, x in (("times", times), ("strains", strains), ("cycles", cyc)):
        h.shape(nm, x, (1 + N * Nt,))
    h.eq("times start at zero", times[0], T.as_tensor(0.0))
    h.eq("strains start at zero", strains[0], T.as_tensor(0.0))
    h.eq("times", cells(times), tw)
    h.eq("cycle labels", cells(cyc), cw)
    h.eq("strains", cells(strains), ew)
