"""C09: interpolators are the piecewise-linear interpolant of each sample's own data.

Every query point in the data range lies in some interval j of the sorted times (ghost of
h.in_interval; ties at data times allowed on both sides); the specification is the straight line
through the two ends of that interval, which at a data time is the data value itself."""
from pvc.engine import contract

P = "C09"
UM = "pyoptmat.utility"


def line(h, t, j, x0, x1, v):
    v0, v1 = h.pick(v, j), h.pick(v, j + 1)
    return v0 + (v1 - v0) / (x1 - x0) * (t - x0)


def setup(h, nq=None, weak=False):
    class S:
        pass
    nb, n = h.dim("nb", 1, 4), h.dim("n", 2, 6)
    S.nb, S.n = nb, n
    S.times = h.increasing("times", (n, nb), axis=0, weak=weak)
    S.values = h.real("values", (n, nb))
    batch = (nb,) if nq is None else (nq, nb)
    S.t, j, x0, x1 = h.in_interval("t", batch, S.times.transpose(0, 1), left=not weak)
    S.want = line(h, S.t, j, x0, x1, S.values.transpose(0, 1))
    S.batch = batch
    return S


@contract(P, "ArbitraryBatch single time per sample", samples=40)
def arb1(h):
    S = setup(h)
    r = h.mod(UM).ArbitraryBatchTimeSeriesInterpolator(S.times, S.values)(S.t)
    h.eq("piecewise-linear interpolant", r, S.want)


@contract(P, "ArbitraryBatch block of times", samples=40)
def arbn(h):
    S = setup(h, h.dim("nq", 1, 5))
    r = h.mod(UM).ArbitraryBatchTimeSeriesInterpolator(S.times, S.values)(S.t)
    h.eq("piecewise-linear interpolant", r, S.want)


@contract(P, "ArbitraryBatch repeated times", [dict(block=False), dict(block=True)], samples=40)
def arbweak(h, block):
    """Zero-length intervals (after the first) are never selected."""
    S = setup(h, h.dim("nq", 1, 5) if block else None, weak=True)
    r = h.mod(UM).ArbitraryBatchTimeSeriesInterpolator(S.times, S.values)(S.t)
    h.eq("piecewise-linear interpolant", r, S.want)


@contract(P, "BatchTimeSeriesInterpolator", samples=40)
def batch(h):
    S = setup(h)
    r = h.mod(UM).BatchTimeSeriesInterpolator(S.times, S.values)(S.t)
    h.eq("piecewise-linear interpolant", r, S.want)


@contract(P, "timeseries_interpolate_batch_times", samples=40)
def batchfn(h):
    S = setup(h)
    r = h.mod(UM).timeseries_interpolate_batch_times(S.times, S.values, S.t)
    h.eq("piecewise-linear interpolant", r, S.want)


def common(h):
    """The same times for every sample."""
    class S:
        pass
    S.nb, S.n = h.dim("nb", 1, 4), h.dim("n", 2, 6)
    S.times = h.increasing("times", (S.n,))
    S.values = h.real("values", (S.n, S.nb))
    S.t, j, x0, x1 = h.in_interval("t", (), S.times)
    jb = j.expand(S.nb)
    S.want = line(h, S.t, jb, x0, x1, S.values.transpose(0, 1))
    return S


@contract(P, "CheaterBatchTimeSeriesInterpolator", samples=40)
def cheat(h):
    S = common(h)
    tt = S.times[:, None].expand(S.n, S.nb)
    r = h.mod(UM).CheaterBatchTimeSeriesInterpolator(tt, S.values)(S.t.expand(S.nb))
    h.eq("piecewise-linear interpolant", r, S.want)


@contract(P, "timeseries_interpolate_single_times", samples=40)
def single(h):
    S = common(h)
    r = h.mod(UM).timeseries_interpolate_single_times(S.times, S.values, S.t)
    h.eq("piecewise-linear interpolant", r, S.want)
