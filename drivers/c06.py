"""Binning: reshape, mean, var, std, demean, detrend, bin times."""
import copy
import numpy as np
from dolfyn.binned import TimeBinner
from dolfyn.velocity import VelBinner
from vlib.core import q, guard, NAN

SPEC = "BinningTrace"
SC = 10000


def num(p, qq):
    return p // qq if p % qq == 0 else p / qq


def binner(p, qq, rng, override):
    cls = [TimeBinner, VelBinner][rng.randint(2)]
    if override:
        return cls(n_bin=int(rng.choice([2, 3, 7])), fs=1), {"n_bin": num(p, qq)}
    return cls(n_bin=num(p, qq), fs=int(rng.randint(1, 9))), {}


def rows(out, nlead):
    out = np.asarray(out)
    return out.reshape((-1,) + out.shape[nlead:])


def data(rng, lead, n, miss):
    x = rng.randint(-9, 10, size=lead + (n,)).astype(float)
    if miss:
        x[rng.rand(*x.shape) < miss] = np.nan
    return x


def reshape(rng, n, p, qq, pad, lead, dt, ovr):
    x = (np.arange(int(np.prod(lead + (n,)))) + 1).reshape(lead + (n,)).astype(dt)
    b, kw = binner(p, qq, rng, ovr)
    keep = x.copy()
    out = b.reshape(x, n_pad=pad, **kw) if pad else b.reshape(x, **kw)
    if out.dtype != x.dtype or not np.array_equal(keep, x):
        raise ValueError("reshape changed the input or its type")
    return {"k": "reshape", "x": q(rows(x, len(lead))), "p": p, "q": qq, "pad": pad,
            "out": q(rows(out, len(lead)))}


def stat(rng, n, p, qq, lead, miss, ovr, axis, dt):
    x = data(rng, lead, n, miss).astype(dt)
    b, kw = binner(p, qq, rng, ovr)
    off = [0, 0, 4096][rng.randint(3)]      # a large mean under small fluctuations
    a = x = x + np.array(off, dt)
    if axis != -1:
        a = np.ascontiguousarray(np.swapaxes(x, axis, -1))
        keep = a.copy()
        m = b.mean(a, axis=axis, **kw)
        v = s = None
    else:
        keep = a.copy()
        m = b.mean(a, **kw)
        v = b.var(a, **kw)
        s = b.std(a, **kw)
    L = len(lead)
    return {"k": "stat", "x": q(rows(x - off, L)), "off": off, "p": p, "q": qq, "sc": SC, "vt": 1,
            "mean": q(rows(m, L), SC),
            "var": [] if v is None else q(rows(v, L), SC),
            "std2": [] if v is None else q(rows(np.asarray(s, float) ** 2, L), SC),
            "mut": not np.array_equal(keep, a, equal_nan=True)}


def series(rng, n, p, qq, lead, miss, ovr, pad):
    x = data(rng, lead, n, miss)
    b, kw = binner(p, qq, rng, ovr)
    keep = x.copy()
    if pad:
        kw["n_pad"] = pad
    dm = b.demean(x, **kw)
    dt = b.detrend(x, **kw)
    L = len(lead)
    return {"k": "padded" if pad else "series", "x": q(rows(x, L)), "p": p, "q": qq, "sc": SC,
            "pad": pad, "dm": q(rows(dm, L), SC), "dt": q(rows(dt, L), SC),
            "mut": not np.array_equal(keep, x, equal_nan=True)}


def times(rng, n, p, qq, ovr):
    step = rng.choice([1000, 125, 40, 62], size=n)
    off = np.cumsum(step)
    t0 = np.datetime64(["2020-02-28T23:59:58", "1971-01-01", "2012-12-31T23:59:59.5",
                        "2037-06-01T12:00:00.25"][rng.randint(4)], "ns")
    t = t0 + off.astype("timedelta64[ms]")
    b, kw = binner(p, qq, rng, ovr)
    tb = b.mean(t, **kw)
    d = (tb - t0) / np.timedelta64(1, "ms")
    return {"k": "time", "x": [off.tolist()], "p": p, "q": qq, "t": [q(d, 100)]}


def big(rng, n, p, qq, ovr):
    """a long record of its own sample numbers; bins are looked at around the skipped samples"""
    b, kw = binner(p, qq, rng, ovr)
    out = b.reshape(np.arange(n, dtype="f8"), **kw)
    m = p // qq
    s = np.arange(out.size)
    src = s * p // (qq * m)
    at = np.where(np.diff(src) > 1)[0]
    at = np.unique(np.concatenate([at + d for d in range(-15, 17)] + [rng.randint(0, out.size, 50), [0, out.size - 1]]))
    at = at[(at >= 0) & (at < out.size)]
    if len(at) > 600:
        at = np.sort(rng.choice(at, 600, replace=False))
    v = out.ravel()[at]
    return {"k": "big", "n": n, "p": p, "q": qq, "shape": list(out.shape), "at": at.tolist(), "v": q(v)}


def refuse(n, nb):
    b = TimeBinner(n_bin=nb, fs=1)
    st, _ = guard(b.reshape, np.arange(n, dtype=float))
    return {"k": "refuse", "refused": st == "raise"}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev}
    ctx.emit(ev, case)


def run(ctx):
    cases = []
    for Q, maxp in ((1, 9), (2, 15), (4, 23)) if ctx.quick else ((1, 14), (2, 23), (4, 39)):
        cases += ctx.mc("MCBinning", ["CONSTANT MaxN = %d" % ctx.pick(24, 40),
                                      "CONSTANT MaxP = %d" % maxp, "CONSTANT Q = %d" % Q,
                                      "INIT BInit", "NEXT BNext", "INVARIANT Agree",
                                      "INVARIANT Partition", "INVARIANT Pace", "INVARIANT Inside",
                                      "INVARIANT NoSkip", "CONSTRAINT Export",
                                      "CHECK_DEADLOCK FALSE"], "Q=%d" % Q, cases=True)
    rng = ctx.np_rng(6)
    leads = [(), (1,), (3,), (2, 2)]
    for i, c in enumerate(cases):
        n, p, qq = c["n"], c["p"], c["q"]
        lead = leads[i % 4]
        m = p // qq
        rec(ctx, "reshape|%d" % i, reshape, rng, n, p, qq,
            int(rng.randint(0, 2 * m + 1)) if i % 3 else 0, lead,
            ["f4", "f8", "i4", "i8"][rng.randint(4)], bool(rng.randint(2)))
        if i % 2:
            rec(ctx, "stat|%d" % i, stat, rng, n, p, qq, lead, [0, .2, .6][i % 3],
                bool(rng.randint(2)), -1, ["f4", "f8"][i % 2])
        if i % 3 == 0:
            rec(ctx, "series|%d" % i, series, rng, n, p, qq, lead, [0, 0, .2][rng.randint(3)],
                bool(rng.randint(2)), int(rng.randint(1, 2 * m + 1)) if rng.rand() < .4 and m > 1 else 0)
        if i % 4 == 0:
            rec(ctx, "axis|%d" % i, stat, rng, n, p, qq, (int(rng.randint(1, 4)),), [0, .3][i % 2],
                bool(rng.randint(2)), [0, -2][rng.randint(2)], "f8")
        if i % 5 == 0:
            rec(ctx, "time|%d" % i, times, rng, n, p, qq, bool(rng.randint(2)))
    for i, (n, p, qq) in enumerate([(20000, 20482, 10), (40000, 10241, 5), (50000, 40969, 10), (60001, 4097, 4), (33000, 20, 1),
                                    (50000, 1000, 3)] + ctx.pick([], [(400000, 513, 4), (200000, 2049, 2), (99999, 12289, 3)])):
        rec(ctx, "big|%d" % i, big, rng, n, p, qq, bool(i % 2))
    for n in range(1, 8):
        rec(ctx, "refuse|%d" % n, refuse, n, n + 1)
    for k, f in (("reshape", "out"), ("stat", "mean"), ("series", "dt"), ("time", "t")):
        for e in ctx.events:
            if e["k"] == k and NAN not in np.ravel(e[f]):
                e = copy.deepcopy(e)
                w = e[f]
                while isinstance(w[-1], list):
                    w = w[-1]
                w[-1] += 40
                ctx.canary(e)
                break
