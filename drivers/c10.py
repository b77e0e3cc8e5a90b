"""ADV despiking and replacement."""
import copy
import numpy as np
import xarray as xr
from dolfyn.adv import clean
from vlib.core import q, guard, NAN

SPEC = "Cleaning"
SC = 2520
FINE = 2.**-34      # added to double-precision data: nothing narrower holds it
T0 = np.datetime64("2021-12-31T23:59:58", "ns")


def arr(x, t=None, dt="f4"):
    a = np.array(x, float)
    a[a >= 2e9] = np.nan
    a = a.astype(dt)
    t = np.arange(a.shape[-1]) * 250 if t is None else np.asarray(t)
    tt = T0 + t.astype("timedelta64[ms]")
    if a.ndim == 1:
        return xr.DataArray(a, dims=["time"], coords={"time": tt})
    return xr.DataArray(a, dims=["dir", "time"], coords={"dir": ["X", "Y", "Z"][:a.shape[0]], "time": tt})


def rows(m):
    m = np.asarray(m)
    return (m if m.ndim == 2 else m[None]).tolist()


def chk(u, keep):
    if not keep.identical(u):
        raise ValueError("input changed")


def exact(u, o, m):
    """samples that are not flagged, bit by bit"""
    g = ~np.array(m).reshape(u.shape) & ~np.isnan(u.values)
    return bool(np.array_equal(u.values[g], o.values[g]))


def rng_ev(x, lo, hi, dt):
    u = arr(x if len(x) > 1 else x[0], dt=dt)
    keep = u.copy(deep=True)
    m = clean.range_limit(u, [lo, hi]) if (lo, hi) != (-5, 5) else clean.range_limit(u)
    chk(u, keep)
    return {"k": "range", "x": x, "lo": lo, "hi": hi, "m": rows(m)}


def spike(x, thr, dt):
    u = arr(x if len(x) > 1 else x[0], dt=dt)
    keep = u.copy(deep=True)
    m = clean.spike_thresh(u, thr) if thr != 10 else clean.spike_thresh(u)
    chk(u, keep)
    return {"k": "spike", "x": x, "thr": thr, "m": rows(m)}


def gn(x, npt, raw):
    u = arr(x if len(x) > 1 else x[0], dt="f8")
    keep = u.copy(deep=True)
    m = clean.GN2002(u.values if raw else u, npt=npt) if npt < 5000 else clean.GN2002(u)
    chk(u, keep)
    return {"k": "gn", "x": x, "npt": npt, "m": rows(m)}


def gnsplit(segs, npt, gap, ends):
    """good stretches separated by runs of missing samples, each of at least npt//10;
    maybe also missing samples at the ends of the record"""
    u, parts = [], []
    if ends & 1:
        u, parts = [np.nan] * gap, [False] * gap
    for i, s in enumerate(segs):
        if i:
            u += [np.nan] * gap
            parts += [False] * gap
        u += s
        parts += clean.GN2002(np.array(s, float), npt=npt).tolist()
    if ends & 2:
        u, parts = u + [np.nan] * gap, parts + [False] * gap
    return {"k": "gnsplit", "x": u and segs, "m": clean.GN2002(np.array(u, float), npt=npt).tolist(), "parts": parts}


def fill(x, m, t, npt, method, lim, poly, mdim, dt):
    """x rows; m rows (equal when mdim==1); flagged samples hold arbitrary values"""
    u = arr(x if len(x) > 1 else x[0], np.array(t) * 250, dt)
    if dt == "f8":
        u = u + FINE
    src = u.copy(deep=True)
    mm = np.array(m[0] if mdim == 1 else m)
    kw = {}
    if npt != 12:
        kw["npt"] = npt
    if method != "cubic":
        kw["method"] = method
    if lim != 6:
        kw["maxgap"] = lim
    tol = 3 if method == "linear" else 60
    ev = {"k": "fill", "x": x, "m": m, "t": list(t), "npt": npt, "method": method, "lim": lim, "poly": poly,
          "sc": SC if method == "linear" else 1000, "tol": tol, "raised": False, "exact": True, "out": []}
    st, o = guard(clean.clean_fill, u, mm, **kw)
    if st == "raise":
        ev["raised"], ev["what"] = True, o
    else:
        ev["out"] = rows(q(o.values, ev["sc"]))
        ev["exact"] = exact(src, o, m)
        if o.dims != u.dims or not np.array_equal(o.time.values, u.time.values):
            raise ValueError("coordinates changed")
    return ev


def mean(x, m, fs, window, mdim):
    u = arr(x if len(x) > 1 else x[0], dt="f8") + FINE
    keep = u.copy(deep=True)
    mm = np.array(m[0] if mdim == 1 else m)
    o = clean.fill_nan_ensemble_mean(u, mm, fs, window)
    return {"k": "mean", "x": x, "m": m, "nb": fs * window, "sc": SC, "out": rows(q(o.values, SC)),
            "exact": exact(keep, o, m),
            "mut": not keep.identical(u)}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev}
    ctx.emit(ev, case)


def poly(c, t):
    return [int(c[0] + s * (c[1] + s * (c[2] + s * c[3]))) for s in t]


def run(ctx):
    N = ctx.pick(8, 10)
    cases = ctx.mc("MCCleaning", ["CONSTANT N = %d" % N, "CONSTANT K = 3", "INIT CInit", "NEXT CNext",
                                  "INVARIANT Agrees", "INVARIANT Once", "INVARIANT Fresh",
                                  "INVARIANT NoInfluence", "INVARIANT Between", "INVARIANT Quiet",
                                  "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "N=%d" % N, cases=True)
    rng = ctx.np_rng(10)
    # -- replacement: every mask, as single series and stacked with others
    for i, b in enumerate(cases):
        n = len(b)
        b = [bool(v) for v in b]
        for r in range(ctx.pick(2, 6)):
            t = np.cumsum(rng.choice([1, 2, 3], size=n)).tolist() if rng.rand() < .6 else list(range(n))
            npt = int(rng.choice([1, 2, 3, 12]))
            lim = int(rng.choice([1, 2, 3, 6]))
            R = 1 if rng.rand() < .4 else 3
            mdim = 1 if R == 1 or rng.rand() < .5 else 2
            if mdim == 1:
                m = [b] * R
            else:
                others = [[bool(v) for v in rng.rand(n) < .3] for _ in range(2)]
                m = others + [b]
                m = [m[j] for j in rng.permutation(3)]
            tag = "%s|%d" % ("".join("01"[v] for v in b), r)
            x = rng.randint(-9, 10, size=(R, n))
            sp = rng.choice([-500, 77, 1000], size=(R, n))
            x = np.where(np.array(m), sp, x)
            if rng.rand() < .3:      # samples missing already
                miss = rng.rand(R, n) < .2
                x = np.where(miss, NAN, x)
            rec(ctx, "linear|" + tag, fill, x.tolist(), m, t, npt, "linear", lim, [[0] * 4] * R, mdim,
                ["f4", "f8"][r % 2])
            P = [[int(v) for v in rng.randint(-2, 3, size=4)] for _ in range(R)]
            y = np.where(np.array(m), sp, np.array([poly(c, t) for c in P]))
            if n >= 4:
                rec(ctx, "cubic|" + tag, fill, y.tolist(), m, t, npt, "cubic", lim, P, mdim, "f8")
            fs, w = [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (1, 5)][rng.randint(6)]
            if fs * w <= n:
                rec(ctx, "mean|" + tag, mean, x.tolist(), m, fs, w, mdim)
    # longer records with several gaps
    for i in range(ctx.pick(150, 1500)):
        n = int(rng.randint(10, 30))
        R = [1, 3][i % 2]
        m = (rng.rand(R, n) < [.1, .25, .5][i % 3]).tolist()
        t = np.cumsum(rng.choice([1, 1, 2], size=n)).tolist()
        x = np.where(np.array(m), 333, rng.randint(-9, 10, size=(R, n)))
        npt, lim = int(rng.choice([1, 2, 4, 12])), int(rng.choice([1, 2, 6]))
        rec(ctx, "longlin|%d" % i, fill, x.tolist(), m, t, npt, "linear", lim, [[0] * 4] * R, 2 if R > 1 else 1, "f8")
        P = [[int(v) for v in rng.randint(-2, 3, size=2)] + [int(rng.randint(-1, 2)), 0] for _ in range(R)]
        y = np.where(np.array(m), 333, np.array([poly(c, t) for c in P]))
        rec(ctx, "longcub|%d" % i, fill, y.tolist(), m, t, npt, "cubic", lim, P, 2 if R > 1 else 1, "f8")
        fs, w = [(1, 4), (2, 3), (4, 2), (3, 3)][i % 4]
        rec(ctx, "longmean|%d" % i, mean, x.tolist(), m, fs, w, 2 if R > 1 else 1)
    # -- flagging
    for i in range(ctx.pick(250, 3000)):
        n = int(rng.randint(1, 10))
        R = [1, 3, 1][i % 3]
        x = rng.randint(-7, 8, size=(R, n))
        if rng.rand() < .3:
            x = np.where(rng.rand(R, n) < .2, NAN, x)
        lo = int(rng.randint(-6, 3))
        hi = int(rng.randint(lo + 1, 8))
        if rng.rand() < .2:
            lo, hi = -5, 5
        rec(ctx, "range|%d" % i, rng_ev, x.tolist(), lo, hi, ["f4", "f8"][i % 2])
        off = int(rng.choice([0, 0, 25, -40]))
        y = np.where(x == NAN, NAN, x * int(rng.choice([1, 2, 4])) + off)
        rec(ctx, "spike|%d" % i, spike, y.tolist(), int(rng.choice([1, 2, 5, 10])), ["f4", "f8"][i % 2])
    # every position and component of one spike over a gentle background
    for i in range(ctx.pick(300, 3000)):
        npt = int(rng.randint(8, 17))
        n = int(rng.randint(6, 3 * npt))
        n = min(n, 40)
        if i % 5 == 0:           # several windows of npt samples
            npt = int(rng.randint(8, 11))
            n = int(rng.randint(3 * npt, 41))
        R = [1, 3][i % 2]
        x = rng.randint(-2, 3, size=(R, n))
        for s in range(rng.randint(0, 3)):
            x[rng.randint(R), rng.randint(n)] += int(rng.choice([-9, -7, 7, 9]))
        if rng.rand() < .1:
            x[rng.randint(R)] = 5
        if i % 5 and rng.rand() < .1:
            npt = 5000
        if n > 16 and npt == 5000:
            npt = 16
        rec(ctx, "gn|%d" % i, gn, x.tolist(), npt, bool(rng.randint(2)))
    for i in range(ctx.pick(40, 300)):
        k = int(rng.randint(4, 6))
        segs = [rng.randint(-3, 4, size=rng.randint(6, 15)).tolist() for _ in range(k)]
        for s in segs:
            if rng.rand() < .7:
                s[rng.randint(len(s))] += 30
        npt = int(rng.choice([10, 12, 20]))
        rec(ctx, "gnsplit|%d" % i, gnsplit, segs, npt, int(rng.randint(2, 5)), i % 4)
    for k in ("range", "spike", "gn", "gnsplit", "fill", "mean"):
        for e in ctx.events:
            if e["k"] == k and not e.get("raised"):
                e = copy.deepcopy(e)
                if k == "gn" and not any(len(set(r)) == 1 for r in e["x"]):
                    continue
                if k in ("range", "spike"):
                    e["m"][0][0] = not e["m"][0][0]
                elif k == "gn":
                    r = [j for j in range(len(e["x"])) if len(set(e["x"][j])) == 1][0]
                    e["m"][r][0] = True
                elif k == "gnsplit":
                    e["m"][0] = not e["m"][0]
                else:
                    e["out"][0][0] += 500
                    if e["out"][0][0] > NAN:
                        continue
                ctx.canary(e)
                break
