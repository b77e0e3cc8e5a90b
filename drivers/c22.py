"""Turbulence statistics of point records (ADVBinner)."""
import copy
import json
import math
import warnings
import numpy as np
import xarray as xr
from dolfyn.adv.turbulence import ADVBinner, calc_turbulence
from vlib.core import q, guard, NAN

SPEC = "AdvTurb"
SC = 1000
T0 = np.datetime64("2021-03-04T05:06:07", "ns")


def fl(a):
    """floats as <<mantissa, exponent>> with 15 bits, elementwise"""
    a = np.asarray(a, float)
    if a.ndim:
        return [fl(v) for v in a]
    v = float(a)
    if not math.isfinite(v):
        return [0, 9999]
    if v == 0:
        return [0, 0]
    m, e = math.frexp(abs(v))
    k = int(round(m * 32768))
    if k == 32768:
        k, e = 16384, e + 1
    return [k if v > 0 else -k, e - 15]


def times(rng, n):
    off = np.cumsum(rng.choice([125, 250, 1000], size=n))
    return [int(v) for v in off], T0 + off.astype("timedelta64[ms]")


def msoff(da):
    return q((np.asarray(da.time.values, float) - float(T0.astype(float))) / 1e6
             if da.time.dtype.kind != "M" else (da.time.values - T0).astype(float) / 1e6)


def tms(t):
    """bin-mean times come back as datetime64 or as float"""
    t = np.asarray(t)
    if t.dtype.kind == "M":
        return q((t - T0).astype("timedelta64[us]").astype(float) / 1e3)
    return q(t.astype(float) / 1e6 - float((T0 - np.datetime64(0, "ns")) / np.timedelta64(1, "ms")))


def ints(x):
    return np.where(np.isnan(x), NAN, np.nan_to_num(x)).astype(np.int64).tolist()


def vel(rng, n, lo=-8, hi=9, rows=3, miss=0.):
    x = rng.randint(lo, hi, (rows, n)).astype(float)
    if miss:
        x[rng.rand(rows, n) < miss] = np.nan
    return x


def nbin(rng, o):
    if o["frac"]:
        p, d = [(9, 2), (7, 2), (16, 3), (23, 4), (13, 2)][rng.randint(5)]
    else:
        p, d = int(rng.choice([3, 4, 5, 6, 7, 8])), 1
    return p, d


def da(x, t, dims=("dir", "time"), dt="f8"):
    c = {"time": t}
    if "dir" in dims:
        c["dir"] = ["E", "N", "U"]
    if "range" in dims:
        c["range"] = .5 + np.arange(x.shape[0])
    return xr.DataArray((x / 8).astype(dt), dims=dims, coords=c)


def same(a, b):
    return a.identical(b) and repr(a.attrs) == repr(b.attrs)


def tke(ctx, rng, i, o, nm, one):
    p, d = nbin(rng, o)
    nb = int(rng.randint(1, 5))
    n = int(np.ceil(p * nb / d)) + int(rng.randint(0, 2))
    nb = n * d // p
    rows = 1 if one == 1 else (int(rng.randint(2, 4)) if one == 2 else 3)
    x = vel(rng, n, rows=rows, miss=0 if o["dt"] else [0, .15][i % 2])
    off, t = times(rng, n)
    # a mean of 512 m/s beside the fluctuations, in some
    v = da((x if one != 1 else x[0]) + [0, 4096][i // 3 % 2], t, ("dir", "time") if not one else ("time",) if one == 1 else ("range", "time"),
           "f8" if o["f8"] else "f4")
    if one == 2:
        v = v.assign_coords(range=np.arange(rows) * 1.)
    b = ADVBinner(p / d if d > 1 else p, fs=4.)
    forms = {"none": (None, []), "scalar": None, "vector": None, "matrix": None}
    k = rng.randint(0, 5, (rows, nb))
    noise, lg = forms["none"]
    if o["noise"] != "none":
        if one:
            if o["noise"] == "scalar" or (o["noise"] == "vector" and one == 2):
                noise, lg = float(k[0, 0]) / 8, [[int(k[0, 0])]]
            elif o["noise"] == "vector":
                noise, lg = k[0] / 8, [k[0].tolist()]
            else:
                noise, lg = (k / 8 if one == 2 else k[0] / 8), k.tolist()
            if i % 3 == 0:
                noise = xr.DataArray(noise)
        elif o["noise"] == "vector" or o["noise"] == "scalar":
            noise = [(k[:, 0] / 8).tolist(), k[:, 0] / 8, xr.DataArray(k[:, 0] / 8, dims=["S"])][i % 3]
            lg = k[:, :1].tolist()
        else:
            noise, lg = [k / 8, xr.DataArray(k / 8, dims=["S", "time"])][i % 2], k.tolist()
    s, nz = v.copy(deep=True), copy.deepcopy(noise)
    r = b.calc_tke(v, noise=noise, detrend=o["dt"]) if i % 5 or not o["dt"] else b.calc_tke(v, noise=noise)
    out = r.values if r.ndim == 2 else r.values[None]
    full = not one
    ok = r.dims == (("tke", "time") if full else v.dims) and \
        (one != 2 or np.array_equal(r["range"], v["range"]))
    ctx.emit({"k": "tke", "x": [ints(w) for w in x], "p": p, "q": d, "dt": o["dt"], "noise": lg,
              "out": q(out * 64, SC), "sc": SC, "vt": 2, "full": full, "tm": off, "t": tms(r.time.values) if ok else [],
              "lab": [str(s_) for s_ in r["tke"].values] if full else [],
              "mut": not same(v, s) or not np.array_equal(noise, nz)}, nm)


def stress(ctx, rng, i, o, nm):
    p, d = nbin(rng, o)
    n = int(np.ceil(p * rng.randint(1, 5) / d)) + int(rng.randint(0, 2))
    x = vel(rng, n)
    if not o["dt"] and i % 2:
        x[:, rng.rand(n) < .15] = np.nan      # a sample is missing as a whole
    off, t = times(rng, n)
    v = da(x + [0, 4096][i // 3 % 2], t, dt="f8" if o["f8"] else "f4")
    s = v.copy(deep=True)
    b = ADVBinner(p / d if d > 1 else p, fs=4.)
    r = b.calc_stress(v, detrend=o["dt"]) if i % 5 or not o["dt"] else b.calc_stress(v)
    ctx.emit({"k": "stress", "x": [ints(w) for w in x], "p": p, "q": d, "dt": o["dt"], "out": q(r.values * 64, SC),
              "sc": SC, "vt": 2, "tm": off, "t": tms(r.time.values), "lab": [str(v_) for v_ in r["tau"].values],
              "mut": not same(v, s)}, nm)


def ti(ctx, rng, i, o, nm):
    p, d = nbin(rng, o)
    n = int(np.ceil(p * rng.randint(2, 5) / d)) + int(rng.randint(0, 2))
    rows = [1, 1, 3][i % 3]
    x = vel(rng, n, 1, 12, rows=rows, miss=0 if o["dt"] else [0, .15][i % 2])
    th = [0, 5, 6][rng.randint(3)]
    if i % 4 == 1 and d == 1:
        x[0, :p] = 6 + (np.arange(p) - (p - 1) // 2) * (p % 2) if p % 2 else 6 + np.arange(p) % 2 * 2 - 1
        th = 6                      # the mean speed of a bin at the threshold
    off, t = times(rng, n)
    v = da(x, t, ("range", "time"), "f8" if o["f8"] else "f4")
    if rows == 1:
        v = v.isel(range=0, drop=True)
    kn = 0 if o["noise"] == "none" else int(rng.randint(1, 4))
    noise = [kn / 8, xr.DataArray(kn / 8)][i % 2]
    s = v.copy(deep=True)
    b = ADVBinner(p / d if d > 1 else p, fs=4.)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = b.calc_ti(v, noise=noise, thresh=th / 8, detrend=o["dt"])
    out = r.values if rows > 1 else r.values[None]
    ctx.emit({"k": "ti", "x": [ints(w) for w in x], "p": p, "q": d, "dt": o["dt"], "noise": [[kn]], "thresh": th,
              "out": fl(out), "tm": off, "t": tms(r.time.values) if r.dims == v.dims else [],
              "mut": not same(v, s)}, nm)


def full(ctx, rng, i, o, nm):
    p, d = [(8, 1), (9, 2), (6, 1), (13, 2), (7, 1)][i % 5] if not o["frac"] else [(9, 2), (13, 2)][i % 2]
    nb = int(rng.randint(1, 4))
    n = int(np.ceil(p * nb / d)) + int(rng.randint(0, 2))
    nb = n * d // p
    x = vel(rng, n)
    off, t = times(rng, n)
    fs = 4.
    ds = xr.Dataset(coords={"time": t, "dir": ["E", "N", "U"]})
    ds["vel"] = da(x, t, dt="f8" if o["f8"] else "f4")
    ds["pressure"] = (("time",), rng.rand(n))
    ds.attrs.update(fs=fs, coord_sys="earth", inst_make="Nortek", inst_model="Vector", rotate_vars=["vel"],
                    config={"a": 1}, config_b=[1, 2], serial=12, inst2head_vec=np.arange(3.))
    kn = rng.randint(0, 3, 3)
    noise = []
    if o["noise"] != "none":
        ds["doppler_noise"] = (("S",), kn / 8)
        noise = [[int(k)] for k in kn]
    s, sa = ds.copy(deep=True), copy.deepcopy(ds.attrs)
    hz = bool(i % 2)
    win = ["hann", "hamm", None][i % 3]
    nf = None if i % 3 == 0 else int(p // d) // 2 * 2
    nbv = p / d if d > 1 else p
    b = ADVBinner(nbv, fs=fs, n_fft=nf)
    kw = dict(freq_units="Hz" if hz else "rad/s", window=win)
    st, r = guard(lambda: calc_turbulence(ds, n_bin=nbv, fs=fs, n_fft=nf, **kw) if i % 4 == 3 else b(ds, **kw))
    ev = {"k": "full", "x": [ints(w) for w in x], "p": p, "q": d, "dt": True, "noise": noise, "sc": SC, "vt": 3,
          "err": "" if st == "ok" else r, "mut": not s.identical(ds) or repr(sa) != repr(ds.attrs), "tm": off}
    if st == "ok":
        ps = b.calc_psd(ds["vel"], noise=ds.get("doppler_noise", [0, 0, 0]), **kw)
        want = {k: repr(v) for k, v in sa.items() if "config" not in k}
        want.update(n_bin=repr(b.n_bin), n_fft=repr(b.n_fft), n_fft_coh=repr(b.n_fft_coh))
        got = {k: repr(v) for k, v in r.attrs.items()}
        ev.update(avg=[[v for v in w] for w in np.array(q(r["vel"].values * 8, SC)).tolist()],
                  tke=q(r["tke_vec"].values * 64, SC), stress=q(r["stress_vec"].values * 64, SC),
                  psd=fl(r["psd"].values), psd0=fl(ps.values), t=tms(r["tke_vec"].time.values),
                  attrs=sorted(json.dumps(kv) for kv in got.items()), attrs0=sorted(json.dumps(kv) for kv in want.items()))
    ctx.emit(ev, nm)


def acov(ctx, rng, i, o, nm):
    n = int(rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 12]))
    nb = int(rng.randint(2, 5))
    ln = n * nb + int(rng.randint(0, 3))
    rows = [3, 1][i % 2]
    x = vel(rng, ln, rows=rows)
    off, t = times(rng, ln)
    v = da(x, t, dt="f8" if o["f8"] else "f4") if rows == 3 else da(x[0], t, ("time",), "f8" if o["f8"] else "f4")
    s = v.copy(deep=True)
    b = ADVBinner(n if i % 3 else n + 1, fs=4.)
    r = b.calc_acov(v) if i % 3 else b.calc_acov(v, n_bin=n)
    out = r.values if rows == 3 else r.values[None]
    ctx.emit({"k": "acov", "x": [ints(w) for w in x], "n": n, "out": q(out * 64, SC), "sc": SC, "vt": 4,
              "lag": q(r["lag"].values), "tm": off, "t": tms(r.time.values), "mut": not same(v, s)}, nm)


def xcov(ctx, rng, i, o, nm):
    n = int(rng.choice([3, 4, 5, 6, 7, 8]))
    nb = int(rng.randint(1, 5))
    npt = [1, 2, 3, 4][i % 4] if nb > 2 else 1
    npt = min(npt, n)
    ln = n * nb
    x, y = vel(rng, ln, rows=1), vel(rng, ln, rows=1)
    off, t = times(rng, ln)
    dt = "f8" if o["f8"] else "f4"
    a, c = da(x[0], t, ("time",), dt), da(y[0], t, ("time",), dt)
    s1, s2 = a.copy(deep=True), c.copy(deep=True)
    b = ADVBinner(n if i % 3 else n + 2, fs=4.)
    nrm = o["dt"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = b.calc_xcov(a, c, npt=npt, normed=nrm) if i % 3 else b.calc_xcov(a, c, npt=npt, n_bin=n, normed=nrm)
    ctx.emit({"k": "xcov", "x": ints(x[0]), "y": ints(y[0]), "n": n, "npt": npt, "normed": nrm,
              "out": fl(r.values * (1 if nrm else 64)), "mut": not (same(a, s1) and same(c, s2))}, nm)


def psd_da(s, f, unit, t0=True, dims=("S", "time", "freq"), dt="f4"):
    s = np.asarray(s, float)
    c = {"freq": np.asarray(f).astype("f4")}
    if "time" in dims:
        c["time"] = np.arange(s.shape[dims.index("time")]) * 10.
    if "S" in dims:
        c["S"] = ["Sxx", "Syy", "Szz"]
    d = xr.DataArray(s.astype(dt), dims=dims, coords=c)
    d["freq"].attrs["units"] = unit
    return d


def spec_setup(rng, rad, nf=None):
    fs = int(rng.choice([4, 8, 16]))
    nf = nf or int(rng.choice([8, 12, 16, 20]))
    f = np.arange(1, nf // 2 + 1) * fs / nf * (2 * np.pi if rad else 1)
    return fs, nf, f, ["Hz", "rad s-1"][rad]


def dn(ctx, rng, i, o, nm):
    rad = bool(i % 2)
    fs, nf, f, unit = spec_setup(rng, rad)
    nb = int(rng.randint(1, 4))
    s = rng.randint(1, 40, (3, nb, nf // 2))
    p = psd_da(s, f, unit, dt="f8" if o["f8"] else "f4")
    pn, pd = [(4, 5), (1, 2), (3, 5), (7, 10), (9, 10)][rng.randint(5)]
    b = ADVBinner(nf, fs=fs)
    s0 = p.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = b.calc_doppler_noise(p, pct_fN=pn / pd) if (pn, pd) != (4, 5) else b.calc_doppler_noise(p)
    lab = r.dims == ("S", "time") and np.array_equal(r.S, p.S) and np.array_equal(r.time, p.time)
    ctx.emit({"k": "dn", "s": s.tolist(), "fs": fs, "nf": nf, "rad": rad, "pn": pn, "pd": pd, "out": fl(r.values),
              "lab": bool(lab), "mut": not same(p, s0)}, nm)


def slope(ctx, rng, i, o, nm):
    nf = int(rng.randint(4, 9))
    lf = np.sort(rng.choice(np.arange(-5, 6), nf, replace=False))
    nb = int(rng.randint(1, 4))
    ls = rng.randint(-4, 5, (nb, nf))
    lo, hi = 0, 0
    while ((lo < 2 * lf) & (2 * lf < hi)).sum() < 2:
        lo, hi = sorted(int(v) for v in rng.choice(np.arange(-11, 12, 2), 2, replace=False))
    p = psd_da(10. ** ls, 10. ** lf, "Hz", dims=("time", "freq"), dt="f8")
    p = p.assign_coords(freq=10. ** lf)
    if i % 3 == 0:
        p, ls = p.isel(time=0, drop=True), ls[:1]
    s0 = p.copy(deep=True)
    m, c = ADVBinner(nf, fs=8).check_turbulence_cascade_slope(p, freq_range=[10 ** (lo / 2), 10 ** (hi / 2)])
    ctx.emit({"k": "slope", "lf": lf.tolist(), "ls": ls.tolist(), "lo": lo, "hi": hi,
              "m": q(np.atleast_1d(m), 1000), "b": q(np.atleast_1d(c), 1000), "mut": not same(p, s0)}, nm)


def band(rng, nf, fs, rad):
    """limits between grid points, in half steps of the grid"""
    K = nf // 2
    a, z = sorted(rng.choice(np.arange(0, K + 1), 2, replace=False))
    lo, hi = 2 * int(a) + 1, 2 * int(z) + 1
    u = fs / nf / 2 * (2 * np.pi if rad else 1)
    return lo, hi, [lo * u, hi * u]


def lt(ctx, rng, i, o, nm):
    rad = bool(i % 2)
    fs, nf, f, unit = spec_setup(rng, rad)
    nb = int(rng.randint(1, 4))
    one = i % 3 == 2
    C = 1 if one else 3
    s = rng.randint(1, 60, (C, nb, nf // 2))
    u = rng.randint(1, 20, nb)
    dims = ("time", "freq") if one else ("S", "time", "freq")
    p = psd_da(s[0] / 64 if one else s / 64, f, unit, dims=dims, dt="f8" if o["f8"] else "f4")
    U = xr.DataArray(u / 8, dims=["time"], coords={"time": p.time})
    noise, lg = None, []
    k = rng.randint(0, 12, (C, nb))
    if o["noise"] == "scalar" or (one and o["noise"] == "vector"):
        noise, lg = float(k[0, 0]) / 16, [[int(k[0, 0])]]
    elif o["noise"] == "vector":
        noise, lg = k[:, 0] / 16, k[:, :1].tolist()
        if i % 4 == 0:
            noise = xr.DataArray(noise, dims=["S"], coords={"S": p.S})
    elif o["noise"] == "matrix":
        noise, lg = (k[0] if one else k) / 16, k.tolist()
        if i % 4 == 0:
            noise = xr.DataArray(noise, dims=dims[:-1], coords={d: p[d] for d in dims[:-1]})
    lo, hi, fr = band(rng, nf, fs, rad)
    b = ADVBinner(nf, fs=fs)
    s0, u0, n0 = p.copy(deep=True), U.copy(deep=True), copy.deepcopy(noise)
    st, r = guard(b.calc_epsilon_LT83, p, U, freq_range=[fr, tuple(fr)][i % 2], noise=noise)
    ctx.emit({"k": "lt", "s": s.tolist(), "ssc": 64, "fs": fs, "nf": nf, "rad": rad, "u": u.tolist(), "usc": 8,
              "noise": lg, "nsc": 16, "lo": lo, "hi": hi, "err": "" if st == "ok" else r,
              "out": (fl(r.values[None] if one else r.values) if st == "ok" and r.dims == dims[:-1] else []),
              "mut": not (same(p, s0) and same(U, u0) and np.array_equal(noise, n0))},
             nm + ("|rad" if rad else "|hz") + ("|noise" if lg else ""))


def sf(ctx, rng, i, o, nm):
    n, nb = int(rng.randint(6, 13)), int(rng.randint(1, 4))
    ln = n * nb + int(rng.randint(0, 3))
    x = vel(rng, ln, rows=1, miss=[0, 0, .1][i % 3])
    off, t = times(rng, ln)
    v = da(x[0], t, ("time",), "f8" if o["f8"] else "f4")
    fs = 12
    l0, l1 = sorted(int(w) for w in rng.choice([1, 2, 3, 4, 5, 6], 2, replace=False))
    if i % 4 == 0:
        fs, l0, l1 = 4, 1, 2
    l1 = min(l1, n)
    u = rng.randint(1, 12, nb)
    U = xr.DataArray(u / 1., dims=["time"], coords={"time": np.arange(nb) * 1.})
    b = ADVBinner(n, fs=fs if i % 2 else fs * 2)
    s0, u0 = v.copy(deep=True), U.copy(deep=True)
    kw = {} if i % 2 else {"fs": fs}
    if i % 4:
        kw["freq_range"] = [fs / l1, fs / l0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = b.calc_epsilon_SF(v, U, **kw)
    ctx.emit({"k": "sf", "x": ints(x[0]), "p": n, "q": 1, "fs": fs, "l0": l0, "l1": l1, "u": u.tolist(),
              "out": fl(r.values), "mut": not (same(v, s0) and same(U, u0))}, nm)


def te(ctx, rng, i, o, nm):
    rad = bool(i % 3)
    fs, nf, f, unit = spec_setup(rng, rad)
    nb = int(rng.randint(1, 4))
    n = int(rng.randint(3, 9))
    mean, ratio, cosv, raw, u = [], [], [], [], []
    for b in range(nb):
        # axis of the fluctuations and direction of the mean, both with exact cosines
        ang = [((4, 3), (4, 3), 5), ((0, 1), (3, 4), 4), ((0, 1), (-4, 3), 3), ((3, 4), (5, 0), 3),
               ((-3, 4), (0, -5), -4), ((3, 4), (4, -3), 0), ((0, 1), (0, 5), 5), ((-4, 3), (4, -3), -5)][rng.randint(8)]
        (ax, ay), (mu, mv), c = ang
        k = rng.randint(1, 6, n) * rng.choice([-1, 1], n)
        k[-1] -= k.sum() - (0 if False else 0)
        while k[-1] == 0 or k.sum() != 0:
            k = rng.randint(1, 6, n) * rng.choice([-1, 1], n)
            k[-1] -= k.sum()
        if n % 4 == 0 and rng.rand() < .7:
            # fluctuations of many directions: those of the upper half plane add up to the axis
            ax, ay = (0, 4) if ax == 0 else (ax, ay)
            v = np.array([[4, 1], [ax - 4, ay - 1]]).T * int(rng.randint(1, 3))
            raw.append(np.tile(np.concatenate([v, -v], 1), n // 4)[:, rng.permutation(n)] / 8)
        else:
            raw.append(np.stack([k * ax, k * ay]) / 8)
        g = int(rng.randint(1, 4))
        mean.append([mu * g, mv * g])
        cosv.append(c)
        u.append(5 * g)
        ratio.append([1, 2, 4, 8][rng.randint(4)])
    raw = np.concatenate(raw, -1)
    dt = "f8" if o["f8"] else "f4"
    off, t = times(rng, n * nb)
    w = np.concatenate([raw, rng.randint(-4, 5, (1, n * nb))])
    ds = xr.Dataset(coords={"time": t, "dir": ["E", "N", "U"]})
    ds["vel"] = (("dir", "time"), w.astype(dt))
    ds.attrs.update(fs=float(fs), coord_sys="earth", inst_make="Nortek", inst_model="Vector", rotate_vars=["vel"])
    b = ADVBinner(n, fs=fs)
    av = xr.Dataset(coords={"time": np.arange(nb) * 10., "dir": ["E", "N", "U"], "tke": ["upup_", "vpvp_", "wpwp_"]})
    av["vel"] = (("dir", "time"), np.concatenate([np.array(mean, float).T, np.ones((1, nb))]).astype(dt))
    # the three components' energies sum to (ratio * speed)^2
    E = (np.array(ratio) / 4 * np.array(u)) ** 2
    av["tke_vec"] = (("tke", "time"), np.stack([E * .5, E * .25, E * .25]).astype(dt), {"units": "m2 s-2"})
    s = rng.randint(1, 60, (3, nb, nf // 2))
    av["psd"] = psd_da(s / 64, f, unit, dt=dt)
    av["psd"].freq.attrs["units"] = unit
    av.attrs.update(ds.attrs)
    lo, hi, fr = band(rng, nf, fs, rad)
    s0, s1 = ds.copy(deep=True), av.copy(deep=True)
    st, r = guard(b.calc_epsilon_TE01, ds, av, freq_range=fr)
    ctx.emit({"k": "te", "s": s.tolist(), "ssc": 64, "fs": fs, "nf": nf, "rad": rad, "lo": lo, "hi": hi, "u": u,
              "ratio": ratio, "cos": cosv, "err": "" if st == "ok" else r, "out": fl(r.values) if st == "ok" else [],
              "mut": not (s0.identical(ds) and s1.identical(av))}, nm)


def lint(ctx, rng, i, o, nm):
    nb, nl = int(rng.randint(1, 4)), int(rng.randint(2, 7))
    a = rng.randint(-60, 101, (3, nb, nl))
    a[..., 0] = rng.randint(60, 101, (3, nb))
    if i % 3 == 0:
        a = np.maximum(a, 45)
    u = rng.randint(0, 20, nb)
    fs = int(rng.choice([2, 4, 5, 8]))
    ac = xr.DataArray(a / 16., dims=["dir", "time", "lag"], coords={"dir": ["E", "N", "U"], "time": np.arange(nb) * 1.})
    U = xr.DataArray(u / 1., dims=["time"], coords={"time": ac.time})
    b = ADVBinner(16, fs=fs if i % 2 else 99)
    s0 = ac.copy(deep=True)
    r = b.calc_L_int(ac, U) if i % 2 else b.calc_L_int(ac, U, fs=fs)
    ctx.emit({"k": "lint", "a": a.tolist(), "u": u.tolist(), "fs": fs, "out": q(r.values, 1000),
              "mut": not same(ac, s0)}, nm)


def refusals(ctx, rng):
    b = ADVBinner(4, fs=4.)
    off, t = times(rng, 12)
    v = da(vel(rng, 12), t)
    p = psd_da(np.ones((3, 2, 4)), np.arange(1, 5) * 1., "Hz")
    U = xr.DataArray(np.ones(3), dims=["time"])
    U2 = xr.DataArray(np.ones(2), dims=["time"])
    ranged = xr.DataArray(np.ones((3, 2, 12)), dims=("dir", "range", "time"), coords={"time": t})
    for nm, f in (("noise-of-two", lambda: b.calc_tke(v, noise=[0, 0])),
                  ("profile", lambda: b.calc_tke(ranged)),
                  ("speed-not-averaged", lambda: b.calc_epsilon_LT83(p, U)),
                  ("range-of-three", lambda: b.calc_epsilon_LT83(p, U2, freq_range=[1, 2, 3])),
                  ("range-scalar", lambda: b.calc_epsilon_LT83(p, U2, freq_range=2)),
                  ("lt-noise-of-two", lambda: b.calc_epsilon_LT83(p, U2, noise=np.array([0., 0.]))),
                  ("sf-vector", lambda: b.calc_epsilon_SF(v, U))):
        st, r = guard(f)
        ctx.emit({"k": "rel", "rel": "accepted-" + nm, "ok": st == "raise"}, "refuse|" + nm)
    # a record at another rate than the binner's
    ds = xr.Dataset(coords={"time": t, "dir": ["E", "N", "U"]})
    ds["vel"] = v
    ds.attrs.update(fs=8., coord_sys="earth", inst_make="Nortek", inst_model="Vector", rotate_vars=["vel"])
    st, r = guard(b, ds)
    ctx.emit({"k": "rel", "rel": "accepted-other-rate", "ok": st == "raise"}, "refuse|rate")


FN = {"stress": stress, "ti": ti, "full": full, "acov": acov, "xcov": xcov, "dn": dn, "slope": slope, "lt": lt,
      "sf": sf, "te": te, "lint": lint}


def run(ctx):
    cases = ctx.mc("MCAdvTurb", ["CONSTANT NN = %d" % ctx.pick(4, 5), "INIT Init", "NEXT Next",
                                 "INVARIANT NonNeg LessThanDemeaned NoLine Symmetric Schwarz Residuals Lag0 SelfX",
                                 "INVARIANT Export", "CHECK_DEADLOCK FALSE"], "records", cases=True)
    rng = ctx.np_rng(1)
    for rep in range(ctx.pick(2, 40)):
        for j, c in enumerate(cases):
            k, o = c["k"], c["o"]
            i = j + rep * 7 + (rep // 6)
            nm = "%s|%d|%d" % (k, j, rep)
            if k in ("tke", "tke1"):
                tke(ctx, rng, i, o, nm, 0 if k == "tke" else 1 + i % 2)
            else:
                FN[k](ctx, rng, i, o, nm)
            if k == "acov":
                lint(ctx, rng, i, o, "lint|%d|%d" % (j, rep))
    refusals(ctx, rng)
    for k, path in (("tke", ("out", 0, 0)), ("stress", ("out", 1, 0)), ("acov", ("out", 0, 1, 0))):
        for e in ctx.events:
            if e["k"] == k:
                c = json.loads(json.dumps(e))
                v = c
                for p in path[:-1]:
                    v = v[p]
                v[path[-1]] += 900
                ctx.canary(c)
                break
    for k in ("ti", "dn", "lt", "sf", "te", "xcov"):
        for e in ctx.events:
            o = e.get("out")
            if e["k"] == k and o and not (k == "xcov" and (e["npt"] > 1 or e["normed"])):
                c = json.loads(json.dumps(e))
                v = c["out"]
                while isinstance(v[0][0], list):
                    v = v[0]
                if v[0][0] in (0,) or abs(v[0][1]) > 60:
                    continue
                v[0][1] += 2
                ctx.canary(c)
                break
