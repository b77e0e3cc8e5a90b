"""do_avg / do_var over whole datasets."""
import copy
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.binned import TimeBinner
from vlib.core import q, guard, NAN

SPEC = "Averaging"
SC = 1000
UV = [(3, 4), (-4, 3), (0, 5), (-5, 0), (6, 8), (8, -6), (0, 0), (-3, -4), (0, -10)]
BIG = 2. ** 14 + .3     # nothing narrower than f8 holds these well
T0 = np.datetime64("2021-03-04T05:06:07.5", "ns")


def taxis(rng, n):
    off = np.cumsum(rng.choice([100, 250, 1000], size=n))
    return off, T0 + off.astype("timedelta64[ms]")


def dataset(rng, n, n2, nz, dt, miss, fs):
    off, t = taxis(rng, n)
    off2, t2 = taxis(rng, n2)
    uv = np.array(UV, float)[rng.randint(0, len(UV), size=(nz, n))]
    vel = np.stack([uv[..., 0], uv[..., 1], rng.randint(-9, 10, size=(nz, n))])
    vel = np.where(rng.rand(3, nz, n) < miss, np.nan, vel).astype(dt)
    ds = xr.Dataset(coords={"time": t, "time_b5": t2, "dir": ["E", "N", "U"],
                            "beam": [1, 2, 3, 4], "earth": ["E", "N", "U"], "inst": ["X", "Y", "Z"],
                            "x1": [1, 2, 3, 4], "x2": [1, 2, 3, 4],
                            "range": .5 + np.arange(nz), "range_b5": 1. + np.arange(2)})
    if nz == 1:
        ds["vel"] = (("dir", "time"), vel[:, 0])
        ds = ds.drop_vars("range")
    else:
        ds["vel"] = (("dir", "range", "time"), vel)
        ds["amp"] = (("beam", "range", "time"),
                     rng.randint(0, 200, size=(4, nz, n)).astype(["uint8", "int16", "f4"][rng.randint(3)]))
    ds["vel_b5"] = (("range_b5", "time_b5"), np.where(rng.rand(2, n2) < miss, np.nan,
                                                     rng.randint(-9, 9, size=(2, n2))).astype(dt))
    ds["pressure"] = (("time",), np.where(rng.rand(n) < miss, np.nan, rng.randint(0, 90, size=n)).astype(dt))
    ds["density"] = (("time",), rng.randint(0, 90, size=n).astype("i2"))
    ds["count"] = (("time",), BIG + rng.randint(0, 90, size=n))
    ds["temp"] = (("time",), rng.randint(0, 20, size=n).astype("i4"))
    ds["down"] = (("time",), rng.rand(n) < .5)
    ds["ensemble"] = (("time",), np.arange(n))
    ds["orientmat"] = (("earth", "inst", "time"), rng.randint(-1, 2, size=(3, 3, n)).astype(dt))
    ds["beam2inst_orientmat"] = (("x1", "x2"), rng.randint(-5, 6, size=(4, 4)).astype(float))
    ds["alt_scale"] = ((), np.float32(2.))
    for v in ds.data_vars:
        ds[v].attrs.update(units="u_" + v, long_name="name " + v)
    ds.attrs.update(coord_sys="earth", fs=fs, inst_make="Nortek", inst_model="Signature1000",
                    rotate_vars=["vel"], serial=int(rng.randint(99)), note="a")
    return ds, off, off2


def rows(a):
    a = np.asarray(a)
    return a.reshape((-1, a.shape[-1])) if a.ndim else a.reshape(1, 1)


def rawview(ds, off, off2):
    res = []
    for v in ds.data_vars:
        d = ds[v]
        tm = [x for x in d.dims if "time" in x]
        res.append({"name": v, "dims": list(d.dims), "time": bool(tm),
                    "counter": "ensemble" in v, "altraw": any("altraw" in x for x in d.dims),
                    "big": v == "count", "v": q(rows(d.values).astype(float) - (BIG if v == "count" else 0)),
                    "t": (off if tm and tm[0] == "time" else off2).tolist()})
    return res


def outview(out, ds):
    res = []
    if out is None:
        return res
    for v in out.data_vars:
        d = out[v]
        base = v[:-4] if v.endswith("_var") else v
        src = ds[base] if base in ds else None
        tm = [x for x in d.dims if "time" in x]
        others = all(np.array_equal(d[x].values, ds[x].values) for x in d.dims
                     if x not in tm and x in ds.coords)
        t = []
        if tm and tm[0] in out.coords:
            t = q((out[tm[0]].values - T0) / np.timedelta64(1, "ms"))
        val = np.asarray(d.values, float)
        res.append({"name": v, "dims": list(d.dims), "others": bool(others), "t": t,
                    "v": q(rows(val ** 2 if v == "U_std" else val), SC),
                    # the units of a variance are those of a square, which ones is for C26
                    "attrs": src is not None and all(d.attrs.get(k) == src.attrs.get(k) for k in set(d.attrs) | set(src.attrs)
                                                     if k != "units" or base == v),
                    "same": src is not None and src.shape == d.shape and
                    np.array_equal(np.asarray(src.values, float), val, equal_nan=True)})
    return res


def history(ctx, case, rng, hist, n, n2, p, qq, nz, dt, miss):
    fs = int(rng.randint(1, 9))
    nb = p // qq if p % qq == 0 else p / qq
    cls = [dolfyn.VelBinner, dolfyn.adv.turbulence.ADVBinner][rng.randint(2)] if nz == 1 else dolfyn.VelBinner
    ds, off, off2 = dataset(rng, n, n2, nz, dt, miss, fs)
    names = {"all": None, "one": ["pressure"],
             "two": ["amp", "vel"] if nz > 1 else ["temp", "vel"]}
    out = None
    for i, h in enumerate(hist):
        par = h["par"]
        b = cls(n_bin=nb + (1 if par == "nbin" else 0), fs=fs + (1 if par == "fs" else 0),
                n_fft=(max(1, int(nb) - 1) if par == "nfft" else None))
        src = ds
        if par == "rawattr":
            src = ds.copy(deep=True)
            src.attrs["note"] = "b"
        if i and rng.rand() < .4:             # another record of the same kind
            src = src.copy(deep=True)
            for v in ("pressure", "temp", "density"):
                src[v] = (src[v].dims, src[v].values + 1 + i, src[v].attrs)
        raw = rawview(src, off, off2)
        nm = names[h["sel"]]
        before = src.copy(deep=True)
        nmb = copy.deepcopy(nm)
        pre = outview(out, ds)
        st, r = guard(b.do_avg if h["op"] == "avg" else b.do_var, src, out, nm) if i else \
            guard(b.do_avg if h["op"] == "avg" else b.do_var, src, names=nm)
        if st == "ok":
            if out is not None and r is not out:
                raise ValueError("not the same output")
            out = r
        agree = par == "same"
        ev = {"k": "step", "op": h["op"], "names": nm if nm is not None else list(ds.data_vars),
              "p": p, "q": qq, "sc": SC, "vt": 1, "agree": agree, "refused": st == "raise",
              "raw": raw, "pre": pre, "post": outview(out, ds),
              "attrs": st == "raise" or all(out.attrs.get(k) == v for k, v in src.attrs.items())
              and out.attrs["n_bin"] == nb and out.attrs["n_fft"] == b.n_fft and out.attrs["fs"] == fs,
              "mut": not before.identical(src) or nm != nmb}
        if st == "raise":
            ev["what"] = r
        ctx.emit(ev, "%s|%d" % (case, i))


def run(ctx):
    L = 3
    cases = ctx.mc("MCAveraging", ["CONSTANT L = %d" % L, "INIT HInit", "NEXT HNext",
                                   "INVARIANT Exactly", "INVARIANT Commute",
                                   "PROPERTY Monotone",
                                   "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "L=3", cases=True)
    rng = ctx.np_rng(7)
    ctx.rng.shuffle(cases)
    for i, h in enumerate(cases[:ctx.pick(160, 2500)]):
        qq = [1, 1, 1, 2][i % 4]
        p = int(rng.randint(2, 8)) if qq == 1 else int(rng.choice([5, 7, 9]))
        lo = -(-p // qq)
        n = int(rng.randint(lo, 3 * lo + 4))
        n2 = int(rng.randint(lo + 1, 3 * lo + 4))
        try:
            history(ctx, "h|%d" % i, rng, h, n, n2, p, qq, [1, 2, 3][i % 3],
                    ["f4", "f8"][i % 2], [0, .2, .5][rng.randint(3)])
        except Exception as ex:
            ctx.emit({"k": "error", "what": repr(ex)[:300]}, "h|%d" % i)
    for e in ctx.events:
        if e["k"] == "step" and e["agree"] and e["op"] == "avg" and not e["refused"]:
            e = copy.deepcopy(e)
            w = [r for r in e["post"] if r["name"] == "pressure"]
            if w and w[0]["v"][0][-1] != NAN:
                w[0]["v"][0][-1] += 20
                ctx.canary(e)
                break
