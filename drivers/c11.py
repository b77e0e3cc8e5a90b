"""ADCP profile cleaning."""
import copy
import numpy as np
import xarray as xr
from dolfyn.adp import clean
from vlib.core import q, guard, NAN

SPEC = "Profiles"
FINE = 2.**-34      # added to double-precision data: nothing narrower holds it
T0 = np.datetime64("2021-12-31T23:59:58", "ns")


def times(n, t=None):
    t = np.arange(n) * 1000 if t is None else np.asarray(t) * 250
    return T0 + t.astype("timedelta64[ms]")


def fl(x, dt="f4"):
    a = np.array(x, float)
    a[a >= 2e9] = np.nan
    return a.astype(dt)


def surf(amp, rng, thr, nf, dt):
    """amp[beam][time][cell]"""
    a = np.array(amp)
    nb, nt, nr = a.shape
    ds = xr.Dataset(coords={"time": times(nt), "range": np.array(rng) / 8., "beam": np.arange(1, nb + 1)})
    ds["amp"] = (("beam", "range", "time"), np.ascontiguousarray(a.transpose(0, 2, 1)).astype(dt))
    ds["vel"] = (("beam", "range", "time"), np.zeros((nb, nr, nt), "f4"))
    keep = ds.copy(deep=True)
    kw = {}
    if thr != 10:
        kw["thresh"] = thr
    if nf:
        kw["nfilt"] = nf
    r = clean.find_surface(ds, **kw)
    o = ds["depth"]
    if o.dims != ("time",) or r is not None:
        raise ValueError("shape of depth")
    return {"k": "surf", "amp": amp, "rng": rng, "thr": thr, "nf": nf, "sc": 16,
            "o": q(o.values, 128, .1) if False else q(np.asarray(o.values, float) * 8, 16),
            "mut": not keep.identical(ds.drop_vars("depth"))}


def press(p, tc, sal, h, dt):
    n = len(p)
    ds = xr.Dataset(coords={"time": times(n)})
    ds["pressure"] = ("time", fl(p, dt))
    ds["temp"] = ("time", np.array(tc, dt))
    if h is not None:
        ds.attrs["h_deploy"] = h / 8
    keep = ds.copy(deep=True)
    clean.find_surface_from_P(ds, **({} if sal == 35 else {"salinity": sal}))
    return {"k": "press", "p": p, "tc": tc, "sal": sal, "h": h or 0, "o": q(ds["depth"].values, 1000),
            "rho": q(ds["water_density"].values, 10000),
            "mut": not keep.identical(ds.drop_vars(["depth", "water_density"]))}


def grid(rng, nb, nr, nt, lo=-50, hi=51):
    return rng.randint(lo, hi, size=(nb, nr, nt))


def blank(rng, nr, nt, depth, h, ang, cell, r0, inplace, val, five, echo, argang):
    rg = [r0 + k * cell for k in range(nr)]
    ds = xr.Dataset(coords={"time": times(nt), "range": np.array(rg) / 8.})
    ds.attrs.update(cell_size=cell / 8., beam_angle=45 if argang else ang, fs=1., note="n")
    if h is not None:
        ds.attrs["h_deploy"] = h / 8
    ds["depth"] = ("time", fl(depth) / 8)
    raw, vv = {}, {}

    def add(name, dims, shape, kind):
        a = rng.randint(1, 100, size=shape)
        raw[name] = a
        ds[name] = (dims, a.astype({"f": "f4", "d": "f8", "u": "u1", "i": "i2"}[kind]))
        isf = kind in "fd"
        vv[name] = NAN if isf and val is None else 0 if val is None else val
    add("vel", ("dir", "range", "time"), (4, nr, nt), "f")
    add("amp", ("beam", "range", "time"), (4, nr, nt), "u")
    add("corr", ("beam", "range", "time"), (4, nr, nt), ["u", "d"][rng.randint(2)])
    add("prcnt", ("range", "time"), (nr, nt), "d")
    if five:
        ds = ds.assign_coords(range_b5=np.array(rg) / 8., time_b5=times(nt))
        add("vel_b5", ("range_b5", "time_b5"), (nr, nt), "f")
        add("amp_b5", ("range_b5", "time_b5"), (nr, nt), "i")
    rngs = {"vel": rg}
    if echo:
        ne = nr * 2
        rngs["echo"] = [r0 + k * max(cell // 2, 1) for k in range(ne)]
        ds = ds.assign_coords(range_echo=np.array(rngs["echo"]) / 8., time_echo=times(nt))
        add("echo", ("range_echo", "time_echo"), (ne, nt), "f")
    ds["temp"] = ("time", np.arange(nt) * 1.)
    ds["bt"] = (("dir", "time"), np.arange(4 * nt).reshape(4, nt) * 1.)
    keep = ds.copy(deep=True)
    kw = {}
    if val is not None:
        kw["val"] = val
    if argang:
        kw["beam_angle"] = ang
    if inplace:
        kw["inplace"] = True
    o = clean.nan_beyond_surface(ds, **kw)
    out = ds if inplace else o
    if inplace and o is not None:
        raise ValueError("returned something although in place")
    ev = {"k": "blank", "depth": depth, "h": h or 0, "ang": ang, "cell": cell, "rngs": rngs,
          "mut": not inplace and not keep.identical(ds)}
    names = list(raw)
    ev["others"] = out.drop_vars(names).identical(keep.drop_vars(names)) and all(
        out[n].dims == keep[n].dims and out[n].dtype == keep[n].dtype for n in names)
    b3 = lambda a: a if a.ndim == 3 else a[None]
    ev["vars"] = {n: {"x": b3(raw[n]).tolist(), "o": q(b3(out[n].values), 1, 1e-6), "val": vv[n]} for n in names}
    return ev


def corr(rng, nb, nr, nt, frame, thr, five, inplace, kind):
    ds = xr.Dataset(coords={"time": times(nt), "range": np.arange(nr) + 1., "beam": np.arange(1, nb + 1)})
    ds["range"].attrs["units"] = "m"
    lab = {"beam": np.arange(1, nb + 1), "inst": ["X", "Y", "Z", "err"][:nb], "earth": ["E", "N", "U", "err"][:nb],
           "principal": ["streamwise", "x-stream", "vert", "err"][:nb]}
    ds = ds.assign_coords(dir=lab[frame])
    ds["dir"].attrs["ref_frame"] = frame
    v, a = grid(rng, nb, nr, nt), grid(rng, nb, nr, nt, 10, 90)
    if frame == "beam":           # velocities that are missing already
        v[rng.rand(*v.shape) < .15] = NAN
    c = grid(rng, nb, nr, nt, 40, 61)
    ds["vel"] = (("dir", "range", "time"), fl(v))
    ds["amp"] = (("beam", "range", "time"), a.astype(kind))
    ds["corr"] = (("beam", "range", "time"), c.astype(kind), {"units": "%"})
    m = np.array([[1, -1, 0, 0], [0, 0, -1, 1], [1, 1, 1, 1], [1, 1, -1, -1]]) / 4 if nb == 4 else \
        np.array([[2, -1, -1], [0, 1, -1], [1, 1, 1]]) / 3
    ds = ds.assign_coords(x1=np.arange(1, nb + 1), x2=np.arange(1, nb + 1))
    ds["beam2inst_orientmat"] = (("x1", "x2"), m)
    om = np.stack([[[0, 1, 0], [-1, 0, 0], [0, 0, 1]]] * nt, -1).astype(float)
    ds = ds.assign_coords(earth=["E", "N", "U"], inst=["X", "Y", "Z"])
    ds["orientmat"] = (("inst", "earth", "time"), om)
    ds.attrs.update(inst_make="TRDI" if nb == 4 else "Nortek", inst_model="Workhorse" if nb == 4 else "AWAC",
                    inst_type="ADCP", coord_sys=frame, rotate_vars=["vel"], fs=1., coord_sys_axes="a")
    if frame == "principal":
        ds.attrs["principal_heading"] = 30.
    ev = {"k": "corr", "thr": thr, "frame": frame, "corr": {"": c.tolist()}}
    miss = NAN if kind.startswith("f") else 0
    raw = [("vel", "", v, NAN, 1000, 20 if frame != "beam" else 0), ("amp", "", a, miss, 1, 0),
           ("corr", "", c, miss, 1, 0)]
    if five:
        v5, a5, c5 = grid(rng, 1, nr, nt), grid(rng, 1, nr, nt, 10, 90), grid(rng, 1, nr, nt, 40, 61)
        ds = ds.assign_coords(range_b5=np.arange(nr) + 1., time_b5=times(nt))
        for n, z, k2 in (("vel", v5, "f4"), ("amp", a5, kind), ("corr", c5, kind)):
            ds[n + "_b5"] = (("range_b5", "time_b5"), z[0].astype(k2), {"units": "%"})
        ev["corr"]["_b5"] = c5.tolist()
        raw += [("vel", "_b5", v5, NAN, 1000, 0), ("amp", "_b5", a5, miss, 1, 0), ("corr", "_b5", c5, miss, 1, 0)]
    keep = ds.copy(deep=True)
    o = clean.correlation_filter(ds, **dict(({} if thr == 50 else {"thresh": thr}),
                                            **({"inplace": True} if inplace else {})))
    out = ds if inplace else o
    ev["mut"] = not inplace and not keep.identical(ds)
    ev["cs"] = str(out.attrs["coord_sys"])
    b3 = lambda x: x if x.ndim == 3 else x[None]
    ev["vars"] = [{"name": n, "tag": t, "x": np.where(z == NAN, NAN, z * s).tolist(), "o": q(b3(out[n + t].values), s), "miss": ms, "tol": tol}
                  for n, t, z, ms, s, tol in raw]
    return ev


def thresh(x, thr, val, dt):
    a = xr.DataArray(fl(x, dt).reshape(2, -1), dims=["dir", "time"])
    keep = a.copy(deep=True)
    kw = {} if thr == 5 else {"thresh": thr}
    if val is not None:
        kw["val"] = val
    o = clean.val_exceeds_thresh(a, **kw)
    return {"k": "thresh", "x": x, "thr": thr, "val": NAN if val is None else val,
            "o": q(o.values.ravel(), 1, 1e-6), "mut": not keep.identical(a)}


def gap(x, t, lim, poly, axis, kind):
    """x rows; series run along `kind`, which is dimension number `axis`"""
    a = fl(x, "f8")
    n = a.shape[1]
    dim = {"time": ["time", "time_avg"][n % 2], "depth": ["range", "range_b5"][n % 2]}[kind]
    b = a if axis == 1 else a.T
    dims = ["beam", dim] if axis == 1 else [dim, "beam"]
    cs = {dim: times(n, t) if kind == "time" else np.array(t) * .5 + 1}
    da = xr.DataArray(np.ascontiguousarray(b), dims=dims, coords=cs)
    if kind == "time" or poly:
        da = da + FINE
    keep = da.copy(deep=True)
    kw = {}
    if not poly:
        kw["method"] = "linear"
    if lim < 99:
        kw["maxgap"] = lim
    sc, tol = (2520, 2) if not poly else (100, 20)
    ev = {"k": "gap", "x": x, "t": t if kind == "time" else list(range(1, n + 1)), "lim": lim, "poly": poly,
          "raised": False, "exact": True, "o": [], "sc": sc, "tol": tol, "mut": False}
    st, o = guard(clean.fillgaps_time if kind == "time" else clean.fillgaps_depth, da, **kw)
    if st == "raise":
        ev["raised"] = True
    else:
        z = o.transpose(*da.dims).values
        ev["o"] = q(z if axis == 1 else z.T, sc)
        g = ~np.isnan(da.values)
        ev["exact"] = bool(np.array_equal(z[g], da.values[g]))
    ev["mut"] = not keep.identical(da)
    return ev


def orient(x, n, imu):
    nt = len(x[0])
    ds = xr.Dataset(coords={"time": times(nt)})
    ds.attrs["has_imu"] = int(imu)
    z = np.zeros((3, 3, nt))
    ds = ds.assign_coords(earth=["E", "N", "U"], inst=["X", "Y", "Z"])
    ds["orientmat"] = (("inst", "earth", "time"), z)
    a = np.array(x, float)
    if imu:
        ds = ds.assign_coords(q=["w", "x", "y", "z"])
        ds["quaternions"] = (("q", "time"), a)
        names = []
    else:
        names = ["pitch", "roll", "heading"]
        for k, nm in enumerate(names):
            ds[nm] = ("time", a[k])
    keep = ds.copy(deep=True)
    o = clean.medfilt_orient(ds, **({} if n == 7 else {"nfilt": n}))
    ev = {"k": "orient", "x": x, "n": n, "om": [], "mut": not keep.identical(ds)}
    if imu:
        ev["o"] = q(o["quaternions"].values, 1, 1e-6)
        m = o["orientmat"].values
        ev["om"] = [q(m[..., t], 10000) for t in range(nt)]
        ev["stale"] = False
    else:
        ev["o"] = [q(o[nm].values, 1, 1e-6) for nm in names]
        ev["stale"] = "orientmat" in o
    return ev


RNG = [10 * r + 3 for r in range(1, 9)]


def hist(ops, ang):
    pd, cell = 81, 10
    # a pressure that gives exactly this distance: solve the linear equation of state
    d = pd / 8
    p = d
    for _ in range(60):
        rho = 1027 + 4.5e-3 * p
        p = d * 9.81 * rho / 1e4
    nt = 3
    ds = xr.Dataset(coords={"time": times(nt), "range": np.array(RNG) / 8., "range_b5": np.array(RNG[:5]) / 8.,
                            "time_b5": times(nt), "range_echo": np.array(RNG[:3]) / 8.})
    ds["echo"] = (("range_echo", "time"), np.ones((3, nt), "f4"))
    ds.attrs.update(cell_size=cell / 8, beam_angle=ang)
    ds["pressure"] = ("time", np.full(nt, p))
    ds["temp"] = ("time", np.full(nt, 10.))
    ds["vel"] = (("dir", "range", "time"), np.ones((3, 8, nt)))
    obs = []
    for o in ops:
        same = True
        if o["op"] == "offset":
            clean.set_range_offset(ds, o["h"] / 8)
        elif o["op"] == "press":
            clean.find_surface_from_P(ds)
        else:
            b5 = ds.drop_vars(["range_b5", "echo", "range_echo"])
            r = clean.nan_beyond_surface(b5)
            ds["vel"] = r["vel"]
        v = np.isnan(ds["vel"].values)
        same = bool((v == v[:1, :, :1]).all())
        r5 = (np.asarray(ds["range_b5"].values) * 8).round(6).tolist()
        rr = q(ds["range"].values * 8, 1, 1e-6)
        obs.append({"rng": rr, "h": q(ds.attrs.get("h_deploy", 0) * 8, 1, 1e-6),
                    "gone": (np.where(v[0, :, 0])[0] + 1).tolist(), "same": same and r5 == rr[:5] and (np.asarray(ds["range_echo"].values) * 8).round(6).tolist() == rr[:3]})
    return {"k": "ops", "ops": ops, "ang": ang, "rng": RNG, "pd": pd, "cell": cell, "obs": obs}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev, "a": str(a)[:300]}
    ctx.emit(ev, case)


def run(ctx):
    rng = ctx.np_rng(11)
    cases = ctx.mc("MCProfiles", ["CONSTANT Depth = %d" % ctx.pick(4, 5), "CONSTANT Angs = {0, 20, 25, 60}",
                                  "CONSTANT Hs = {4, 12}", "INIT PInit", "NEXT PNext", "INVARIANT SameCells",
                                  "INVARIANT Upper", "INVARIANT Offset", "CONSTRAINT Export",
                                  "CHECK_DEADLOCK FALSE"], "histories", cases=True)
    full = [c for c in cases if len(c["ops"]) == max(len(d["ops"]) for d in cases)]
    for i, c in enumerate(full):
        rec(ctx, "ops|%s|%d" % ("".join(o["op"][0] + str(o["h"]) for o in c["ops"]), c["ang"]), hist, c["ops"], c["ang"])
    # surface: every position of one rise in the profile, and random profiles
    for i in range(ctx.pick(300, 3000)):
        nb, nt, nr = int(rng.randint(1, 5)), int(rng.randint(1, 6)), int(rng.randint(3, 10))
        amp = rng.randint(0, 40, size=(nb, nt, nr))
        if rng.rand() < .7:          # decaying echo with a surface hit
            amp = np.sort(rng.randint(20, 90, size=(nb, nt, nr)), axis=2)[..., ::-1].copy()
            for b in range(nb):
                for t in range(nt):
                    if rng.rand() < .9:
                        k = rng.randint(1, nr)
                        amp[b, t, k] = amp[b, t, k - 1] + rng.randint(1, 90)
        cell = int(rng.choice([2, 4, 8]))
        rg = [int(rng.randint(1, 9)) + cell * k for k in range(nr)]
        rg = [rg[0] + cell * k for k in range(nr)]
        nf = 0 if rng.rand() < .6 else int(rng.choice([3, 3, 5, 7]))
        rec(ctx, "surf|%d" % i, surf, amp.tolist(), rg, int(rng.choice([1, 5, 10, 20])), nf, ["u1", "f4", "i2"][i % 3])
    # many cells
    for i, nr in enumerate((255, 256, 257, 300)):
        a = (np.arange(nr)[::-1] // 2)[None, None].repeat(2, 1).repeat(2, 0) % 200
        a = np.minimum(a, 120)
        a[:, :, nr - 3] = 200
        rec(ctx, "surfdeep|%d" % nr, surf, a.tolist(), list(range(8, 8 + nr)), 10, 0, "u1")
    for i in range(ctx.pick(40, 400)):
        n = int(rng.randint(1, 5))
        p = [int(v) for v in rng.randint(0, 100, size=n)]
        if rng.rand() < .2:
            p[rng.randint(n)] = NAN
        rec(ctx, "press|%d" % i, press, p, [int(v) for v in rng.randint(-2, 30, size=n)],
            int(rng.choice([35, 35, 0, 20, 38])), [None, 0, 4, 13, -6][i % 5], ["f4", "f8"][i % 2])
    for i in range(ctx.pick(250, 3000)):
        nr, nt = int(rng.randint(2, 9)), int(rng.randint(1, 5))
        cell = int(rng.choice([1, 2, 4, 8]))
        h = [None, None, 4, 12][rng.randint(4)]
        r0 = int(rng.randint(1, 10)) + (h or 0)
        depth = [int(v) + (h or 0) for v in rng.randint(1, r0 + cell * nr + 8, size=nt)]
        if rng.rand() < .2:
            depth[rng.randint(nt)] = NAN
        rec(ctx, "blank|%d" % i, blank, rng, nr, nt, depth, h, int(rng.choice([0, 20, 25, 30, 60])), cell, r0,
            bool(rng.randint(2)), [None, None, 7][rng.randint(3)], bool(rng.randint(2)), bool(rng.randint(2)),
            rng.rand() < .4)
    for i in range(ctx.pick(150, 1500)):
        frame = ["beam", "inst", "earth", "principal"][i % 4]
        rec(ctx, "corr|%d" % i, corr, rng, [3, 4][rng.randint(2)], int(rng.randint(1, 4)), int(rng.randint(1, 4)), frame,
            int(rng.choice([50, 45, 40, 60])), bool(rng.randint(2)), bool(rng.randint(2)), ["u1", "f4"][rng.randint(2)])
        x = rng.randint(-9, 10, size=6)
        x = np.where(rng.rand(6) < .2, NAN, x).tolist()
        rec(ctx, "thresh|%d" % i, thresh, x, int(rng.choice([5, 2, 8])), [None, 99][i % 2], ["f4", "f8"][i % 2])
    for i in range(ctx.pick(250, 2500)):
        n, k = int(rng.randint(3, 10)), int(rng.randint(1, 4))
        kind = ["time", "depth"][i % 2]
        t = np.cumsum(rng.choice([1, 2, 3], size=n)).tolist()
        m = rng.rand(k, n) < [.2, .5][rng.randint(2)]
        lim = int(rng.choice([1, 2, 99]))
        if i % 3:
            x, P = rng.randint(-9, 10, size=(k, n)), []
        else:
            P = [[int(v) for v in rng.randint(-2, 3, size=4)] for _ in range(k)]
            tt = t if kind == "time" else range(1, n + 1)
            x = np.array([[c[0] + s * (c[1] + s * (c[2] + s * c[3])) for s in tt] for c in P])
        rec(ctx, "gap|%d" % i, gap, np.where(m, NAN, x).tolist(), t, lim, P, int(rng.randint(2)), kind)
    for i in range(ctx.pick(40, 400)):
        n, imu = int(rng.randint(5, 10)), i % 2
        x = rng.randint(-9, 10, size=(4 if imu else 3, n))
        if imu:
            x[0] = rng.randint(1, 5, size=n)
        rec(ctx, "orient|%d" % i, orient, x.tolist(), int(rng.choice([3, 5, 7])) if n >= 7 else 3, imu)
    for k in ("surf", "press", "blank", "corr", "thresh", "gap", "orient", "ops"):
        for e in ctx.events:
            if e["k"] == k and not e.get("raised") and e.get("nf", 0) == 0:
                e = copy.deepcopy(e)
                if k == "surf":
                    e["o"][0] = 5
                elif k == "press":
                    if e["o"][0] >= NAN:
                        continue
                    e["o"][0] += 20
                elif k == "blank":
                    e["vars"]["prcnt"]["o"][0][0][0] += 1
                elif k == "corr":
                    e["vars"][1]["o"][0][0][0] += 1
                elif k == "gap":
                    e["o"][0][0] = 77777
                elif k == "ops":
                    e["obs"][-1]["rng"][0] += 1
                else:
                    w = e["o"]
                    if k == "orient":
                        w = w[0]
                    w[0] = 55
                ctx.canary(e)
                break
