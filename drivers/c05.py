"""Principal heading, flow direction and angle conventions."""
import copy
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.tools.misc import convert_degrees
from vlib.core import q, guard, NAN

SPEC = "Direction"
LAB = {"earth": ["E", "N", "U"], "inst": ["X", "Y", "Z"], "beam": [1, 2, 3],
       "principal": ["streamwise", "x-stream", "vert"]}


def nanify(rows):
    a = np.array(rows, float)
    a[a >= 2e9] = np.nan
    return a


def ph(rows, tidal, form, rng):
    a = nanify(rows)                       # (row, time, 2)
    u, v = a[..., 0], a[..., 1]
    w = rng.randint(-9, 9, size=u.shape).astype(float)
    w[rng.rand(*u.shape) < .2] = np.nan      # the vertical is ignored
    flat = len(rows) == 1
    if flat:
        u, v, w = u[0], v[0], w[0]
    vel = np.array([u, v, w] if form != "2d" else [u, v])
    if form == "f4":
        vel = vel.astype("float32")
    if form == "da" and flat:
        vel = xr.DataArray(vel, dims=("dir", "time"), coords={
            "dir": ["E", "N", "U"], "time": np.arange(vel.shape[-1])})
    before = np.array(vel, copy=True)
    kw = {} if (tidal and form != "da") else {"tidal_mode": tidal}
    if form == "2d":
        kw["tidal_mode"] = tidal
    h = np.atleast_1d(np.asarray(np.ma.filled(np.ma.asarray(
        dolfyn.calc_principal_heading(vel, **kw)), np.nan), float))
    m = 2 if tidal else 1
    cs = [[q(np.cos(np.deg2rad(m * x)), 1e4), q(np.sin(np.deg2rad(m * x)), 1e4)] for x in h]
    return {"k": "ph", "rows": rows, "tidal": tidal, "cs": cs, "hd": q(h, 1e4),
            "form": form, "mut": not np.array_equal(before, np.asarray(vel), equal_nan=True)}


def direction(rows, frame, dt):
    a = nanify(rows)
    nr, nt = a.shape[:2]
    vel = np.zeros((3, nr, nt), dt)
    vel[0], vel[1] = a[..., 0], a[..., 1]
    ds = xr.Dataset(coords={"dir": LAB[frame], "time": np.arange(nt), "range": np.arange(nr)})
    if nr == 1:
        ds["vel"] = (("dir", "time"), vel[:, 0])
    else:
        ds["vel"] = (("dir", "range", "time"), vel)
    ds.attrs.update(coord_sys=frame, inst_make="Nortek", inst_model="AWAC")
    before = ds.copy(deep=True)
    d, m = ds.velds.U_dir, ds.velds.U_mag
    if tuple(d.dims) != tuple(ds["vel"].dims[1:]):
        raise ValueError("dims %s" % (d.dims,))
    d2 = ds.velds.U_dir                     # reading twice gives the same
    hd = np.asarray(d.values, float).ravel()
    if not np.array_equal(hd, np.asarray(d2.values, float).ravel(), equal_nan=True):
        raise ValueError("second read differs")
    return {"k": "dir", "v": [z for r in rows for z in r], "frame": frame,
            "first": str(LAB[frame][0]), "cs": [
                [q(np.cos(np.deg2rad(x)), 1e4), q(np.sin(np.deg2rad(x)), 1e4)] for x in hd],
            "hd": q(hd, 1e4), "mag": q(m.values.ravel(), 1e3),
            "rel": d.attrs["units"].split("_")[-1],
            "mut": not before.identical(ds)}


def conv(x, tidal, form):
    a = np.array(x, float)
    if form == "da":
        a = xr.DataArray(a)
    if form == "scalar":
        y = [convert_degrees(float(v), tidal_mode=tidal) for v in x]
        b = [convert_degrees(float(v), tidal_mode=tidal) for v in y]
    else:
        y = convert_degrees(a, tidal_mode=tidal) if not tidal else convert_degrees(a)
        b = convert_degrees(y.copy(), tidal_mode=tidal)
        if not np.array_equal(np.asarray(a), np.array(x, float)):
            raise ValueError("input changed")
    return {"k": "conv", "x": x, "y": q(np.asarray(y, float), 1e3, 1e-6),
            "b": q(np.asarray(b, float), 1e3, 1e-6), "tidal": tidal}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev}
    ctx.emit(ev, case)


def run(ctx):
    N = ctx.pick(3, 4)
    cases = ctx.mc("MCDirection", ["CONSTANT N = %d" % N, "INIT DInit", "NEXT DNext",
                                   "INVARIANT OrderFree", "INVARIANT SignFree",
                                   "INVARIANT Equivariant", "INVARIANT OneLine",
                                   "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"],
                   "N=%d" % N, cases=True)
    rng = ctx.np_rng(5)
    forms = ["3d", "2d", "da", "f4"]
    for i, c in enumerate(cases):
        rec(ctx, "ph|%s" % c, ph, [c], bool(i % 2), forms[(i // 2) % 4], rng)
        if i % 3 == 0:
            rec(ctx, "ph|%s|t" % c, ph, [c], not i % 2, forms[(i // 2) % 4], rng)
    V = [[3, 4], [-3, -4], [4, -3], [5, 0], [-5, 0], [0, 5], [0, -5], [-8, 6],
         [6, 8], [NAN, NAN], [8, -6], [10, 0], [-4, -3]]
    for i in range(ctx.pick(150, 1500)):
        nr, nt = rng.randint(1, 5), rng.randint(3, 12)
        rows = [[V[j] for j in rng.randint(0, len(V), nt)] for _ in range(nr)]
        rec(ctx, "ph2|%d" % i, ph, rows, bool(i % 2), "3d" if nr > 1 else forms[i % 4], rng)
        rec(ctx, "dir|%d" % i, direction, rows, sorted(LAB)[i % 4], ["f4", "f8"][i % 2])
    for i in range(-8, 9):
        x = [45 * i + j for j in (0, 1, 7, 30, 44)]
        for tidal in (True, False):
            for form in ("np", "da", "scalar"):
                rec(ctx, "conv|%d|%s|%s" % (i, tidal, form), conv, x, tidal, form)
    for k, f in (("ph", "cs"), ("dir", "hd")):
        for e in ctx.events:
            if e["k"] == k and NAN not in e["hd"]:
                e = copy.deepcopy(e)
                if k == "ph":
                    w = e["cs"][0]
                    if e["rows"][0][0] == e["rows"][0][1] == e["rows"][0][2] and \
                            e["rows"][0][0][0] != 0:
                        e["cs"] = [[-w[1], w[0]]]
                        ctx.canary(e)
                        break
                else:
                    e["hd"][0] = -5
                    if e["v"][0] != [0, 0]:
                        ctx.canary(e)
                        break
