"""Velocity accessor shortcuts."""
import copy
import re
import numpy as np
import xarray as xr
import dolfyn  # noqa
from vlib.core import q, guard, NAN

SPEC = "Shortcuts"
SC = 1000
UV = [(3, 4), (-4, 3), (0, 5), (-5, 0), (6, 8), (8, -6), (0, 0), (-3, -4), (0, -10), (12, 5), (-8, 15)]
STRESS = [(1, 2, 2), (2, -3, 6), (0, 3, -4), (4, 4, 7), (0, 0, 0), (-1, -4, 8), (0, 0, 5), (-6, 2, 3)]
TKE = [(4, 9, 12), (1, 0, 0), (0, 0, 0), (5, 5, 6), (16, 0, 9), (1, 1, 2), (40, 20, 4), (2, 7, 0)]
VIEWS = ["u", "v", "w", "U", "U_mag", "upup_", "vpvp_", "wpwp_", "tke", "upvp_", "upwp_", "vpwp_",
         "E_coh", "I", "I_tke"]


def pick(rng, table, shape, miss):
    a = np.array(table, float)[rng.randint(0, len(table), size=shape)]
    a = np.moveaxis(a, -1, 0)
    return np.where(rng.rand(*a.shape) < miss, np.nan, a)


def dataset(rng, cells, n, nz, has, miss, frame, nvel, dt):
    shape = tuple({"range": nz, "time": n}[c] for c in cells)
    ds = xr.Dataset(coords={"time": np.datetime64("2020-02-03T04:05:06", "ns") +
                            np.arange(n).astype("timedelta64[s]"),
                            "dir": list("XYZW"[:nvel]), "beam": np.arange(1, nvel + 1), "tke": ["upup_", "vpvp_", "wpwp_"],
                            "tau": ["upvp_", "upwp_", "vpwp_"], "earth": ["E", "N", "U"],
                            "inst": ["X", "Y", "Z"]})
    if "range" in cells:
        ds = ds.assign_coords(range=.5 + np.arange(nz))
    vel = np.concatenate([pick(rng, UV, shape, miss)] +
                         [rng.randint(-9, 9, size=(1,) + shape) for _ in range(nvel - 2)])
    ds["vel"] = (("dir",) + cells, vel.astype(dt))
    om = np.zeros((3, 3, n))
    om[0, 1], om[1, 0], om[2, 2] = -1, 1, 1
    ds["orientmat"] = (("earth", "inst", "time"), om)
    if "tke_vec" in has:
        ds["tke_vec"] = (("tke",) + cells, pick(rng, TKE, shape, miss / 2).astype(dt))
        ds["tke_vec"].attrs["units"] = "m2 s-2"
    if "stress_vec" in has:
        ds["stress_vec"] = (("tau",) + cells, pick(rng, STRESS, shape, miss / 2).astype(dt))
        ds["stress_vec"].attrs["units"] = "m2 s-2"
    if "U_std" in has:
        ds["U_std"] = (cells, np.where(rng.rand(*shape) < miss, np.nan, rng.randint(0, 9, size=shape)).astype(dt))
    ds.attrs.update(coord_sys=frame, inst_make="Nortek", inst_model="Vector", inst_type="ADV", fs=1,
                    rotate_vars=["vel"], principal_heading=90., has_imu=0, n_bin=4)
    return ds


def flat(a, cells):
    return np.asarray(a, float).reshape(-1)


def state(ds, n):
    z = [0] * n
    g = lambda v: [q(r) for r in np.asarray(ds[v].values, float).reshape(ds[v].shape[0], -1)] \
        if v in ds else [z, z, z]
    # rotated integers carry rounding noise only
    vel = [q(r, 1, 1e-4) for r in np.asarray(ds.vel.values, float).reshape(ds.vel.shape[0], -1)]
    return {"vel": vel, "tke": g("tke_vec"), "stress": g("stress_vec"),
            "std": q(np.asarray(ds["U_std"].values, float).reshape(-1)) if "U_std" in ds else z}


def read(ctx, case, ds, p, cells, has):
    before = ds.copy(deep=True)
    n = int(np.prod(ds.vel.shape[1:]))
    st, y = guard(lambda: getattr(ds.velds, p))
    mut = not before.identical(ds) or before.attrs != ds.attrs or \
        any(before[v].attrs != ds[v].attrs for v in ds.variables)
    base = {"k": "read", "has": has, "s": state(before, n), "sc": SC, "raised": st == "raise",
            "what": y if st == "raise" else "", "cells": list(cells), "mut": bool(mut)}
    if st == "raise":
        ctx.emit(dict(base, p="U.re" if p == "U" else p, y=[], dims=[], coords=True), case)
        return
    ok = all(c in y.coords and np.array_equal(y[c].values, before[c].values) for c in cells) and \
        set(y.coords) <= set(before.coords) and not ({"dir", "tke", "tau"} & set(y.coords))
    vals = np.asarray(y.values)
    for nm, v in ([("U.re", vals.real), ("U.im", vals.imag)] if p == "U" else [(p, vals)]):
        ctx.emit(dict(base, p=nm, y=q(v.astype(float).reshape(-1), SC), dims=list(y.dims),
                      coords=bool(ok)), case + ("|" + nm if p == "U" else ""))


def summary(ctx, case, rng):
    n = int(rng.randint(2, 6))
    tot = int(rng.choice([1, 30, 59, 60, 61, 90, 1800, 3599, 3600, 3601, 7200, 86399, 86400, 86401, 200000]))
    ds = dataset(rng, ("time",), n, 1, [], 0, "inst", 3, "f8")
    t = np.linspace(0, tot, n)
    ds = ds.assign_coords(time=np.datetime64("2020-02-03T04:05:06", "ns") + (t * 1e9).astype("timedelta64[ns]"))
    ds.attrs["fs"] = int(rng.randint(1, 9))
    ds.attrs["coord_sys"] = ["beam", "inst", "earth", "principal"][rng.randint(4)]
    before = ds.copy(deep=True)
    st, txt = guard(lambda: repr(ds.velds))
    ev = {"k": "repr", "raised": st == "raise", "what": "", "sec": tot, "n": n, "fsok": ds.attrs["fs"],
          "frameok": before.attrs["coord_sys"], "timeless": False, "mut": not before.identical(ds),
          "unit": "", "dur": -1, "pings": -1, "fs": -1, "frame": "", "vars": False}
    if st == "ok":
        m = re.search(r"([\d.]+) (\w+) \(started: Feb 03, 2020 04:05\)", txt)
        s = re.search(r"\((\d+) pings @ (\d+)Hz\)", txt)
        f = re.search(r"(\w+)-frame", txt)
        if m:
            ev["dur"], ev["unit"] = int(round(float(m.group(1)) * 100)), m.group(2)
        if s:
            ev["pings"], ev["fs"] = int(s.group(1)), int(s.group(2))
        if f:
            ev["frame"] = f.group(1)
        v = ds.velds
        ev["vars"] = bool(v.variables == sorted(ds.variables) and "vel" in v and "nope" not in v and
                          v["vel"].identical(ds["vel"]) and v.attrs == ds.attrs and "vel*" not in txt and
                          "- vel ('dir', 'time')" in txt)
    else:
        ev["what"] = txt
    ctx.emit(ev, case)


def run(ctx):
    cases = ctx.mc("MCShortcuts", ["CONSTANT L = %d" % ctx.pick(3, 4), "INIT Init", "NEXT Next",
                                   "INVARIANTS Modulus Positive Intensity", "PROPERTY SpeedInvariant",
                                   "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "histories", cases=True)
    rng = ctx.np_rng(3)
    lay = [("time",), ("range", "time"), ("time", "range")]
    hs = [["tke_vec", "stress_vec", "U_std"], [], ["tke_vec"], ["stress_vec"], ["U_std"]]
    # every view, shape, presence, frame
    i = 0
    for cells in lay:
        for has in hs:
            for frame in ("beam", "inst", "earth", "principal"):
                for miss in (0, .2):
                    i += 1
                    ds = dataset(rng, cells, 1 + i % 4, 1 + i % 3, has, miss, frame,
                                 3 + (i % 2), ["f4", "f8"][(i // 2) % 2])
                    for p in VIEWS:
                        read(ctx, "view|%s|%s|%s|%s|%s" % ("-".join(cells), "-".join(has), frame, miss, p),
                             ds, p, cells, has)
    ctx.rng.shuffle(cases)
    for i, h in enumerate(cases[:ctx.pick(150, 1500)]):
        ds = dataset(rng, lay[i % 2], 3, 2, hs[0], [0, .2][i % 2], "inst", 3, "f8")
        for j, (a, b) in enumerate(h):
            if a == "rot":
                ds.velds.rotate2(b)
            else:
                read(ctx, "hist|%d|%d|%s" % (i, j, b), ds, b, lay[i % 2], hs[0])
    for i in range(ctx.pick(40, 200)):
        summary(ctx, "summary|%d" % i, rng)
    for nm in ("U_mag", "tke", "E_coh", "I_tke"):
        for e in ctx.events:
            if e["k"] == "read" and e["p"] == nm and not e["raised"] and e["y"] and e["y"][0] < 10 ** 9:
                e = copy.deepcopy(e)
                e["y"][0] += 500
                ctx.canary(e)
                break
