"""Turbulence statistics of profilers (ADPBinner)."""
import copy
import json
import warnings
import numpy as np
import xarray as xr
from dolfyn.adp.turbulence import ADPBinner
from drivers.c22 import fl, times, tms, ints, same, psd_da, spec_setup, band, T0
from vlib.core import q, guard

SPEC = "AdpTurb"
SC = 1000
BI = [[[1, 0, -1, 0], [0, 1, 0, -1], [1, 0, 1, 0], [0, 1, 0, 1]],
      [[1, -1, 0, 0], [0, 0, -1, 1], [1, 1, 1, 1], [1, 1, -1, -1]]]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return guard(f, *a, **k)


def shear(ctx, rng, i, o, nm):
    nz, nt = int(rng.randint(3, 8)), int(rng.randint(1, 4))
    x = rng.randint(-40, 41, (3 + i % 2, nz, nt))
    rs, r0 = int(rng.choice([2, 4, 8, 16])), int(rng.randint(1, 20))
    v = xr.DataArray((x / 8).astype(["f4", "f8"][i // 2 % 2]), dims=("dir", "range", "time"),
                     coords={"range": (r0 + rs * np.arange(nz)) / 8, "time": np.arange(nt) * 5.})
    b = ADPBinner(4, fs=2., orientation=o["bin"], diff_style=o["style"])
    s = v.copy(deep=True)
    fn = {"u": b.calc_dudz, "v": b.calc_dvdz, "w": b.calc_dwdz, "2": b.calc_shear2}[o["fn"]]
    kw = {"orientation": o["arg"]} if o["fn"] == "u" and o["arg"] else {}
    r = fn(v, **kw)
    ok = r.dims == ("range", "time") and np.array_equal(r.time, v.time)
    ctx.emit({"k": "shear", "fn": o["fn"], "style": o["style"], "x": x.tolist(), "rs": rs, "r0": r0,
              "oarg": o["arg"] if kw else "", "obin": o["bin"], "out": q(r.values, SC) if ok else [],
              "rng": q(r["range"].values * 8), "sc": SC, "vt": 2, "mut": not same(v, s)}, nm)


def spell(rng, s):
    """an orientation as one may write it"""
    return [s, s.upper(), s.capitalize() + "ward-looking"][rng.randint(3)]


def stressds(rng, o, n, nz, five, frame, dt, aattr, tilt, miss):
    off, t = times(rng, n)
    x = rng.randint(-6, 7, (5, nz, n)).astype(float)
    if miss:
        x[rng.rand(*x.shape) < .12] = np.nan
    bi = BI[rng.randint(2)]
    ds = xr.Dataset(coords={"time": t, "beam": [1, 2, 3, 4], "dir": [1, 2, 3, 4], "x1": [1, 2, 3, 4], "x2": [1, 2, 3, 4],
                            "range": .5 + np.arange(nz)})
    vel = x[:4] / 8
    if frame == "inst":
        vel = np.einsum("ij,jzt->izt", np.array(bi, float), vel)
    ds["vel"] = (("dir", "range", "time"), vel.astype(dt))
    ds["beam2inst_orientmat"] = (("x1", "x2"), np.array(bi, float))
    if five:
        ds = ds.assign_coords(range_b5=.25 + np.arange(nz), time_b5=t)
        ds["vel_b5"] = (("range_b5", "time_b5"), (x[4] / 8).astype(dt))
    p, r = (rng.randint(-4, 5, (2, n)) * (5 if tilt == 2 else 1)) if tilt else np.zeros((2, n), int)
    ds["pitch"], ds["roll"] = (("time",), p.astype("f4")), (("time",), r.astype("f4"))
    trdi = o["make"] == "TRDI"
    ds.attrs.update(fs=2., inst_make="TRDI" if trdi else "Nortek", inst_model="Workhorse" if trdi else "Signature1000",
                    inst_type="ADCP", coord_sys=frame, rotate_vars=["vel"])
    if not trdi and rng.rand() < .3:
        ds.attrs["inst_model"] = "AD2CP"
    if o["attr"]:
        ds.attrs["orientation"] = spell(rng, o["attr"])
    if aattr:
        ds.attrs["beam_angle"] = aattr
    return ds, x, bi, off, p, r


def stress(ctx, rng, i, o, nm, five, plain=False):
    p, d = [(4, 1), (5, 1), (7, 2), (6, 1), (9, 2)][i % 5]
    nb, nz = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    n = int(np.ceil(p * nb / d)) + int(rng.randint(0, 2))
    nb = n * d // p
    frame = ["beam", "inst"][i // 2 % 2]
    a1, a2 = [int(v) for v in rng.choice([20, 25, 30], 2)]
    aarg = a1 if o["aarg"] else 0
    aattr = 0 if o["aarg"] and i % 2 else a2
    if not o["aarg"] and i % 16 == 5:
        aattr = 0
    tilt = [0, 1, 1, 2][rng.randint(4)] if five else i % 2
    tko = five and i % 4 == 1
    miss = frame == "beam" and i % 3 == 0 and (not five or tko)
    ds, x, bi, off, pi, ro = stressds(rng, o, n, nz, five, frame, ["f4", "f8"][i % 2], aattr, tilt, miss)
    k = rng.randint(0, 3, nb)
    noise, lg = None, []
    if o["noise"] == "scalar":
        noise, lg = [float(k[0]) / 8, xr.DataArray(k[0] / 8)][i % 2], [[int(k[0])]]
    elif o["noise"] == "vector":
        noise, lg = [k / 8, xr.DataArray(k / 8, dims=["time"])][i % 2], [k.tolist()]
    b = ADPBinner(p / d if d > 1 else p, fs=2., orientation=o["bin"])
    kw = {}
    if o["arg"]:
        kw["orientation"] = spell(rng, o["arg"])
    if aarg:
        kw["beam_angle"] = aarg
    if noise is not None:
        kw["noise"] = noise
    if tko:
        kw["tke_only"] = True
    s, sa, ns = ds.copy(deep=True), copy.deepcopy(ds.attrs), copy.deepcopy(noise)
    st, r = quiet(b.calc_stress_5beam if five else b.calc_stress_4beam, ds, **kw)
    mut = not s.identical(ds) or repr(sa) != repr(ds.attrs) or not np.array_equal(np.asarray(noise, object), np.asarray(ns, object))
    ev = {"k": "five" if five else "four", "make": o["make"], "oarg": o["arg"], "oattr": o["attr"], "obin": o["bin"],
          "aarg": aarg, "aattr": aattr, "x": [[ints(z) for z in c] for c in x], "p": p, "q": d, "noise": lg, "bi": bi,
          "pitch": pi.tolist(), "roll": ro.tolist(), "err": "" if st == "ok" else r, "refuse": not (aarg or aattr),
          "tm": off, "mut": bool(mut), "tkeonly": bool(tko)}
    if st == "ok":
        def get(v, lab):
            ok = v.dims[1:] == ("range", "time") and np.array_equal(v["range"], ds["range"])
            return ok and [str(w) for w in v[v.dims[0]].values] == lab
        tl, sl = ["upup_", "vpvp_", "wpwp_"], ["upvp_", "upwp_", "vpwp_"]
        if five:
            tk, sv = (r, None) if tko else r
            ev.update(tke=fl(tk.values * 64), out=fl(sv.values * 64) if sv is not None else [],
                      lab=bool(get(tk, tl) and (sv is None or get(sv, sl))), t=tms(tk.time.values))
        else:
            ev.update(out=fl(r.values * 64), lab=[str(w) for w in r["tau"].values] if get(r, sl) else [],
                      t=tms(r.time.values))
    ctx.emit(ev, nm)


def sfp(ctx, rng, i, o, nm):
    p, d = ([(7, 2), (9, 2)][i % 2]) if o["frac"] else (int(rng.randint(2, 6)), 1)
    nb, nz = int(rng.randint(1, 4)), int(rng.randint(5, 9))
    n = int(np.ceil(p * nb / d)) + int(rng.randint(0, 2))
    rs, un = o["size"], 8
    if i % 3:
        rs, un = int(rng.choice([1, 2, 3, 6, 7, 12])), 10          # sizes that are not binary fractions
    nr = int(rng.randint(3, nz))                     # separations
    k0 = int(rng.randint(0, nr - 1))
    if i % 6 == 1:       # three cells of a tenth or a fifth are a little less than three
        rs, nz = int(rng.randint(1, 3)), 9
        nr, k0 = int(rng.randint(5, nz)), 3
    x = rng.randint(-6, 7, (nz, n)).astype(float)
    x += np.cumsum(rng.randint(-3, 4, (nz, n)), 0)
    if o["miss"]:
        x[rng.rand(nz, n) < .08] = np.nan
    off, t = times(rng, n)
    sfx = "_b5" if o["b5"] else ""
    v = xr.DataArray((x / 8).astype(["f4", "f8"][i % 2]), dims=("range" + sfx, "time" + sfx),
                     coords={"range" + sfx: (5 + rs * np.arange(nz)) / un, "time" + sfx: t})
    b = ADPBinner(p / d if d > 1 else p, fs=2.)
    s = v.copy(deep=True)
    st, r = quiet(b.calc_dissipation_SF, v, r_range=[k0 * rs / un, nr * rs / un])
    ev = {"k": "sfp", "x": [ints(z) for z in x], "p": p, "q": d, "rs": rs, "un": un, "r0": k0 * rs, "r1": nr * rs, "tm": off,
          "err": "" if st == "ok" else r, "mut": not same(v, s)}
    if st == "ok":
        eps, nz_, D = r
        ev.update(d=fl(D.values * 64), eps=fl(eps.values), nz=fl(nz_.values),
                  r=q(D["range_SF"].values * 10 * un, 1, .3), t=tms(eps["time" + sfx].values),
                  lab=bool(eps.dims == v.dims == nz_.dims and D.dims == ("range" + sfx, "range_SF", "time" + sfx) and
                           np.array_equal(eps["range" + sfx], v["range" + sfx]) and
                           np.array_equal(D["range" + sfx], v["range" + sfx])))
    ctx.emit(ev, nm)


def cells(ctx, rng, k):
    """The same velocities in cells of another size: the same separations (counted
    in cells) are fitted, so the noise is the same."""
    for i in range(k):
        nz, k0 = int(rng.randint(8, 11)), int(rng.randint(0, 5)) if i % 2 else 3
        nr = int(rng.randint(k0 + 2, nz))
        x = np.cumsum(rng.randint(-4, 5, (nz, 8)), 0) / 8.
        x += rng.randint(-3, 4, x.shape) / 4.
        res = []
        for sz in (.125, [.1, .2, .3, .6, .7, 1.2, 2.2][i % 7]):
            v = xr.DataArray(x, dims=("range", "time"), coords={"range": 1 + sz * np.arange(nz), "time": times(rng, 8)[1]})
            st, r = quiet(ADPBinner(8, fs=2.).calc_dissipation_SF, v, r_range=[round(k0 * sz, 3), round(nr * sz, 3)])
            if st == "raise":
                raise guard.exc
            res.append(r[1].values)
        ctx.emit({"k": "cells", "a": fl(res[0]), "b": fl(res[1])}, "cells|%d" % i)


def lt(ctx, rng, i, o, nm):
    rad = o["rad"]
    fs, nf, f, unit = spec_setup(rng, rad)
    nb = int(rng.randint(1, 4))
    tn = ["time", "time_b5"][i % 2]
    s = rng.randint(1, 60, (1, nb, nf // 2))
    u = rng.randint(1, 20, nb)
    p = psd_da(s[0] / 64, f, unit, dims=("time", "freq"), dt=["f4", "f8"][i % 2]).rename({"time": tn})
    U = xr.DataArray(u / 8, dims=["time"], coords={"time": p[tn].values})
    k = rng.randint(0, 12, nb)
    noise, lg = None, []
    if o["noise"] == "scalar":
        noise, lg = [float(k[0]) / 16, xr.DataArray(k[0] / 16)][i // 2 % 2], [[int(k[0])]]
    elif o["noise"] == "vector":
        noise, lg = [k / 16, xr.DataArray(k / 16, dims=[tn], coords={tn: p[tn]})][i // 2 % 2], [k.tolist()]
    lo, hi, fr = band(rng, nf, fs, rad)
    b = ADPBinner(nf, fs=fs)
    s0, u0, n0 = p.copy(deep=True), U.copy(deep=True), copy.deepcopy(noise)
    st, r = quiet(b.calc_dissipation_LT83, p, U, freq_range=fr, **({} if noise is None else {"noise": noise}))
    ctx.emit({"k": "lt", "s": s.tolist(), "ssc": 64, "fs": fs, "nf": nf, "rad": rad, "u": u.tolist(), "usc": 8,
              "noise": lg, "nsc": 16, "lo": lo, "hi": hi, "err": "" if st == "ok" else r,
              "out": fl(r.values[None]) if st == "ok" and r.dims == (tn,) else [],
              "mut": not (same(p, s0) and same(U, u0) and np.array_equal(noise, n0))}, nm)


def dn(ctx, rng, i, o, nm):
    fs, nf, f, unit = spec_setup(rng, o["rad"])
    nb = int(rng.randint(1, 4))
    s = rng.randint(1, 40, (1, nb, nf // 2))
    tn = ["time", "time_b5"][i % 2]
    p = psd_da(s[0], f, unit, dims=("time", "freq"), dt=["f4", "f8"][i // 2 % 2]).rename({"time": tn})
    pn, pd = [(4, 5), (1, 2), (3, 5), (7, 10), (9, 10)][rng.randint(5)]
    b = ADPBinner(nf, fs=fs)
    s0 = p.copy(deep=True)
    st, r = quiet(b.calc_doppler_noise, p, **({} if (pn, pd) == (4, 5) else {"pct_fN": pn / pd}))
    if st == "raise":
        return ctx.emit({"k": "error", "what": str(r)}, nm)
    ctx.emit({"k": "dn", "s": s.tolist(), "fs": fs, "nf": nf, "rad": o["rad"], "pn": pn, "pd": pd, "out": fl(r.values[None]),
              "lab": bool(r.dims == (tn,) and np.array_equal(r[tn], p[tn])), "mut": not same(p, s0)}, nm)


def slope(ctx, rng, i, o, nm):
    nf = int(rng.randint(4, 9))
    lf = np.sort(rng.choice(np.arange(-5, 6), nf, replace=False))
    nb = int(rng.randint(1, 4))
    ls = rng.randint(-4, 5, (nb, nf))
    lo, hi = 0, 0
    while ((lo < 2 * lf) & (2 * lf < hi)).sum() < 2:
        lo, hi = sorted(int(v) for v in rng.choice(np.arange(-11, 12, 2), 2, replace=False))
    p = psd_da(10. ** ls, 10. ** lf, "Hz", dims=("time", "freq"), dt="f8").assign_coords(freq=10. ** lf)
    if i % 3 == 0:
        p, ls = p.isel(time=0, drop=True), ls[:1]
    s0 = p.copy(deep=True)
    m, c = ADPBinner(nf, fs=8).check_turbulence_cascade_slope(p, freq_range=[10 ** (lo / 2), 10 ** (hi / 2)])
    ctx.emit({"k": "slope", "lf": lf.tolist(), "ls": ls.tolist(), "lo": lo, "hi": hi,
              "m": q(np.atleast_1d(m), 1000), "b": q(np.atleast_1d(c), 1000), "mut": not same(p, s0)}, nm)


def ustar(ctx, rng, i, o, nm):
    nz, nt = int(rng.randint(5, 8)), int(rng.randint(1, 4))
    x = rng.randint(-9, 10, (nz, nt)) - [0, 6, -6][i % 3]
    z = np.arange(1, nz + 1) * int(rng.choice([1, 2]))
    H = rng.randint(z[-1] + 1, 24, nt)
    z0, z1 = sorted(int(v) for v in rng.choice(np.arange(0, nz + 1), 2, replace=False))
    ds = xr.Dataset(coords={"range": z / 2., "time": np.arange(nt) * 1.})
    kw, h = {}, H.tolist()
    if i % 3 == 1:
        h, kw["H"] = [int(H[0])], H[0] / 2.
    ds["depth"] = (("time",), H / 2.)
    if i % 2:
        kw["z_inds"] = slice(z0, z1)
    else:
        z0, z1 = 1, 5
    up = xr.DataArray(x.astype(float), dims=("range", "time"), coords=ds.coords)
    s, s1 = ds.copy(deep=True), up.copy(deep=True)
    st, r = quiet(ADPBinner(4, fs=1.).calc_ustar_fit, ds, up, **kw)
    if st == "raise":
        return ctx.emit({"k": "error", "what": str(r)}, nm)
    ctx.emit({"k": "ustar", "x": x.tolist(), "z": z.tolist(), "h": h, "z0": z0, "z1": z1,
              "out": fl(r.values) if r.dims == ("time",) else [], "mut": not (s.identical(ds) and same(up, s1))}, nm)


def beamtke(ctx, rng, i):
    """energy of a single beam: any cells, noise per cell and bin"""
    from drivers.c22 import tke
    class Sub:                     # the same recorder, another binner
        pass
    o = {"frac": bool(i % 2), "dt": bool(i // 2 % 2), "f8": bool(i // 4 % 2),
         "noise": ["none", "scalar", "vector", "matrix"][i % 4]}
    tke(ctx, rng, i, o, "tke|%d" % i, 2)


def refusals(ctx, rng):
    o = {"make": "Nortek", "attr": "up", "arg": "", "bin": "up", "noise": "none", "aarg": False}
    b = ADPBinner(4, fs=2.)
    ds = stressds(rng, o, 8, 2, True, "beam", "f4", 25, 0, False)[0]
    p = psd_da(np.ones((2, 4)), np.arange(1, 5) * 1., "Hz", dims=("time", "freq"))
    p3 = psd_da(np.ones((3, 2, 4)), np.arange(1, 5) * 1., "Hz")
    U = xr.DataArray(np.ones(2), dims=["time"])
    for nm, f in (("no-fifth-beam", lambda: b.calc_stress_5beam(ds.drop_vars("vel_b5"))),
                  ("orientation", lambda: b.calc_stress_4beam(ds, orientation="sideways")),
                  ("noise-of-spectra-of-three", lambda: b.calc_doppler_noise(p3)),
                  ("spectra-of-three", lambda: b.calc_dissipation_LT83(p3, U)),
                  ("speed-profile", lambda: b.calc_dissipation_LT83(p, p)),
                  ("range-of-three", lambda: b.calc_dissipation_LT83(p, U, freq_range=[1, 2, 3])),
                  ("range-scalar", lambda: b.calc_dissipation_LT83(p, U, freq_range=3)),
                  ("all-beams", lambda: b.calc_dissipation_SF(ds.vel))):
        st, r = quiet(f)
        ctx.emit({"k": "rel", "rel": "accepted-" + nm, "ok": st == "raise"}, "refuse|" + nm)


def run(ctx):
    cases = ctx.mc("MCAdpTurb", ["CONSTANT DT = 0", "INIT Init", "NEXT Next", "INVARIANT Turn Linear Export",
                                 "CHECK_DEADLOCK FALSE"], "geometry", cases=True)
    rng = ctx.np_rng(1)
    ctx.rng.shuffle(cases)
    by = {}
    for c in cases:
        by.setdefault(c["k"], []).append(c["o"])
    fn = {"shear": shear, "sfp": sfp, "lt": lt, "dn": dn, "slope": slope, "ustar": ustar,
          "four": lambda *a: stress(*a, False), "five": lambda *a: stress(*a, True)}
    want = {"shear": ctx.pick(144, 1500), "sfp": ctx.pick(64, 800), "lt": ctx.pick(60, 800), "dn": ctx.pick(40, 400),
            "slope": ctx.pick(30, 300), "ustar": ctx.pick(40, 400), "four": ctx.pick(216, 2200), "five": ctx.pick(216, 2200)}
    for k in sorted(by):
        for i in range(want[k]):
            fn[k](ctx, rng, i, by[k][i % len(by[k])], "%s|%d" % (k, i))
    for i in range(ctx.pick(24, 200)):
        beamtke(ctx, rng, i)
    cells(ctx, rng, ctx.pick(28, 140))
    refusals(ctx, rng)
    for e in ctx.events:
        if e["k"] == "shear" and any(v for r in e["out"] for v in r):
            c = json.loads(json.dumps(e))
            c["out"][0][0] += 40
            ctx.canary(c)
            break
    for k, key in (("four", "out"), ("five", "tke"), ("five", "out"), ("sfp", "d"), ("lt", "out"), ("dn", "out")):
        for e in ctx.events:
            o = e.get(key)
            if e["k"] == k and o and not e.get("err"):
                c = json.loads(json.dumps(e))
                v = c[key][1] if k in ("four", "five", "sfp") else c[key]
                while isinstance(v[0][0], list):
                    v = v[0]
                if abs(v[0][0]) < 16384 or v[0][1] < -10 and k in ("four", "five", "sfp"):
                    continue
                v[0][1] += 3
                ctx.canary(c)
                break
