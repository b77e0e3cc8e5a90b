"""Dimensional analysis of everything that is computed: specs/Units.tla."""
import warnings
import numpy as np
import xarray as xr
from dolfyn.velocity import VelBinner
from dolfyn.adv import clean as avc
from dolfyn.adp import clean as apc
from dolfyn.adv.motion import correct_motion
from dolfyn.adv.turbulence import ADVBinner, calc_turbulence
from dolfyn.adp.turbulence import ADPBinner
from drivers.c22 import fl
from vlib.core import guard, run_pool

SPEC = "Units"
T0 = np.datetime64("2021-03-04T05:06:07", "ns")
B4 = np.array([[1., 0, -1, 0], [0, -1, 0, 1], [.5, 0, .5, 0], [0, .5, 0, .5]])


def units(x):
    u = str(x.attrs.get("units", "")) if hasattr(x, "attrs") else ""
    p = 1
    if u.startswith("(") and u.endswith(")^2"):
        u, p = u[1:-3], 2
    if u.startswith("degrees_C"):
        u = "direction"
    return u.split(), p


class Out(dict):
    def put(self, q, x, coord=None):
        v = np.asarray(x.values if hasattr(x, "values") else x)
        if v.dtype.kind == "c":
            v = np.concatenate([v.real.ravel(), v.imag.ravel()])
        v = np.asarray(v, float).ravel()
        if len(v) > 24:
            v = v[np.linspace(0, len(v) - 1, 24).astype(int)]
        tok, p = units(x)
        self[q] = {"a": fl(v), "tok": tok, "pow": p, "sn": str(getattr(x, "attrs", {}).get("standard_name", ""))}


def point(seed, l, t, fu, o):
    """everything there is to compute of a point velocity record"""
    rs = np.random.RandomState(seed)
    n, nb, nf = 256, o["nb"], 32
    V, T = 2. ** (l - t), 2. ** t
    fs = 8. / T
    w = 1. if fu == "Hz" else 2 * np.pi
    x = rs.randint(-200, 201, (3, n)) / 64. + np.array([[3.], [-1], [0]])
    x += np.cumsum(rs.randint(-20, 21, (3, n)), -1) / 128.
    tm = T0 + (np.arange(n) / fs * 1e9).astype("int64").astype("timedelta64[ns]")
    ds = xr.Dataset(coords={"time": tm, "dir": ["E", "N", "U"]})
    ds["vel"] = (("dir", "time"), (x * V).astype(o["dt"]), {"units": "m s-1", "long_name": "Water Velocity"})
    ds["accel"] = (("dir", "time"), (x[::-1] * V / T).astype("f4"), {"units": "m s-2"})
    ds["angrt"] = (("dir", "time"), (x[::-1] / T).astype("f4"), {"units": "rad s-1"})
    ds.attrs.update(inst_make="Nortek", inst_model="Vector", inst_type="ADV", fs=fs, coord_sys="earth", rotate_vars=["vel"],
                    principal_heading=0)
    noise = .125 * V
    r = Out()
    for k in ("u", "v", "w", "U", "U_mag", "U_dir"):
        r.put(k, getattr(ds.velds, k))
    b = ADVBinner(nb, fs, n_fft=nf, n_fft_coh=o["nc"], noise=[noise] * 3 if o["noise"] else [0, 0, 0])
    avg = b(ds, freq_units=fu) if o["call"] else calc_turbulence(ds, nb, fs, n_fft=nf, freq_units=fu)
    if not o["call"]:
        b = ADVBinner(nb, fs, n_fft=nf, n_fft_coh=o["nc"])
    r.put("mean", b.mean(ds.vel.values))
    for k in ("tke_vec", "stress_vec", "psd", "U_std"):
        r.put(k, avg[k])
    r.put("freq", avg["psd"].freq)
    for k in ("E_coh", "I_tke", "I", "tke", "upup_", "vpvp_", "wpwp_", "upvp_", "upwp_", "vpwp_"):
        r.put(k, getattr(avg.velds, k))
    var = b.do_var(ds)
    for k in ("vel_var", "accel_var", "angrt_var"):
        r.put(k, var[k])
    um, U = avg.velds.U_mag, ds.velds.U_mag
    r.put("ti", b.calc_ti(U, noise=noise if o["noise"] else 0, thresh=V / 4, detrend=o["det"]))
    c = b.calc_csd(ds["vel"], freq_units=fu)
    r.put("csd", c)
    r.put("coh_freq", c.coh_freq)
    coh = b.calc_coh(ds.vel[0], ds.vel[1], noise=(noise, noise) if o["noise"] else (0, 0), debias=o["det"])
    r.put("coh", coh)
    r.put("f", coh.f)
    ph = np.asarray(b.calc_phase_angle(ds.vel[0], ds.vel[1]).values, float)
    r.put("phase", np.cos(ph))
    ac = b.calc_acov(ds.vel)
    r.put("acov", ac)
    r.put("xcov", b.calc_xcov(ds.vel[0], ds.vel[1], npt=3))
    psd = avg["psd"]
    r.put("noise", b.calc_doppler_noise(psd, pct_fN=.6))
    fr = [.5 * w / T, 3. * w / T]
    r.put("eps_LT", b.calc_epsilon_LT83(psd, um, freq_range=fr, noise=[noise / 2] * 3 if o["noise"] else None))
    r.put("eps_SF", b.calc_epsilon_SF(ds.vel[0], um, freq_range=[1 / T, 4 / T]))
    r.put("eps_TE", b.calc_epsilon_TE01(ds, avg, freq_range=fr))
    r.put("L_int", b.calc_L_int(ac, um))
    m, _ = b.check_turbulence_cascade_slope(psd, freq_range=fr)
    r.put("slope", np.asarray(m))
    # a binner made for another instrument, told the rate each time
    b2 = ADVBinner(nb, 3 * fs, n_fft=nf, n_fft_coh=o["nc"])
    p2 = b2.calc_psd(ds["vel"], fs=fs, freq_units=fu)
    r.put("psd_fs", p2)
    r.put("freq_fs", p2.freq)
    c2 = b2.calc_csd(ds["vel"], fs=fs, freq_units=fu)
    r.put("csd_fs", c2)
    r.put("coh_freq_fs", c2.coh_freq)
    r.put("L_int_fs", b2.calc_L_int(ac, um, fs=fs))
    r.put("eps_SF_fs", b2.calc_epsilon_SF(ds.vel[0], um, fs=fs, freq_range=[1 / T, 4 / T]))
    return r


def despiked(seed, l, t, fu, o):
    """cleaning looks at shapes and proportions only"""
    rs = np.random.RandomState(seed)
    n = 300
    V, T = 2. ** (l - t), 2. ** t
    fs = 4. / T
    x = np.cumsum(rs.randint(-20, 21, (3, n)), -1) / 64.
    j = rs.choice(n - 20, 6, replace=False) + 10
    x[:, j] += rs.choice([-40, 50], size=(3, 6))
    tm = T0 + (np.arange(n) / fs * 1e9).astype("int64").astype("timedelta64[ns]")
    v = xr.DataArray((x * V), dims=("dir", "time"), coords={"dir": ["E", "N", "U"], "time": tm}, attrs={"units": "m s-1"})
    r = Out()
    k = o["which"] % 3
    m = [lambda: avc.GN2002(v, npt=100), lambda: avc.spike_thresh(v, thresh=10 * V), lambda: avc.range_limit(v, range=[-6 * V, 6 * V])][k]()
    r.put("mask", np.asarray(m, float))
    m = np.asarray(m)
    m[:, [40, 41, 90]] = True
    if o["fill"]:
        f = avc.clean_fill(v.copy(deep=True), m.copy(), npt=12, method=["cubic", "linear"][o["which"] % 2], maxgap=6)
    else:
        f = avc.fill_nan_ensemble_mean(v.copy(deep=True), m.copy(), 4, 20)
    r.put("filled", f)
    return r


def profile(seed, l, t, fu, o):
    rs = np.random.RandomState(seed)
    n, nz, nb = 128, 14, o["nb"] // 2
    L, T = 2. ** l, 2. ** t
    V = L / T
    fs = 2. / T
    w = 1. if fu == "Hz" else 2 * np.pi
    tm = T0 + (np.arange(n) / fs * 1e9).astype("int64").astype("timedelta64[ns]")
    rng = (1. + np.arange(nz)) * L
    ds = xr.Dataset(coords={"time": tm, "time_b5": tm, "range": rng, "range_b5": rng, "beam": [1, 2, 3, 4], "dir": [1, 2, 3, 4],
                            "x1": [1, 2, 3, 4], "x2": [1, 2, 3, 4]})
    x = rs.randint(-64, 65, (5, nz, n)) / 64.
    x += np.cumsum(rs.randint(-20, 21, (5, nz, n)), -2) / 64.
    x[:, 4, 9] = np.nan
    ds["vel"] = (("dir", "range", "time"), (x[:4] * V).astype(o["dt"]), {"units": "m s-1"})
    ds["vel_b5"] = (("range_b5", "time_b5"), (x[4] * V).astype(o["dt"]), {"units": "m s-1"})
    ds["beam2inst_orientmat"] = (("x1", "x2"), B4.copy())
    ds["pitch"] = ("time", rs.randint(-3, 4, n).astype("f4"))
    ds["roll"] = ("time", rs.randint(-3, 4, n).astype("f4"))
    am = np.cumsum(rs.randint(-9, 0, (4, nz, n)), 1) + 200
    am[:, 9:] += 150
    ds["amp"] = (("beam", "range", "time"), am.astype("f4"))
    ds.attrs.update(inst_make="Nortek", inst_model="Signature1000", inst_type="ADCP", fs=fs, coord_sys="beam", rotate_vars=["vel"],
                    orientation="up", beam_angle=25, cell_size=L, blank_dist=.5 * L)
    noise = .0625 * V
    r = Out()
    b = ADPBinner(nb, fs, n_fft=32, diff_style=o["style"])
    apc.find_surface(ds, thresh=20)
    r.put("depth", ds["depth"])
    d3 = ds.copy(deep=True)
    if o["fill"]:
        apc.set_range_offset(d3, L / 4)
    d3["pressure"] = ("time", (rs.randint(1, 60, n) / 4.).astype("f4"))
    d3["temp"] = ("time", (rs.randint(1, 60, n) / 4.).astype("f4"))
    d3 = d3.drop_vars("depth")
    apc.find_surface_from_P(d3, salinity=32)
    r.put("depth_P", d3["depth"])
    r.put("water_density", d3["water_density"])
    if o["fill"]:
        r.put("range_off", d3["range"])
    d2 = apc.nan_beyond_surface(ds)
    r.put("mask", np.isnan(d2["vel"].values))
    avg = b.do_avg(ds)
    r.put("U_std", avg["U_std"])
    earth = ds["vel"][:3].assign_coords(dir=["E", "N", "U"])
    r.put("dudz", b.calc_dudz(earth))
    r.put("dvdz", b.calc_dvdz(earth))
    r.put("dwdz", b.calc_dwdz(earth))
    r.put("tau2", b.calc_shear2(earth))
    r.put("range", b.calc_dudz(earth)["range"])
    st = b.calc_stress_4beam(ds, noise=noise if o["noise"] else None)
    r.put("stress_vec", st)
    tk, _ = b.calc_stress_5beam(ds, noise=noise if o["noise"] else None, tke_only=False)
    r.put("tke_vec", tk)
    r.put("tke_only", b.calc_stress_5beam(ds, tke_only=True))
    p = b.calc_psd(ds["vel_b5"][2], freq_units=fu)
    r.put("psd", p)
    r.put("freq", p.freq)
    nz_ = b.calc_doppler_noise(p, pct_fN=.6)
    r.put("noise", nz_)
    fr = [.2 * w / T, .8 * w / T]
    U = avg.velds.U_mag.isel(range=2)
    r.put("eps_LT", b.calc_dissipation_LT83(p, U, freq_range=fr, noise=noise / 4 if o["noise"] else None))
    m, _ = b.check_turbulence_cascade_slope(p, freq_range=fr)
    r.put("slope", np.asarray(m))
    e, nn, D = b.calc_dissipation_SF(ds["vel_b5"], r_range=[L, 4 * L])
    r.put("eps_SF", e)
    r.put("struct_noise", nn)
    r.put("SF", D)
    r.put("range_SF", D["range_SF"])
    avg["depth"] = ("time", np.full(avg.sizes["time"], 20.) * L)
    r.put("ustar", b.calc_ustar_fit(avg, st.sel(tau="upwp_")))
    r.put("ustar_H", b.calc_ustar_fit(avg, st.sel(tau="upwp_"), H=16. * L))
    v = apc.val_exceeds_thresh(ds["vel"], thresh=V)
    r.put("filled", apc.fillgaps_depth(v, method="linear") if o["fill"] else apc.fillgaps_time(v, method="linear"))
    return r


def moving(seed, l, t, fu, o):
    """the arm to the sensor is fixed in the instrument, so only the clock can be stretched"""
    from drivers.c21 import record, make
    rs = np.random.RandomState(seed)
    T = 2. ** t
    rec = record(rs, 64, 16, att="any")
    ds = make(rec, "f8")
    ds["accel"].values /= T * T
    ds["angrt"].values /= T
    ds["vel"].values /= T
    ds.attrs["fs"] = 16. / T
    r = Out()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = correct_motion(ds, accel_filtfreq=2. / T, to_earth=o["det"])
    for k in ("velacc", "acclow", "velrot"):
        r.put(k, c[k])
    r.put("filled", c["vel"])
    return r


KINDS = {"point": point, "despiked": despiked, "profile": profile, "moving": moving}


def _job(a):
    case, kind, seed, l, t, o = a
    f = KINDS[kind]
    evs = []
    # what is the same quantity, got with and without saying the rate
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    fus = ("Hz", "rad/s") if kind in ("point", "profile") else ("Hz",)
    base = {}
    for fu in fus:
        for ll, tt in ((0, 0), (l, t)):
            st, r = guard(f, seed, ll, tt, fu, o)
            if st != "ok":
                return [(case, {"k": "error", "what": "%s: %s" % (kind, r)})]
            base[fu, (ll, tt) == (l, t)] = r
        a, b = base[fu, False], base[fu, True]
        for q in a:
            # the weight of water is not for the observer to choose
            if q in ("depth_P", "water_density"):
                evs.append(("%s|%s|%s" % (case, fu[:3], q), {"k": "label", "q": q, "tok": b[q]["tok"], "pow": b[q]["pow"], "sn": b[q]["sn"]}))
                continue
            evs.append(("%s|%s|%s" % (case, fu[:3], q), {"k": "scale", "src": kind, "q": q, "l": l, "t": t, "tok": b[q]["tok"], "pow": b[q]["pow"],
                                                        "sn": b[q]["sn"], "a": a[q]["a"], "b": b[q]["a"]}))
    for fu in fus:
        for q in base[fu, True]:
            if q.endswith("_fs"):
                evs.append(("%s|%s|told|%s" % (case, fu[:3], q), {"k": "told", "q": q, "a": base[fu, True][q[:-3]]["a"], "b": base[fu, True][q]["a"]}))
    if len(fus) == 2:
        for q in base["Hz", True]:
            if q in ("depth_P", "water_density"):
                continue
            evs.append(("%s|turns|%s" % (case, q), {"k": "turns", "q": q, "noise": o["noise"], "a": base["Hz", True][q]["a"], "b": base["rad/s", True][q]["a"]}))
    return evs


def run(ctx):
    cs = ctx.mc("MCUnits", ["CONSTANT S = %d" % ctx.pick(3, 6), "INIT UInit", "NEXT UNext", "INVARIANT AllConsistent", "INVARIANT Complete",
                            "INVARIANT Compose", "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "derivations", cases=True)
    seen, sc = set(), []
    for c in cs:
        if (c["l"], c["t"]) not in seen:
            seen.add((c["l"], c["t"]))
            sc.append((c["l"], c["t"]))
    sc.sort()
    r = ctx.rng
    r.shuffle(sc)
    jobs = []
    for i in range(ctx.pick(64, 900)):
        kind = ["point", "profile", "despiked", "moving"][[0, 1, 0, 1, 2, 0, 1, 3][i % 8]]
        l, t = sc[i % len(sc)]
        if kind == "moving":
            l = 0
            t = t or 2
        o = {"nb": r.choice([64, 128]), "nc": r.choice([32, 64]), "dt": r.choice(["f4", "f8"]), "noise": r.random() < .5, "call": r.random() < .7,
             "det": r.random() < .5, "fill": r.random() < .5, "which": r.randint(0, 5), "style": r.choice(["first", "centered", "centered_extended"])}
        jobs.append(("%s/%d/%d,%d" % (kind, i, l, t), kind, ctx.seed * 7907 + i, l, t, o))
    for evs in run_pool(_job, jobs):
        for case, e in evs:
            ctx.emit(e, case)
    done = set()
    for e in ctx.events:
        if e["k"] == "scale" and "tok" not in done and e["tok"] and e["q"] == "psd":
            done.add("tok")
            ctx.canary(dict(e, tok=["m"]))
            ctx.canary(dict(e, b=[[x[0], x[1] + 1] for x in e["b"]]))
        if e["k"] == "turns" and "turns" not in done and e["q"] == "psd":
            done.add("turns")
            ctx.canary(dict(e, b=[[x[0], x[1] + 1] for x in e["b"]]))
