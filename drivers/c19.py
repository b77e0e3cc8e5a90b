"""save_mat / load_mat."""
import copy
import os
import numpy as np
import xarray as xr
import dolfyn
from vlib.core import guard
from drivers.c18 import view, snap, ATTRS, K

SPEC = "Storage"
KEEP = ("units", "long_name", "standard_name")
MATATTRS = [(a, b) for a, b in ATTRS if b not in ("",) and not (isinstance(b, list) and not b)] \
    if False else [(a, b) for a, b in ATTRS if a not in ("empty", "none")]


def times(rng, n, i):
    res = [10 ** 8, 125 * 10 ** 6, 10 ** 5, 10 ** 3][i % 4]
    return np.datetime64(["2012-06-12T23:59:58", "2000-02-29T00:00:00", "2020-12-31T23:59:59"][i % 3], "ns") + \
        (np.cumsum(rng.randint(1, 9999, size=n)) * res).astype("timedelta64[ns]")


def dataset(rng, i, kind, n=None, nz=None):
    n = n or int(rng.randint(2, 6))
    nz = nz or int(rng.randint(2, 6))
    nb = 3 if kind in ("adv", "awac") else 4
    f = lambda *s: np.where(rng.rand(*s) < .2, np.nan, rng.randint(-800, 800, size=s) / K)
    g = lambda *s: rng.randint(0, 255, size=s).astype("u1")
    frame = ["beam", "inst", "earth"][rng.randint(3)]
    dirs = {"beam": list(range(1, nb + 1)), "inst": ["X", "Y", "Z", "E"][:nb] if nb == 3 else ["X", "Y", "Z1", "Z2"],
            "earth": ["E", "N", "U"] if nb == 3 else ["E", "N", "U1", "U2"]}[frame]
    if kind == "rdi" and frame != "beam":
        dirs = {"inst": ["X", "Y", "Z", "err"], "earth": ["E", "N", "U", "err"]}[frame]
    ds = xr.Dataset(coords={"time": times(rng, n, i), "beam": np.arange(1, nb + 1, dtype="i4"),
                            "dir": np.array(dirs) if frame != "beam" else np.arange(1, nb + 1, dtype="i4"),
                            "x1": np.arange(1, nb + 1, dtype="i4"), "x2": np.arange(1, nb + 1, dtype="i4"),
                            "earth": ["E", "N", "U"], "inst": ["X", "Y", "Z"]})
    cells = () if kind == "adv" else ("range",)
    csh = () if kind == "adv" else (nz,)
    if cells:
        ds = ds.assign_coords(range=.5 + np.arange(nz) / K)
    tm = ("time",)
    v = {"vel": (("dir",) + cells + tm, f(nb, *csh, n).astype("f4")),
         "amp": (("beam",) + cells + tm, g(nb, *csh, n)), "corr": (("beam",) + cells + tm, g(nb, *csh, n)),
         "beam2inst_orientmat": (("x1", "x2"), rng.randint(-9, 9, size=(nb, nb)) / K),
         "orientmat": (("earth", "inst", "time"), f(3, 3, n)),
         "heading": (tm, f(n)), "pitch": (tm, f(n).astype("f4")), "temp": (tm, f(n)),
         "pressure": (tm, f(n).astype("f4")), "status": (tm, rng.randint(0, 999, n).astype("u2")),
         "orientation_down": (tm, rng.rand(n) < .5), "ensemble": (tm, np.arange(n, dtype="i4"))}
    imu = "dir" if nb == 3 else "dirIMU"
    if kind != "rdi":
        v["accel"] = ((imu, "time"), f(3, n).astype("f4"))
        v["angrt"] = ((imu, "time"), f(3, n).astype("f4"))
        if imu == "dirIMU":
            ds = ds.assign_coords(dirIMU=list("ENU") if frame == "earth" else list("XYZ"))
    ds.attrs.update(coord_sys=frame, n_beams=nb, inst_make="TRDI" if kind == "rdi" else "Nortek",
                    inst_model={"adv": "Vector", "awac": "AWAC", "sig": "Signature1000", "rdi": "Workhorse"}[kind],
                    fs=8, rotate_vars=[["vel"], ["vel", "accel"]][i % 2])
    if kind == "adv":
        v["inst2head_rotmat"] = (("x1", "x2"), np.eye(3)[[1, 0, 2]])
    if kind == "sig":
        m, mz = int(rng.randint(2, 6)), int(rng.randint(2, 6))
        ds = ds.assign_coords(time_b5=times(rng, m, i + 1), range_b5=1. + np.arange(mz),
                              time_echo=times(rng, m + 1, i), range_echo=2. + np.arange(mz + 2),
                              time_bt=times(rng, m + 2, i), time_avg=times(rng, m, i), range_avg=1. + np.arange(nz + 1),
                              time_altraw=times(rng, m, i), n_altraw=np.arange(7), q=["w", "x", "y", "z"])
        v.update({"vel_b5": (("range_b5", "time_b5"), f(mz, m).astype("f4")),
                  "amp_b5": (("range_b5", "time_b5"), g(mz, m)), "temp_b5": (("time_b5",), f(m)),
                  "accel_b5": (("dirIMU", "time_b5"), f(3, m)),
                  "echo": (("range_echo", "time_echo"), f(mz + 2, m + 1)),
                  "temp_echo": (("time_echo",), f(m + 1)),
                  "vel_bt": (("dir", "time_bt"), f(nb, m + 2)), "dist_bt": (("beam", "time_bt"), f(nb, m + 2)),
                  "temp_bt": (("time_bt",), f(m + 2)),
                  "vel_avg": (("dir", "range_avg", "time_avg"), f(nb, nz + 1, m)),
                  "amp_avg": (("beam", "range_avg", "time_avg"), g(nb, nz + 1, m)),
                  "orientmat_avg": (("earth", "inst", "time_avg"), f(3, 3, m)),
                  "temp_avg": (("time_avg",), f(m)),
                  "samp_altraw": (("n_altraw", "time_altraw"), f(7, m)), "temp_altraw": (("time_altraw",), f(m)),
                  "quaternions": (("q", "time"), f(4, n))})
    if kind == "rdi":
        m = int(rng.randint(2, 6))
        ds = ds.assign_coords(time_gps=times(rng, m, i + 1), range_sl=.25 + np.arange(nz))
        v.update({"vel_bt": (("dir", "time"), f(nb, n)), "dist_bt": (("beam", "time"), f(nb, n)),
                  "prcnt_gd": (("beam", "range", "time"), g(nb, nz, n)),
                  "latitude_gps": (("time_gps",), f(m)), "vel_sl": (("dir", "range_sl", "time"), f(nb, nz, n)),
                  "amp_sl": (("beam", "range_sl", "time"), g(nb, nz, n))})
    if i % 4 == 3:         # a time that is data
        v["depl"] = (("time",), ds.time.values + np.timedelta64(100, "ms"))
    names = list(v)
    rng.shuffle(names)
    for nm in names:
        ds[nm] = v[nm]
        base = nm
        for t in ("_avg", "_b5", "_echo", "_bt", "_gps", "_altraw", "_sl"):
            base = base.replace(t, "") if nm.endswith(t) else base
        if nm == "depl":
            ds[nm].attrs["long_name"] = "n"
            continue
        ds[nm].attrs["units"] = "1" if "mat" in nm else "u " + base
        ds[nm].attrs["long_name"] = "Rotation Matrix" if "inst" in nm else "name " + base
        if base in ("vel", "temp", "heading"):
            ds[nm].attrs["standard_name"] = "std_" + base
    for c in ds.coords:
        if c.startswith("time"):
            ds[c].attrs.update(long_name="Time", standard_name="time", units="seconds since 1970-01-01 00:00:00")
    for j in rng.choice(len(MATATTRS), 6, replace=False):
        ds.attrs[MATATTRS[j][0]] = copy.deepcopy(MATATTRS[j][1])
    return ds


def mview(ds):
    v = view(ds, keep=KEEP)
    for r in v["vars"]:
        # labels of beam and direction axes are set on reading; so are the
        # attributes of coordinates other than the times
        if r["coord"] and not r["name"].startswith("time"):
            r["attrs"] = []
    return v


def history(ctx, case, rng, i, hist, kind, d, **kw):
    mem = dataset(rng, i, kind, **kw)
    fn = os.path.join(d, "f.mat")
    if os.path.exists(fn):
        os.remove(fn)
    saved = first = ffirst = None
    dn = fdn = True
    seen = False             # a datenum in the chain
    for j, h in enumerate(hist):
        cs = "%s|%d|%s" % (case, j, h)
        if h.startswith("save"):
            dn = h[5:] in ("plain", "zip", "pack")
            before, bs = mview(mem), snap(mem)
            st, r = guard(dolfyn.save_mat, mem, fn if j % 2 else fn[:-4], datenum=dn)
            ctx.emit({"k": "export", "raised": st == "raise", "what": r if st == "raise" else "",
                      "mut": snap(mem) != bs}, cs)
            if st == "raise":
                return
            saved, fdn = before, dn
            seen = fseen = seen or dn
            first = first or before
            ffirst = first
        elif h == "load":
            st, r = guard(dolfyn.load_mat, fn if j % 2 else fn[:-4], datenum=fdn)
            ev = {"k": "mat", "raised": st == "raise", "what": r if st == "raise" else "", "saved": saved,
                  "first": ffirst, "datenum": fseen}
            st2, lv = guard(mview, r) if st == "ok" else ("raise", "")
            ev["loaded"] = lv if st2 == "ok" else {"vars": [], "attrs": []}
            ctx.emit(ev, cs)
            if st == "raise":
                return
            mem, first = r, ffirst
        else:
            mem["temp"].values[...] = 1
            mem.attrs["changed"] = j
            mem = mem.assign_coords(time=("time", mem.time.values + np.timedelta64(500, "ms"), mem.time.attrs))
            first, seen = None, False


def run(ctx):
    cases = ctx.mc("MCStorage", ["CONSTANT L = %d" % ctx.pick(4, 5), "INIT Init", "NEXT Next",
                                 "INVARIANT FileSound", "PROPERTY SaveNoEffect", "PROPERTY LoadIdem",
                                 "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "histories", cases=True)
    cases = [c["h"] for c in cases]
    ctx.rng.shuffle(cases)
    rng = ctx.np_rng(1)
    kinds = ["adv", "sig", "rdi", "awac"]
    for i, h in enumerate(cases[:ctx.pick(110, 800)]):
        try:
            history(ctx, "%s|%d" % (kinds[i % 4], i), rng, i, h, kinds[i % 4], ctx.scratch)
        except Exception as ex:
            ctx.emit({"k": "error", "what": repr(ex)[:300]}, "%s|%d" % (kinds[i % 4], i))
    for i, (kind, kw) in enumerate([("adv", {"n": 1}), ("awac", {"nz": 1})]):
        history(ctx, "singleton|%s" % kind, rng, i, ["save.plain", "load"], kind, ctx.scratch, **kw)
    for e in ctx.events:
        if e["k"] == "mat" and not e["raised"]:
            c = copy.deepcopy(e)
            v = [x for x in c["loaded"]["vars"] if x["name"] == "vel"]
            if v:
                v[0]["dims"] = v[0]["dims"][::-1]
                ctx.canary(c)
                break
    for e in ctx.events:
        if e["k"] == "mat" and not e["raised"]:
            c = copy.deepcopy(e)
            v = [x for x in c["loaded"]["vars"] if x["name"] == "time"]
            if v and v[0]["kind"] == "time":
                v[0]["v"][0][1] += 1
                ctx.canary(c)
                break
