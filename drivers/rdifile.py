"""Reads synthetic PD0 files with the real reader and records what came out, in
the integer units of specs/Pd0.tla."""
import contextlib
import io
import logging
import os
import warnings
import numpy as np
import xarray as xr
from vlib.core import q, guard, NAN, BADQ
import dolfyn

# scale to file units, tolerance
SC = {"number": (1, 0), "builtin_test_fail": (1, 0), "c_sound": (1, .01), "depth": (10, .01), "heading": (100, .02),
      "pitch": (100, .02), "roll": (100, .02), "salinity": (1, .01), "temp": (100, .02), "min_preping_wait": (100, .02),
      "heading_std": (1, .01), "pitch_std": (10, .01), "roll_std": (10, .01), "pressure": (1000, .3), "pressure_std": (1000, .02),
      "vel": (1000, .02), "corr": (1, 0), "amp": (1, 0), "prcnt_gd": (1, 0), "status": (1, 0), "vel_sl": (1000, .02),
      "corr_sl": (1, 0), "amp_sl": (1, 0), "prcnt_gd_sl": (1, 0), "status_sl": (1, 0), "dist_bt": (100, .1), "vel_bt": (1000, .02),
      "corr_bt": (1, 0), "amp_bt": (1, 0), "prcnt_gd_bt": (1, 0), "alt_eval": (1, 0), "alt_rssi": (1, 0), "alt_dist": (1000, .3),
      "alt_status": (1, 0), "dist_nmea": (16, .01), "clock_offset_UTC_gps": (1000, .02), "avg_speed_gps": (1000, .02),
      "avg_dir_gps": (32768 / 180., .02), "speed_made_good_gps": (1000, .02), "dir_made_good_gps": (32768 / 180., .02),
      "flags_gps": (1, .01), "pitch_gps": (32768 / 180., .02), "roll_gps": (32768 / 180., .02), "fix_gps": (1, 0),
      "n_sat_gps": (1, 0), "hdop_gps": (16, .01), "elevation_gps": (16, .01), "rtk_age_gps": (16, .01),
      "speed_over_grnd_gps": (16 * 1.944, .01), "dir_over_grnd_gps": (16, .01)}
DERIVED = {"orientmat", "beam2inst_orientmat"}


def clock7(t):
    """datetime64 -> [year, month, day, h, m, s, hundredths]"""
    if np.isnat(t):
        return [NAN]
    t = np.datetime64(int(round(t.astype("datetime64[ns]").astype("int64") / 1e7)) * 10, "ms")
    s = str(t)
    return [int(s[0:4]), int(s[5:7]), int(s[8:10]), int(s[11:13]), int(s[14:16]), int(s[17:19]), int(s[20:22])]


def clockms(t):
    if np.isnat(t):
        return [NAN]
    ms = int(round(t.astype("datetime64[ns]").astype("int64") / 1e6))
    s = str(np.datetime64(ms, "ms"))
    return [int(s[0:4]), int(s[5:7]), int(s[8:10]), ms % 86400000]


def ints(x, scale, tol):
    return [int(v) for v in np.ravel(q(x, scale, tol if tol else 1e-9))]


def per_sample(da, scale, tol):
    """list over the time dimension of flat integer lists (cells slowest, beams fastest)"""
    td = [d for d in da.dims if d.startswith("time")]
    if len(td) != 1:
        return [[BADQ]]
    rd = [d for d in da.dims if d.startswith("range")]
    bd = [d for d in da.dims if d not in td + rd]
    a = da.transpose(*(td + rd + bd)).values
    return [ints(a[i], scale, tol) for i in range(a.shape[0])]


def view(ds, vmdas):
    out = {"n": int(ds.sizes["time"]), "vars": {}, "attrs": {}}
    for nm in list(ds.data_vars) + [c for c in ds.coords if c.startswith("time")]:
        if nm in DERIVED:
            continue
        da = ds[nm]
        if nm in ("time", "hdwtime_gps"):
            v = [clock7(t) for t in da.values]
        elif nm == "time_gps":
            v = [clockms(t) for t in da.values]
        elif nm in ("latitude_gps", "longitude_gps"):
            v = [[x] for x in ints(da.values, 2048 / 180. if vmdas else 64, .02)]
        elif nm == "heading_gps":
            v = [[x] for x in ints(da.values, 32768 / 180. if vmdas else 64, .02)]
        elif nm in SC:
            v = per_sample(da, *SC[nm])
            if nm == "number":
                v = [[int(x) for x in np.ravel(y)] for y in da.values]
        else:
            v = [[BADQ]]
        out["vars"][nm] = v
    a = ds.attrs
    A = out["attrs"]
    for k, s in [("prog_ver", 100), ("freq", 1), ("n_beams", 1), ("pings_per_ensemble", 1), ("cell_size", 100), ("blank_dist", 100),
                 ("profiling_mode", 1), ("min_corr_threshold", 1), ("n_code_reps", 1), ("min_prcnt_gd", 1), ("max_error_vel", 1000),
                 ("sec_between_ping_groups", 100), ("heading_misalign_deg", 100), ("magnetic_var_deg", 100), ("bin1_dist_m", 100),
                 ("transmit_pulse_m", 100), ("false_target_threshold", 1), ("transmit_lag_m", 100)]:
        if k in a:
            A[k] = int(q(a[k], s, .02))
    A["beam_angle"] = int(a["beam_angle"] or 0)
    for k in ("beam_pattern", "orientation"):
        A[k] = str(a.get(k))
    # frames are relabelled by the dataset; the recorded one is kept in the attribute
    A["coord_sys"] = str(a.get("coord_sys"))
    for k in ("use_pitchroll", "use_3beam", "bin_mapping"):
        A[k] = {"no": 0, "yes": 1}.get(a.get(k), -1)
    for k in ("sensors_src", "sensors_avail"):
        A[k] = int(a[k], 2) if len(a[k]) == 8 else -1
    A["inst_model"], A["sourceprog"] = str(a["inst_model"]), str(a.get("sourceprog", ""))
    for k in ("bandwidth", "power_level"):
        A[k] = int(a.get(k, -1))
    n = int(a.get("serialnum", -1))
    A["serialnum"] = [n // 65536, n % 65536] if n >= 0 else []
    A["ref0"], A["ref1"] = [int(x) for x in a["water_ref_cells"]]
    out["matrix"] = ints(ds["beam2inst_orientmat"].values, 10000, .5) if "beam2inst_orientmat" in ds else []
    out["range"] = ints(ds["range"].values, 100, .02)
    out["range_sl"] = ints(ds["range_sl"].values, 100, .02) if "range_sl" in ds.coords else []
    out["n_cells"] = int(a.get("n_cells", -1))
    # the recorded variation is in the data: setting the same declination again is no rotation
    out["turned"] = turned(ds) if out_var(a) and "vel" in ds else 0
    out["declination"] = int(q(a.get("declination", 0), 100, .02))
    out["period"] = int(q(1 / a["fs"], 100, .05)) if a["fs"] else BADQ
    out["gps_corrected"] = int(a.get("vel_gps_corrected", -1))
    out["rotate_vars"] = [str(x) for x in np.atleast_1d(a["rotate_vars"])]
    return out


def out_var(a):
    return q(a.get("magnetic_var_deg", 0), 100, .02) != 0


def turned(ds):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st, d2 = guard(dolfyn.set_declination, ds, ds.attrs["magnetic_var_deg"], inplace=False)
    if st != "ok" or int(ds.attrs.get("declination_in_orientmat", 0)) != 1:
        return 2
    x, y = ds["orientmat"].values.astype(float), d2["orientmat"].values.astype(float)
    return 0 if x.shape == y.shape and np.allclose(x, y, atol=1e-4, equal_nan=True) else 1


def read(path, **kw):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        try:
            return guard(dolfyn.read, path, **kw)
        finally:
            logging.disable(logging.NOTSET)


def event(scratch, data, name="f.000", nens=-1, **kw):
    p = os.path.join(scratch, "%d_%s" % (os.getpid(), name))
    with open(p, "wb") as f:
        f.write(data)
    try:
        if nens >= 0:
            kw["nens"] = nens
        st, ds = read(p, **kw)
        same = open(p, "rb").read() == data
    finally:
        os.remove(p)
    e = {"k": "pd0", "ext": name.rsplit(".")[-1], "bytes": list(data), "nens": nens, "raised": st != "ok", "what": ds if st != "ok" else "", "filemut": not same}
    if st == "ok":
        e["out"] = view(ds, "clock_offset_UTC_gps" in ds or "time_gps" not in ds)
    else:
        e["out"] = {}
    return e
