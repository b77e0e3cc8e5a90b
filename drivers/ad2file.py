"""Reads synthetic AD2CP files with the real reader and records what came out, in
the integer units of specs/Ad2.tla."""
import json
import os
import numpy as np
from vlib.core import q, NAN, BADQ
from drivers.rdifile import read, ints, per_sample

# scale to file units, tolerance
SC = {"c_sound": (20, .05), "temp": (200, .05), "pressure": (2000, .3), "temp_clock": (200, .05), "batt": (20, .02),
      "heading": (200, .1), "pitch": (200, .1), "roll": (200, .1), "mag": (10, .05), "accel": (16384 / 9.81, .05),
      "error": (1, 0), "status": (1, 0), "ensemble": (1, 0), "xmit_energy": (1, 0), "vel": (10000, .3), "amp": (2, .01), "corr": (1, 0),
      "dist": (1000, .1), "fom": (1, 0), "echo": (100, .05), "le_dist_alt": (64, .05), "le_quality_alt": (100, .05), "status_alt": (1, 0),
      "ast_dist_alt": (64, .05), "ast_quality_alt": (100, .05), "ast_offset_time_alt": (10000, .05), "pressure_alt": (64, .05),
      "nsamp_alt": (1, 0), "dsamp_alt": (10000, .05), "samp_alt": (256, .01), "quaternions": (64, .01), "angrt": (64 * 180 / np.pi, .05),
      "pitch_std": (100, .05), "roll_std": (100, .05), "heading_std": (100, .05), "press_std": (10, .05),
      "low_volt_skip": (1, 0), "active_config": (1, 0), "telemetry_data": (1, 0), "boost_running": (1, 0)}
CONFIG = ["press_valid", "temp_valid", "compass_valid", "tilt_valid", "-", "vel", "amp", "corr", "le", "altraw", "ast", "echo", "ahrs", "p_gd", "std"]
TAGS = ["raw_avg", "_avg", "_bt", "_b5", "_echo", "raw", ""]


def base(nm):
    for t in TAGS:
        if t and nm.endswith(t):
            b = nm[:-len(t)]
            if b in SC or b == "temp_press" or b == "orientmat":
                return b
    return nm


def clock(t):
    if np.isnat(t):
        return [NAN]
    ns = int((t - np.datetime64("2000-01-01T00:00:00")) / np.timedelta64(1, "ns"))
    u = int(round(ns / 1e5))
    return [u // 10000, u % 10000]


def attr(x, scale=1, tol=.01):
    return int(q(float(x), scale, tol))


def view(ds):
    o = {"vars": {}, "attrs": {}, "ranges": {}}
    for nm in list(ds.data_vars) + [c for c in ds.coords if c.startswith("time")]:
        if nm == "beam2inst_orientmat":
            continue
        da, b = ds[nm], base(nm)
        if nm.startswith("time"):
            v = [clock(t) for t in da.values]
        elif b == "orientmat":
            td = [d for d in da.dims if d.startswith("time")]
            if len(td) != 1 or list(da.dims[:2]) != ["earth", "inst"]:
                v = [[BADQ]]
            else:
                v = [ints(da.values[:, :, i], 64, 2 if not ds.attrs["has_imu"] else .05) for i in range(da.shape[-1])]
        elif b == "temp_press":
            v = [[int(q(10 * float(x) + 40, 1, .05))] for x in da.values]
        elif b in SC:
            v = per_sample(da, *SC[b])
        else:
            v = [[BADQ]]
        o["vars"][nm] = v
    a = ds.attrs
    A = o["attrs"]
    for k, x in a.items():
        for t in TAGS:
            t = "_alt" + t[3:] if t.startswith("raw") else t
            for nm, s in (("n_beams", 1), ("n_cells", 1), ("cell_size", 1000), ("blank_dist", 1000), ("nominal_corr", 1), ("power_level_dB", 1), ("SerialNum", 1), ("ambig_vel", 1000)):
                if k == nm + t:
                    A[k] = attr(x, s)
            if k == "burst_config" + t and t != "_bt":
                A[k] = sum(int(v) << CONFIG.index(n) for n, v in (x if isinstance(x, dict) else json.loads(x)).items())
        for t in ("", "_avg"):
            for nm in ("tilt_over_5deg", "tilt_over_10deg", "multibeam_alt"):
                if k == nm + t:
                    A[k] = int(x)
            if k == "power_level_alt" + t:
                A[k] = str(x)
        if k.startswith("proc_idle_less_"):
            A[k] = int(x)
    for k in ("coord_sys", "orientation", "orient_status", "wakeup_state"):
        A[k] = str(a.get(k))
    A["fs"] = int(min(2 * 10 ** 9, round(float(a.get("fs", 0)) * 1e6)))
    A["avg_interval_sec"] = attr(a.get("avg_interval_sec", -1))
    for k in ("has_imu", "beam_angle"):
        A[k] = attr(a.get(k, -1))
    o["matrix"] = ints(ds["beam2inst_orientmat"].values, 10000, .05)
    o["rotate"] = sorted(a["rotate_vars"])
    for c in ds.coords:
        if c.startswith("range"):
            o["ranges"][c] = ints(ds[c].values, 1000, .05)
    return o


def event(scratch, g, data, name="f.ad2cp", nens=-1, start=0, index="new", **kw):
    p = os.path.join(scratch, "%d_%s" % (os.getpid(), name))
    with open(p, "wb") as f:
        f.write(data)
    try:
        if index == "cached":
            read(p)
        if start:
            kw["nens"] = (start, nens if nens >= 0 else None)
        elif nens >= 0:
            kw["nens"] = nens
        if index == "rebuilt":
            read(p)
            kw["rebuild_index"] = True
        st, ds = read(p, **kw)
        same = open(p, "rb").read() == data
    finally:
        os.remove(p)
        if os.path.exists(p + ".index"):
            os.remove(p + ".index")
    e = {"k": "ad2", "bytes": list(data), "nens": nens, "start": start, "raised": st != "ok", "what": ds if st != "ok" else "",
         "filemut": not same, "out": [], "dp": False, "matrix": [int(round(x * 10000)) for x in g.matrix], "theta": g.theta, "sr": g.sr, "mi": g.mi, "ai": g.ai}
    if st == "ok":
        e["dp"] = isinstance(ds, tuple)
        e["out"] = [view(d) for d in (ds if isinstance(ds, tuple) else (ds,))]
    return e
