"""Reads synthetic Nortek files with the real reader and records what came out, in
the integer units of specs/Nrt.tla."""
import os
import re
import numpy as np
from vlib.core import q, NAN, BADQ
from drivers.rdifile import read, ints, per_sample

G = 9.80665
SC = {"pressure": (1000, .3), "amp": (1, 0), "corr": (1, 0), "error": (1, 0), "status": (1, .01), "mag": (64, .05)}
DERIVED = {"beam2inst_orientmat"}


def clock(t, unit):
    if np.isnat(t):
        return [NAN]
    ns = int((t - np.datetime64("2000-01-01T00:00:00")) / np.timedelta64(1, "ns"))
    s, r = ns // 10 ** 9, ns % 10 ** 9
    u = int(round(r * unit / 1e9))
    return [s + u // unit, u % unit]


def view(ds, ahrs=0):
    m = ds.attrs["inst_model"]
    fs = ds.attrs["fs"]
    unit = 50000 if m == "Vectrino" else 512
    out = {"n": int(ds.sizes["time"]), "vars": {}, "attrs": {}}
    a = ds.attrs
    for nm in list(ds.data_vars) + ["time"]:
        if nm in DERIVED or (nm == "orientmat" and ("accel" not in ds or ahrs == 211)):
            continue
        da = ds[nm]
        if nm == "time":
            v = [clock(t, unit) for t in da.values]
        elif nm == "vel":
            v = per_sample(da, 10000, .2)
        elif nm in ("batt", "c_sound", "heading", "pitch", "roll", "temp"):
            s = {"temp": 100}.get(nm, 10)
            v = per_sample(da, s, .01) if m == "AWAC" else [[NAN if np.isnan(x) else int(round(float(x) * s * 100))] for x in da.values]
        elif nm in SC:
            v = per_sample(da, *SC[nm])
        elif nm == "orientation_down":
            v = [[int(x)] for x in da.values]
        elif nm in ("accel", "angrt"):
            v = da                        # scaled by the kind of sensor
        elif nm == "orientmat":
            v = [ints(da.values[:, :, i], 64, .05) for i in range(da.shape[-1])]
        else:
            v = [[BADQ]]
        out["vars"][nm] = v
    A = out["attrs"]
    A["inst_model"] = str(m)
    for k in ("n_beams", "n_bins", "power_level", "compass_update_rate", "analog_in", "carrier_freq_kHz"):
        A[k] = int(a[k])
    for k in ("profile_mode", "sync_out_pos", "vel_range"):
        A[k] = str(a[k])
    A["coord_sys"] = str(a["coord_sys"])
    for k in ("burst_mode", "sample_on_sync", "start_on_sync"):
        A[k] = {"True": 1, "False": 0}.get(str(a[k]), -1)
    for k in ("pressure_sensor", "compass", "tilt_sensor"):
        A[k] = {"yes": 1, "no": 0}.get(a[k], -1)
    A["salinity"] = int(q(a["salinity"], 10, .01))
    A["software"] = int(str(a["software_version"]).replace(".", ""))
    for k in ("user_specified_sound_speed", "analog_output", "serial_output", "power_output_analog", "wrap_mode"):
        A[k] = {"True": 1, "False": 0}.get(str(a[k]), -1)
    for k in ("inst_make", "inst_type", "output_format", "wave_processing_method", "wave_mode", "wave_fs", "wave_cell_position",
              "type_wave_cell_pos"):
        if k in a:
            A[k] = str(a[k])
    for k in ("avg_interval", "prc_dyn_wave_cell_pos", "wave_cell_size", "n_samples_wave", "n_pings_per_burst"):
        if k in a:
            A[k] = int(a[k])
    for k, n in (("deployment_name", "deployment_name"), ("comments", "comments"), ("prolog", "ProLogFWver")):
        A[k] = [ord(c) for c in a[n] if ord(c) < 128]
    d = re.findall(r"[\d.]+", a.get("duty_cycle_description", ""))
    if len(d) == 3:      # seconds per burst at a rate, every so many minutes
        A["duty"] = [int(q(float(d[0]), 512, .01)), int(q(float(d[2]), 60, .01))]
        if abs(float(d[1]) - fs) > 1e-6 * fs:
            A["duty"] = []
    A["serial_number"] = [ord(c) for c in a["serial_number"]]
    A["firmware_version"] = [ord(c) for c in a["firmware_version"]]
    A["recorder_size"] = int(a["recorder_size_bytes"] // 65536)
    A["pic"], A["hardware_rev"] = int(a["PIC_version"]), int(a["hardware_rev"])
    A["period"] = int(q(1. / fs, {"Vector": 512, "AWAC": 1, "Vectrino": 50000}[m], .01))
    A["n_burst"] = int(a.get("duty_cycle_n_burst", 0))
    A["interval"] = int(a.get("duty_cycle_interval", 0))
    A["matrix"] = ints(ds["beam2inst_orientmat"].values, 4096, .05)
    out["range"] = ints(ds["range"].values, 100, .05) if "range" in ds else []
    out["has_imu"] = int(a.get("has_imu", -1))
    return out


def scale_imu(out, fs, ahrs):
    for nm in ("accel", "angrt"):
        if nm in out["vars"]:
            k = (G if nm == "accel" else 1.) * (fs if ahrs in (195, 211) else 1.)
            out["vars"][nm] = per_sample(out["vars"][nm], 64. / k, .05)


def event(scratch, data, name="f.VEC", nens=-1, start=0, ahrs=0, **kw):
    p = os.path.join(scratch, "%d_%s" % (os.getpid(), name))
    with open(p, "wb") as f:
        f.write(data)
    try:
        if start:
            kw["nens"] = (start, nens)
        elif nens >= 0:
            kw["nens"] = nens
        st, ds = read(p, **kw)
        same = open(p, "rb").read() == data
    finally:
        os.remove(p)
    e = {"k": "nrt", "bytes": list(data), "nens": nens, "start": start, "raised": st != "ok", "what": ds if st != "ok" else "",
         "filemut": not same, "out": {}}
    if st == "ok":
        e["out"] = view(ds, ahrs)
        scale_imu(e["out"], ds.attrs["fs"], ahrs)
    return e
