"""Time representations."""
import copy
import os
import time as systime
from datetime import datetime, timedelta
from fractions import Fraction
import numpy as np
import xarray as xr
import dolfyn.time as T
from vlib.core import q, guard, NAN

SPEC = "ClockTrace"
G = 10 ** 9
EPOCH = datetime(1970, 1, 1)


def split(ns):
    d, r = divmod(int(ns), 86400 * G)
    s, n = divmod(r, G)
    return [d, s, n]


# views of one value per representation (recorder side, exact integer arithmetic)
def v_dt64(v):
    v = np.datetime64(v, "ns")
    return [NAN] if np.isnat(v) else split(v.astype("int64"))


def v_float(v, scale, off=0):
    v = float(v)
    if v != v:
        return [NAN]
    return split(round((Fraction(v) - off) * scale))


def v_date(v):
    return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]


VIEW = {"dt64": v_dt64, "epoch": lambda v: v_float(v, G),
        "datenum": lambda v: v_float(v, 86400 * G, 719529),
        "date": v_date, "str": lambda v: v}
FROM = {"dt642epoch": "dt64", "epoch2dt64": "epoch", "date2dt64": "date", "dt642date": "dt64",
        "epoch2date": "epoch", "date2epoch": "date", "date2matlab": "date", "matlab2date": "datenum",
        "date2str": "date", "epoch2str": "epoch"}
TO = {"dt642epoch": "epoch", "epoch2dt64": "dt64", "date2dt64": "dt64", "dt642date": "date",
      "epoch2date": "date", "date2epoch": "epoch", "date2matlab": "datenum", "matlab2date": "date",
      "date2str": "str", "epoch2str": "str"}


def make(rep, dates):
    """Values of a representation for whole-microsecond datetimes (None = missing)."""
    ns = [None if d is None else ((d - EPOCH) // timedelta(microseconds=1)) * 1000 for d in dates]
    if rep == "dt64":
        return np.array([np.datetime64("NaT", "ns") if n is None else np.datetime64(n, "ns") for n in ns])
    if rep == "epoch":
        return np.array([np.nan if n is None else float(Fraction(n, G)) for n in ns])
    if rep == "datenum":
        return np.array([float(Fraction(n, 86400 * G) + 719529) for n in ns])
    return list(dates)


def aslist(v):
    if isinstance(v, xr.DataArray):
        v = v.values
    if isinstance(v, np.ndarray):
        return list(v.reshape(-1))
    return list(v) if isinstance(v, (list, tuple)) else [v]


def call(f, v, off):
    if f == "epoch2str":
        return T.epoch2date(v, off / 3600, to_str=True)
    if f == "epoch2date" and off:
        return T.epoch2date(v, offset_hr=off / 3600)
    return getattr(T, f)(v)


def hop(ctx, case, f, v, off=0):
    if f == "epoch2dt64" and isinstance(v, list):
        v = np.array(v)         # documented for arrays and array elements
    x = [VIEW[FROM[f]](i) for i in aslist(v)]
    keep = copy.deepcopy(v)
    st, y = guard(call, f, v, off)
    ev = {"k": "hop", "f": f, "off": int(off), "x": x, "raised": st == "raise"}
    ev["y"] = [] if st == "raise" else [VIEW[TO[f]](i) for i in aslist(y)]
    ev["what"] = y if st == "raise" else ""
    ev["mut"] = [VIEW[FROM[f]](i) for i in aslist(keep)] != [VIEW[FROM[f]](i) for i in aslist(v)]
    ctx.emit(ev, case)
    if f == "epoch2str" and st == "ok":
        d = T.epoch2date(v, off / 3600)
        ctx.emit({"k": "text", "d": [v_date(i) for i in d], "y": ev["y"], "raised": False}, case + "|text")
    return st, y


def lattice(rng, n):
    days = [(1900, 3, 1), (1904, 2, 29), (1969, 12, 31), (1970, 1, 1), (1972, 2, 29), (1999, 12, 31),
            (2000, 2, 28), (2000, 2, 29), (2000, 3, 1), (2012, 6, 12), (2016, 12, 31), (2019, 3, 10),
            (2020, 2, 29), (2021, 11, 7), (2023, 3, 26), (2037, 12, 31), (2099, 12, 31), (2001, 9, 9)]
    tod = [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 2, 687283), (0, 0, 0, 1), (2, 30, 0, 500000),
           (23, 59, 59, 999950), (23, 59, 59, 999900), (1, 46, 40, 123400), (6, 7, 8, 90), (2, 30, 59, 100)]
    al = [datetime(*d, *t) for d in days for t in tod]
    return [al[i] for i in rng.choice(len(al), size=min(n, len(al)), replace=False)] if n < len(al) else al


def run(ctx):
    ctx.mc("MCClock", ["CONSTANTS DLO = 0 DHI = %d L = 1 FN = 1" % ctx.pick(25000, 60000),
                       "INIT CInit", "NEXT CNext", "INVARIANTS CalendarOk Anchors",
                       "CHECK_DEADLOCK FALSE"], "calendar", workers=1)
    paths = ctx.mc("MCClock", ["CONSTANTS DLO = 0 DHI = 0 L = %d FN = 1" % ctx.pick(3, 5),
                               "INIT PInit", "NEXT PNext", "INVARIANT Typed", "CONSTRAINT PExport",
                               "CHECK_DEADLOCK FALSE"], "paths", cases=True)
    fills = ctx.mc("MCClock", ["CONSTANTS DLO = 0 DHI = 0 L = 1 FN = %d" % ctx.pick(8, 9),
                               "INIT FInit", "NEXT FNext", "INVARIANT FillLaws", "CONSTRAINT FExport",
                               "CHECK_DEADLOCK FALSE"], "fill", cases=True)
    rng = ctx.np_rng(1)
    zones = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Auckland", "XYZ+11:30"]
    old = os.environ.get("TZ")
    try:
        for zi, z in enumerate(zones):
            os.environ["TZ"] = z
            systime.tzset()
            # every conversion over the lattice, in every container form
            dates = lattice(rng, 10 ** 6 if z == "UTC" or not ctx.quick else 40)
            for f in sorted(FROM):
                v = make(FROM[f], dates)
                hop(ctx, "hop|%s|%s|array" % (z, f), f, v)
                if FROM[f] in ("dt64", "epoch"):
                    hop(ctx, "hop|%s|%s|da" % (z, f), f,
                        xr.DataArray(v, dims="time", coords={"time": np.arange(len(v))}))
                    for i in range(4):
                        hop(ctx, "hop|%s|%s|scalar%d" % (z, f, i), f, v[i])
                        hop(ctx, "hop|%s|%s|da0-%d" % (z, f, i), f, xr.DataArray(v[i]))
                if f == "date2epoch" or f == "date2dt64" or f == "date2str":
                    hop(ctx, "hop|%s|%s|scalar" % (z, f), f, dates[0])
                if f == "epoch2date":
                    hop(ctx, "hop|%s|%s|list" % (z, f), f, list(v))
                    hop(ctx, "hop|%s|%s|float" % (z, f), f, float(v[3]))
                if f in ("epoch2date", "epoch2str"):
                    for off in (-7, 13, -11, 5.5):
                        hop(ctx, "hop|%s|%s|off%s" % (z, f, off), f, v, off * 3600)
                if f in ("dt642epoch", "epoch2dt64", "dt642date", "epoch2date"):
                    miss = list(dates[:6])
                    miss[2] = miss[5] = None
                    hop(ctx, "hop|%s|%s|missing" % (z, f), f, make(FROM[f], miss))
            # compositions
            sel = paths if z == "UTC" or not ctx.quick else [p for i, p in enumerate(paths) if i % len(zones) == zi]
            for p in sel:
                ds = [dates[i] for i in rng.choice(len(dates), 12)]
                if p[0] == "datenum" or any("matlab" in f for f in p):
                    ds = [d.replace(microsecond=d.microsecond // 100 * 100) if i % 2 else d
                          for i, d in enumerate(ds)]
                x = v = make(p[0], ds)
                st = "ok"
                for i, f in enumerate(p[1:]):
                    st, v = hop(ctx, "path|%s|%s|%d" % (z, ">".join(p), i), f, v)
                    if st == "raise":
                        break
                last = TO[p[-1]] if st == "ok" else "none"
                if last == "str":
                    continue
                ev = {"k": "path", "fs": p[1:], "first": p[0], "last": last,
                      "raised": st == "raise",
                      "x": [VIEW[p[0]](i) for i in aslist(x)],
                      "y": [] if st == "raise" else [VIEW[last](i) for i in aslist(v)]}
                ctx.emit(ev, "path|%s|%s" % (z, ">".join(p)))
                if p[0] == "date" and last == "date" and not any("matlab" in f for f in p):
                    ctx.emit({"k": "exact", "x": ev["x"], "y": ev["y"], "raised": ev["raised"]},
                             "exact|%s|%s" % (z, ">".join(p)))
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        systime.tzset()
    for y in list(range(0, 102)) + [1969, 1999, 2024]:
        ctx.emit({"k": "year", "x": y, "y": int(T._fullyear(y))}, "year|%d" % y)
    for i, c in enumerate(fills):
        base = [0., 1.3e9, -4e8, 1.6e9][i % 4]
        rate = [1., 2., .5, 4.][(i // 4) % 4]
        u = .25
        x = np.array([np.nan if k == NAN else base + k * u for k in c["x"]])
        st, y = guard(T._fill_time_gaps, x.copy(), rate)
        # unit of the record: u seconds; one step is 1/rate seconds
        if (1 / rate) % u:
            continue
        ctx.emit({"k": "fill", "x": c["x"], "step": int(1 / rate / u), "sc": 1000,
                  "raised": st == "raise", "what": y if st == "raise" else "",
                  "y": [] if st == "raise" else q((np.asarray(y) - base) / u, 1000)},
                 "fill|%d|%s" % (i, rate))
    for e in ctx.events:
        if e["k"] == "hop" and e["f"] == "date2dt64" and not e["raised"]:
            e = copy.deepcopy(e)
            e["y"][0][2] += 1000
            ctx.canary(e)
            break
    for e in ctx.events:
        if e["k"] == "fill" and not e["raised"] and e["y"] and e["y"][0] != NAN:
            e = copy.deepcopy(e)
            e["y"][0] += 250
            ctx.canary(e)
            break
