"""save / load."""
import copy
import hashlib
import os
import netCDF4
import numpy as np
import xarray as xr
import dolfyn
from vlib.core import q, guard, NAN
from drivers.c20 import v_dt64

SPEC = "Storage"
K = 8            # values are multiples of 1/8: exact in single precision


def kind(a):
    c = a.dtype.kind
    if c == "M":
        return "time"
    if c in "US":
        return "str"
    if c == "O":
        return "str" if all(isinstance(i, str) for i in a.reshape(-1)) else "object"
    return "bool" if c == "b" else c + str(a.dtype.itemsize)


def vals(a, sc=K):
    k = kind(a)
    f = a.reshape(-1)
    if k == "time":
        return [v_dt64(i) for i in f]
    if k in ("str", "object"):
        return [str(i) for i in f]
    if k in ("c8", "c16"):
        return [[x, y] for x, y in zip(q(f.real, sc, 1e-3), q(f.imag, sc, 1e-3))]
    return q(f.astype(float), sc, 1e-3)


def txt(v):
    if isinstance(v, (bool, np.bool_)):
        return "n:%r" % int(v)
    if isinstance(v, (int, np.integer)):
        return "n:%d" % int(v)
    if isinstance(v, (float, np.floating)):
        return "n:%d" % int(v) if float(v).is_integer() and abs(v) < 1e15 else "n:%r" % float(v)
    return "s:%s" % v if isinstance(v, str) else "o:%r" % (v,)


def attrview(at, skip=()):
    res = []
    for n in sorted(at, key=str):
        if n in skip:
            continue
        v = at[n]
        lst = isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v) > 0
        flat = list(np.asarray(v, dtype=object).reshape(-1)) if lst else [v]
        res.append({"name": n, "list": bool(lst), "v": [txt(i) for i in flat]})
    return res


def view(ds, sc=K, keep=None):
    """keep: only these variable attributes are part of the view."""
    vs = []
    for n in sorted(ds.variables):
        v = ds[n]
        at = {a: b for a, b in v.attrs.items() if keep is None or a in keep}
        vs.append({"name": n, "coord": n in ds.coords, "kind": kind(v.values), "dims": list(v.dims),
                   "v": vals(v.values, sc),
                   # the units of a time are how it is stored
                   "attrs": attrview(at, ("units",) if kind(v.values) == "time" else ())})
    return {"vars": vs, "attrs": attrview(ds.attrs)}


def snap(ds):
    """Everything a caller can see of a dataset, for before/after comparison."""
    return repr([(n, ds[n].dims, str(ds[n].dtype), vals(ds[n].values, 1 if ds[n].dtype.kind == "f" else K),
                  hashlib.md5(np.ascontiguousarray(ds[n].values).tobytes()
                              if ds[n].dtype.kind != "O" else repr(ds[n].values.tolist()).encode()).hexdigest(),
                  sorted(ds[n].attrs.items(), key=str), sorted(ds[n].encoding.items(), key=str))
                 for n in ds.variables] + [list(ds.attrs.items()), sorted(ds.coords), sorted(ds.dims)])


ATTRS = [("fs", 8), ("frac", .1), ("serial", "VEC 1234"), ("empty", ""), ("cells", [1, 2, 3]),
         ("vec", [.5, .25, -1.]), ("names", ["a", "bcd", ""]), ("one", [5]), ("ones", ["x"]), ("none", []),
         ("arr", np.array([1., 2.5])), ("i1", np.int8(-3)), ("f32", np.float32(.1)), ("uni", "°C ü"),
         ("neg", -7), ("big", 2 ** 40), ("tiny", 1e-20), ("tup", (4, 5)), ("text", "line1\nline2")]


def dataset(rng, i):
    n, nz = int(rng.randint(1, 6)), int(rng.randint(1, 4))
    res = [10 ** 9, 10 ** 6, 125 * 10 ** 6, 1][i % 4]
    t = np.datetime64("2012-06-12T12:00:02", "ns") + (np.cumsum(rng.randint(1, 9, size=n)) * res).astype("timedelta64[ns]")
    ds = xr.Dataset(coords={"time": t, "dir": ["E", "N", "U"], "range": .5 + np.arange(nz),
                            "beam": np.arange(1, 5, dtype="i4"), "lon": (("time",), rng.randint(0, 99, n) / 8)})
    f = lambda *s: np.where(rng.rand(*s) < .2, np.nan, rng.randint(-800, 800, size=s) / K)
    al = {"vel": (("dir", "range", "time"), f(3, nz, n).astype("f4")),
          "velp": (("dir", "time"), f(3, n)),
          "press": (("time",), f(n)),
          "amp": (("beam", "range", "time"), rng.randint(0, 255, size=(4, nz, n)).astype("u1")),
          "status": (("time",), rng.randint(0, 60000, size=n).astype("u2")),
          "sm": (("time",), rng.randint(-100, 100, size=n).astype("i1")),
          "cnt": (("time",), rng.randint(-3000, 3000, size=n).astype("i2")),
          "ens": (("time",), rng.randint(0, 10 ** 6, size=n).astype("i4")),
          "big": (("time",), rng.randint(0, 10 ** 7, size=n).astype("i8")),
          "down": (("time",), rng.rand(n) < .5),
          "lab": (("dir",), np.array(["aé", "", "ccc"])),
          "gps": (("time",), np.where(rng.rand(n) < .3, np.datetime64("NaT", "ns"), t + np.timedelta64(250, "ms"))),
          "U": (("time",), (f(n) + 1j * rng.randint(-80, 80, size=n) / K).astype("c8")),
          "C": (("dir", "time"), (rng.randint(-80, 80, size=(3, n)) / K + 1j * rng.randint(-80, 80, size=(3, n)) / K)),
          "W": (("time",), (rng.randint(-80, 80, size=n) * 1j / K).astype("c8")),
          "scal": ((), np.float64(2.5)), "scali": ((), np.int32(7)),
          "infs": (("time",), np.full(n, np.inf, "f4")),
          "mat": (("beam", "dir"), rng.randint(-9, 9, size=(4, 3)) / K)}
    names = sorted(al)
    sel = names if i % 5 == 0 else [names[j] for j in rng.choice(len(names), 6, replace=False)]
    for nm in sel:
        d, a = al[nm]
        if nm == "U":      # a missing complex sample is missing in both parts
            a = np.where(np.isnan(a), np.complex64(complex(np.nan, np.nan)), a).astype("c8")
        ds[nm] = (d, np.array(a))
        for a, b in [("units", "u " + nm), ("long_name", "name of " + nm)] + [ATTRS[j] for j in rng.choice(len(ATTRS), 2)]:
            if b is not None and not (nm == "gps" and a == "units"):
                ds[nm].attrs[a] = copy.deepcopy(b)
    ds.time.attrs.update(long_name="Time", units="seconds since 1970-01-01 00:00:00", standard_name="time")
    ds["range"].attrs["units"] = "m"
    for j in rng.choice(len(ATTRS), 8, replace=False):
        ds.attrs[ATTRS[j][0]] = copy.deepcopy(ATTRS[j][1])
    ds.attrs.update(coord_sys="earth", rotate_vars=[["vel"], ["vel", "velp"], []][i % 3])
    return ds


def digest(fn):
    return hashlib.md5(open(fn, "rb").read()).hexdigest()


def options(rng, ds, o):
    kw, req, free = {}, {}, []
    num = [n for n in ds.data_vars if ds[n].dtype.kind == "f" and ds[n].ndim and ds[n].size > 1 and n != "infs"]
    if "zip" in o:
        kw["compression"] = True
    if "enc" in o and num:
        enc = {}
        for n in num[:2]:
            enc[n] = [{"dtype": "float64"}, {"zlib": True, "complevel": 7}, {"zlib": False},
                      {"zlib": True, "complevel": 3, "dtype": "float64"}][rng.randint(4)]
        kw["encoding"] = enc
    if o == "pack" and num:
        n = num[0]
        kw["encoding"] = {n: {"dtype": "int16", "scale_factor": 1 / K, "_FillValue": -32768}}
    for n, e in kw.get("encoding", {}).items():
        free.append(n)
        req[n] = e
    return kw, req, free


def storage(fn, ds, req):
    st, rq = [], []
    nc = netCDF4.Dataset(fn)
    try:
        for n in sorted(ds.variables):
            if n not in nc.variables:
                continue
            v = nc.variables[n]
            f = v.filters() or {}
            r = req.get(n, {})
            num = v.dtype is not str and v.dtype.kind in "fiu"
            st.append({"dtype": "str" if v.dtype is str else str(v.dtype), "zlib": bool(f.get("zlib")),
                       "level": int(f.get("complevel", 0)), "size": int(v.size), "num": bool(num)})
            rq.append({"dtype": r.get("dtype", ""), "level": r.get("complevel", 0),
                       "zlib": {True: "yes", False: "no", None: ""}[r.get("zlib")]})
    finally:
        nc.close()
    return st, rq


def history(ctx, case, rng, i, hist, d):
    mem = dataset(rng, i)
    fn = os.path.join(d, "f.nc")
    if os.path.exists(fn):
        os.remove(fn)
    saved = first = ffirst = None
    free = []
    for j, h in enumerate(hist):
        cs = "%s|%d|%s" % (case, j, h)
        if h.startswith("save"):
            kw, req, fr = options(rng, mem, h[5:])
            kwb = copy.deepcopy(kw)
            before, bs = view(mem), snap(mem)
            st, r = guard(mem.velds.save, fn, **kw) if (i + j) % 3 == 0 else guard(dolfyn.save, mem, fn, **kw)
            ev = {"k": "save", "raised": st == "raise", "what": r if st == "raise" else "",
                  "mut": snap(mem) != bs, "optmut": kw != kwb, "comp": bool(kw.get("compression")),
                  "store": [], "req": []}
            if st == "ok":
                ev["store"], ev["req"] = storage(fn, mem, req)
                saved = before
                free = sorted(set(free) | set(fr))
                if first is None:
                    first = before
                ffirst = first
            ctx.emit(ev, cs)
            if st == "raise":
                return
        elif h == "load":
            dg = digest(fn)
            st, r = guard(dolfyn.load, fn if j % 2 else fn[:-3])
            ev = {"k": "load", "raised": st == "raise", "what": r if st == "raise" else "", "saved": saved,
                  "first": ffirst, "free": free, "filemut": digest(fn) != dg}
            ev["loaded"] = {"vars": [], "attrs": []} if st == "raise" else view(r)
            ctx.emit(ev, cs)
            if st == "raise":
                return
            mem, first = r, ffirst
        else:
            nm = [n for n in mem.data_vars if mem[n].dtype.kind in "fiu"]
            if nm:
                mem[nm[0]] = mem[nm[0]] * 0 + 3 if mem[nm[0]].dtype.kind != "u" else mem[nm[0]]
                if mem[nm[0]].ndim:
                    mem[nm[-1]].values[...] = 1
            # other numbers, which the type it was loaded with may not hold, in the same variable
            nm = [n for n in mem.data_vars if mem[n].dtype.kind in "iu" and n not in free]
            if nm:
                n = nm[rng.randint(len(nm))]
                x = rng.randint(-4000, 4000, size=mem[n].shape)
                mem[n].values = [x / K, (x / K).astype("f4"), x.astype("i4")][rng.randint(3)]
            mem.attrs["changed"] = j
            mem = mem.assign_coords(time=mem.time + np.timedelta64(500, "ms"))
            first = None


def names(ctx, d):
    ds = dataset(ctx.np_rng(9), 1)
    for lib, want, ld in ((dolfyn.save, "nc", dolfyn.load), (dolfyn.save_mat, "mat", None)):
        if want == "mat":
            continue
        for base in ("plain", "with.dots.b1.20200813", "noext", "dir.x/plain"):
            for ext in ("", want, "txt", "mat" if want == "nc" else "nc", "NC"):
                sub = os.path.join(d, "n")
                os.makedirs(os.path.join(sub, "dir.x"), exist_ok=True)
                dotted = "." in os.path.basename(base)
                if ext == "" and dotted:
                    continue
                p = base + ("." + ext if ext else "")
                st, r = guard(lib, ds, os.path.join(sub, p))
                made = []
                for root, _, fs in os.walk(sub):
                    for f in fs:
                        made.append(os.path.relpath(os.path.join(root, f), sub))
                        os.remove(os.path.join(root, f))
                ctx.emit({"k": "name", "ext": ext, "want": want, "raised": st == "raise",
                          "made": ",".join(sorted(made)), "expect": base + "." + want}, "name|" + want + "|" + p)
    fn = os.path.join(d, "ptr.nc")
    open(fn, "wb").write(b"version https://git-lfs.github.com/spec/v1\noid sha256:aa\nsize 3\n")
    st, r = guard(dolfyn.load, fn)
    ctx.emit({"k": "pointer", "raised": st == "raise", "named": "git-lfs" in str(r)}, "pointer|nc")


def run(ctx):
    cases = ctx.mc("MCStorage", ["CONSTANT L = %d" % 5, "INIT Init", "NEXT Next",
                                 "INVARIANT FileSound", "PROPERTY SaveNoEffect", "PROPERTY LoadIdem",
                                 "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "histories", cases=True)
    ctx.rng.shuffle(cases)
    rng = ctx.np_rng(1)
    again = [c["h"] for c in cases if c["again"]]
    n = ctx.pick(30, len(again))
    cases = again[:n] + [c["h"] for c in cases if not c["again"]]
    for i, h in enumerate(cases[:ctx.pick(120, 900)]):
        try:
            history(ctx, "h|%d" % i, rng, i, h, ctx.scratch)
        except Exception as ex:
            ctx.emit({"k": "error", "what": repr(ex)[:300]}, "h|%d" % i)
    names(ctx, ctx.scratch)
    done = set()
    for e in ctx.events:
        if e["k"] == "load" and not e["raised"] and len(done) < 3:
            for kd in ("f4", "str", "time"):
                w = [j for j, v in enumerate(e["loaded"]["vars"]) if v["kind"] == kd and v["v"]]
                if w and kd not in done:
                    done.add(kd)
                    c = copy.deepcopy(e)
                    x = c["loaded"]["vars"][w[0]]["v"]
                    x[0] = {"f4": 12345, "str": "zz", "time": [1, 2, 3]}[kd]
                    ctx.canary(c)
