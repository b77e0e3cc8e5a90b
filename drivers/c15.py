"""Windows of a file against the whole of it."""
import json
import os
import random
import zlib
import numpy as np
import dolfyn
from vlib import nrt, pd0
from vlib.core import run_pool, guard
from vlib import ad2
from drivers import nrtfile as NF, rdifile as RF, ad2file as AF, c12, c13, c14
SPEC = "WindowsTrace"
SLOW = ["batt", "c_sound", "heading", "pitch", "roll", "temp", "error", "status", "orientation_down", "time", "orientmat"]


def code(x):
    x = np.asarray(x)
    if x.dtype.kind == "f":
        x = np.where(np.isnan(x), np.float64(-12345.678), x.astype(np.float64)) + 0.
    return zlib.crc32(np.ascontiguousarray(x).tobytes() if x.dtype.kind != "O" else repr(x.tolist()).encode()) & 0x3FFFFFFF


def codes(ds):
    v, s = {}, {}
    for nm in list(ds.variables):
        da = ds[nm]
        td = [d for d in da.dims if d.startswith("time")]
        if td:
            a = np.moveaxis(np.asarray(da.values), da.dims.index(td[0]), 0)
            v[nm] = [code(x) for x in a]
            s["dtype." + nm] = str(da.dtype) + str(da.dims)
        else:
            s["var." + nm] = str(code(da.values)) + str(da.dims)
        for k, a in da.attrs.items():
            s["attr.%s.%s" % (nm, k)] = repr(np.asarray(a).tolist())
    for k, a in ds.attrs.items():
        s["attr." + k] = repr(np.asarray(a).tolist()) if not isinstance(a, str) else a
    return v, {k: zlib.crc32(x.encode()) & 0x3FFFFFFF for k, x in s.items()}


def window(path, start, stop, full, loose, drift=(), **kw):
    st, ds = RF.read(path, nens=(start, stop) if start else stop, **kw)
    st2, ds2 = RF.read(path, nens=(start, stop) if start else stop, **kw)
    fv, fs = codes(full)
    e = {"k": "slice", "start": start, "stop": stop, "total": int(full.sizes["time"]), "raised": st != "ok", "what": ds if st != "ok" else "",
         "full": fv, "win": {}, "again": {}, "statics_full": fs, "statics_win": {}, "loose": loose, "drift": drift}
    if st == "ok":
        e["win"], e["statics_win"] = codes(ds)
        e["again"] = codes(ds2)[0] if st2 == "ok" else {}
    return e


def whole(path, **kw):
    st, ds = RF.read(path, **kw)
    return ds if st == "ok" else None


def _put(scratch, name, data):
    p = os.path.join(scratch, "w%d_%s" % (os.getpid(), name))
    with open(p, "wb") as f:
        f.write(data)
    return p


def _job(a):
    case, fmt, scratch, seed, model, opt, items, wins = a
    res = []
    if fmt == "pd0":
        g = pd0.Gen(random.Random(seed), model, opt.get("cells", 2), **{k: v for k, v in opt.items() if k != "cells"})
        data = b"".join(c12.build(g, it) for it in items)
        name = opt.get("fname", "f.000")
        for a, b in wins:
            if a == 0:
                res.append((case + "/%d" % b, RF.event(scratch, data, name=name, nens=b)))
    else:
        data = nrt.Gen(random.Random(seed), model, **opt).file(items)
        name = c13.NAME[model]
        for a, b in wins:
            res.append((case + "/%d-%d" % (a, b), NF.event(scratch, data, name=name, nens=b, start=a, ahrs=opt.get("ahrs", 204))))
    p = _put(scratch, name, data)
    try:
        full = whole(p)
        if full is not None:
            loose = SLOW if model == "VEC" else []
            if model == "VEC" and "accel" in full and opt.get("ahrs", 204) != 211:
                loose = SLOW[:-1]
            if case.startswith("varied"):
                wins = []          # of varying contents: judged byte by byte above
            for a, b in wins:
                # (the last samples of a Vector may be incomplete)
                if fmt == "pd0" and a:
                    continue
                e = window(p, a, b, full, loose)
                res.append((case + "/slice%d-%d" % (a, b), e))
    finally:
        os.remove(p)
    return res


def _sig(a):
    case, scratch, seed, items, opt, wins, crops = a
    g = ad2.Gen(random.Random(seed), **opt)
    data = g.file(items)
    res = []
    for a, b in wins:
        res.append((case + "/%d-%d" % (a, b), AF.event(scratch, g, data, nens=b, start=a)))
    p = _put(scratch, "f.ad2cp", data)
    c = p + ".crop.ad2cp"
    try:
        full = whole(p)
        if full is not None:
            for a, b in wins:
                res.append((case + "/slice%d-%d" % (a, b), window(p, a, b, full, [])))
            for a, b in crops:
                st, x = guard(dolfyn.io.nortek2_lib.crop_ensembles, p, c, (a, b))
                e = window(c if st == "ok" else p + "/none", 0, 10 ** 6, full, [v for v in full.data_vars if v.startswith("ensemble")])
                e["start"], e["stop"] = a, b
                res.append((case + "/crop%d-%d" % (a, b), e))
                for f in (c, c + ".index"):
                    if os.path.exists(f):
                        os.remove(f)
    finally:
        for f in (p, p + ".index"):
            if os.path.exists(f):
                os.remove(f)
    return res


def _real(a):
    scratch, data, wins = a
    p = _put(scratch, "f.ENR", data)
    res = []
    try:
        full = whole(p)
        for b in wins:
            res.append(("recorded/slice%d" % b, window(p, 0, b, full, [], ["attr.bin1_dist_m", "var.range"])))
    finally:
        os.remove(p)
    return res


def run(ctx):
    r = ctx.rng
    jobs = []
    cases = ctx.mc("MCWindow", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "INVARIANTS IsSlice Prefix Nested Export",
                                "CONSTANTS MaxLen = %d MaxStop = %d" % (ctx.pick(4, 6), ctx.pick(5, 7))], "windows", cases=True)
    by = {}
    for c in cases:
        by.setdefault(tuple(c["items"]), []).append((c["start"], c["stop"]))
    pds = [("full", "junk"), ("full+bt", "badsum"), ("full+bt+unk", "trunc"), ("novel+bt", "junk"), ("less", "badsum"), ("gga+vtg+dbt+hdt", "junk"),
           ("nav", "junk"), ("sl", "badsum"), ("full+status", "trunc")]
    nms = [("VEC", ["sys", "v"], "unk"), ("VEC", ["sys", "v", "imu"], "unk"), ("VEC", ["sys", "v", "imu"], "imux"), ("WPR", ["prof"], "unk"), ("VNO", ["vd"], "chk")]
    i = 0
    for items in sorted(by):
        wins = sorted(by[items])
        for _ in range(ctx.pick(2, 9)):
            s, x = pds[i % len(pds)]
            fw = list(pd0.FW)[i % len(pd0.FW)]
            w = [x_ for x_ in wins if x_[0] == 0]
            its = [s if k == "s" else x for k in items]
            jobs.append(("pd0/%d/%s" % (i, ",".join(its)), "pd0", ctx.scratch, ctx.seed * 1000 + i, fw, {"cells": 1 + i % 3}, its, w))
            i += 1
        for _ in range(ctx.pick(2, 8)):
            m, s, x = nms[i % len(nms)]
            its = sum([s if k == "s" else [x] for k in items], [])
            opt = {}
            if m == "VEC":
                opt = {"ahrs": (204, 195, 211)[i % 3], "avg": (512, 512, 1024)[i % 3]}
            if m == "WPR":
                opt = {"cells": (2, 4)[i % 2]}
            if m == "VNO":
                its = ["vnohdr", "event"] + its
            w = wins if len(wins) < 6 else r.sample(wins, ctx.pick(4, len(wins)))
            jobs.append(("nrt/%d/%s/%s" % (i, m, ",".join(its)), "nrt", ctx.scratch, ctx.seed * 1000 + i, m, opt, its, w))
            i += 1
    # longer files
    for j in range(ctx.pick(12, 120)):
        avg, nb = r.choice([128, 64, 512]), r.choice([0, 8, 16])
        its = c13.burst(r, 24, ["imu"] if j % 2 else [], avg, nb)
        w = [(r.randint(0, 6), r.randint(7, 26)) for _ in range(3)]
        jobs.append(("burst/%d" % j, "nrt", ctx.scratch, ctx.seed * 1000 + i + j, "VEC", {"avg": avg, "n_burst": nb, "ahrs": r.choice([195, 204, 211])}, its, w))
    for j in range(ctx.pick(12, 120)):
        its = [r.choice(["full", "full+bt", "novel", "noamp", "more:bt", "less:bt", "badtime"]) for _ in range(8)]
        jobs.append(("varied/%d" % j, "pd0", ctx.scratch, ctx.seed * 1000 + i + j, list(pd0.FW)[j % len(pd0.FW)], {"cells": 2}, its,
                     [(0, k) for k in r.sample(range(1, 11), 3)]))
    rec = open(os.path.join(os.path.dirname(dolfyn.__file__), "example_data", "vmdas02_os.ENR"), "rb").read()
    sigs = []
    for j in range(ctx.pick(16, 200)):
        ss = [["burst"], ["burst", "b5"], ["burst", "b5", "bt"], ["avg"], ["avg", "echo"], ["burst", "bt", "echo"]][j % 6]
        n = r.randint(3, ctx.pick(6, 12))
        its = (ss + (["odd"] if j % 4 == 3 else []) + ["+"]) * n
        w = {(a, r.randint(a + 1, n + 2)) for a in (0, r.randrange(n - 1), r.randrange(1, n))}
        cr = {(a, r.randint(a + 1, n - 1)) for a in (0, r.randrange(n - 1))}
        if j % 4 == 3:
            cr = set()
        sigs.append(("ad2/%d/%s" % (j, "+".join(ss)), ctx.scratch, ctx.seed * 1000 + j, its, c14.options(r, ss, cells=2), sorted(w), sorted(cr)))
    res = run_pool(_sig, sigs) + run_pool(_job, jobs, chunksize=2) + run_pool(_real, [(ctx.scratch, rec, w) for w in ctx.pick([[1, 2], [17, 700]], [[1, 2, 3], [50, 689], [690, 691], [1000, 345]])])
    seen = 0
    for case, ev in (x for y in res for x in y):
        ctx.emit(ev, case)
        if ev["k"] == "slice" and not ev["raised"] and len(ev["full"].get("vel", [])) > 2 and seen < 3 and ev["win"].get("vel") and ev["stop"] <= ev["total"]:
            seen += 1
            e = json.loads(json.dumps(ev))
            e["win"]["vel"][-1] += 1
            e["again"] = e["win"]
            ctx.canary(e)
            e = json.loads(json.dumps(ev))
            e["statics_win"]["attr.fs"] = 7
            ctx.canary(e)
    ctx.notes.append("%d files, %d of them Signature files (cropped as well)" % (len(jobs) + len(sigs), len(sigs)))
    ctx.chunk = 6
