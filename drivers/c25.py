"""Whole lives of datasets: specs/Workflow.tla's histories on datasets read from files."""
import os
import random
import shutil
import tempfile
import numpy as np
import dolfyn
import dolfyn.adp.turbulence
import dolfyn.adv.turbulence
from dolfyn.adv.motion import correct_motion
from dolfyn.adp import clean as apc
from vlib import nrt, pd0, ad2
from vlib.core import q, guard, run_pool, NAN, BADQ
from drivers.rdifile import read

SPEC = "Workflow"
NO = 999999
TAGS = ["_altraw_avg", "_altraw", "_alt_avg", "_avg", "_b5", "_bt", "_echo", "_sl"]
VEL = 0b11101111
B = {3: [[1., -.5, -.5], [0, -.75, .75], [.5, .25, .25]],
     4: [[1., 0, -1, 0], [0, -1, 0, 1], [.5, 0, .5, 0], [0, .5, 0, .5]],
     "wh": [[1., -1, 0, 0], [0, 0, -1, 1], [.25, .25, .25, .25], [.5, .5, -.5, -.5]]}
R = np.array([[0, 1., 0], [-.6, 0, .8], [.8, 0, .6]])


def base(n):
    for t in TAGS:
        if n.endswith(t):
            b = n[:-len(t)]
            if t.startswith("_alt") and n != "samp_altraw":
                return (b + "_alt", t)
            return (b + "_alt" if t.startswith("_alt") else b, t)
    return n, ""


def when(t, t0):
    return [NAN if np.isnat(x) else int(np.rint((x - t0) / np.timedelta64(1, "ms"))) for x in t.values]


def label(s):
    s = str(s).lower()
    return "bottom" if "bottom" in s else "water" if "water" in s and "velocity" in s else ""


def num(a, scale):
    return int(q(float(a), scale, .02))


def view(ds, t0):
    vs = []
    for n in list(ds.data_vars) + [c for c in ds.coords if c.startswith(("time", "range"))]:
        b, tag = base(n)
        a = ds[n].attrs
        vs.append({"n": n, "b": b, "tag": tag, "u": str(a.get("units", "")), "sn": str(a.get("standard_name", "")),
                   "ln": bool(str(a.get("long_name", ""))), "lab": label(a.get("long_name", "")) if b == "vel" else "",
                   "dims": list(ds[n].dims), "times": [d for d in ds[n].dims if d.startswith("time")]})
    a = ds.attrs
    return {"vars": vs, "coord": str(a["coord_sys"]), "refframe": str(ds["dir"].attrs.get("ref_frame", "")),
            "dir": [str(x) for x in ds["dir"].values], "dirimu": [str(x) for x in ds["dirIMU"].values] if "dirIMU" in ds.coords else [],
            "dec": num(a["declination"], 100) if "declination" in a else NO,
            "ph": num(a["principal_heading"], 100) if "principal_heading" in a else NO,
            "hdep": num(a["h_deploy"], 1000) if "h_deploy" in a else NO,
            "nbin": num(a["n_bin"], 1) if "n_bin" in a else NO, "fs": num(float(a.get("fs", 0)) * 1e6 % 1e9, 1) if "fs" in a else NO,
            "rotate": list(a["rotate_vars"]), "timecoords": [c for c in ds.coords if c.startswith("time")],
            "range": q(ds["range"].values, 1000, .2) if "range" in ds.coords else [], "time": when(ds["time"], t0) if "time" in ds.coords else []}


def values(ds, t0):
    out = {}
    for n in list(ds.variables):
        v = ds[n]
        if v.dtype.kind in "US":
            continue
        if v.dtype.kind == "M":
            x = when(v, t0)
            exact = False
        else:
            sc = 1 if v.dtype.kind in "bu" else 1000
            x = np.ravel(q(np.asarray(v.values, float), sc)).tolist()
            exact = v.dtype.kind == "b"
        out[n] = {"d": list(v.dims), "v": x, "x": exact}
    a = ds.attrs
    for k in ("declination", "principal_heading", "h_deploy", "n_bin"):
        if k in a:
            out["attribute " + k] = {"d": [], "v": [num(a[k], 1000)], "x": False}
    return out


def rotations(rs, n):
    """proper rotations, (earth, inst, time)"""
    o = np.zeros((3, 3, n))
    for i in range(n):
        m, _ = np.linalg.qr(rs.normal(size=(3, 3)))
        o[..., i] = m * np.sign(np.linalg.det(m))
    return o


def make(kind, fr, seed, scratch):
    """A dataset read from a file, with measurements that are neither missing nor noise."""
    r = random.Random(seed)
    n = 24 if kind == "imu" else 8
    co = {"earth": 0, "inst": 1, "beam": 2}[fr]
    if kind == "vec":
        b, nm = nrt.Gen(r, "VEC", coord=co, n_burst=0).file(["sys"] + ["v"] * n), "f.vec"
    elif kind == "imu":
        b, nm = nrt.Gen(r, "VEC", coord=co, n_burst=0, ahrs=r.choice([204, 211])).file(["sys"] + ["imu", "v"] * n), "f.vec"
    elif kind == "awac":
        b, nm = nrt.Gen(r, "WPR", coord=co, cells=4).file(["prof"] * n), "f.wpr"
    elif kind == "wh":
        g = pd0.Gen(r, "wh50", cells=4, coord={"earth": 24, "inst": 8, "beam": 0}[fr], var=0, beam5=False)
        b, nm = b"".join(g.ens("full+bt") for _ in range(n)), "f.000"
    else:
        s = r.choice([["burst"], ["burst", "b5"], ["burst", "bt"], ["burst", "b5", "bt"]])
        a = r.choice([0, 1 << 12])
        g = ad2.Gen(r, coord=co, cells=4, beams=4, flags_burst=VEL | a, flags_b5=VEL | a, flags_bt=0b101111 | 1 << 8 | 1 << 9 | (1 << 10 if a else 0))
        b, nm = g.file((s + ["+"]) * n), "f.ad2cp"
    p = os.path.join(scratch, nm)
    with open(p, "wb") as f:
        f.write(b)
    st, ds = read(p)
    if st != "ok":
        raise ValueError(str(ds))
    rs = np.random.RandomState(seed % 2 ** 31)
    for v in ds.data_vars:
        x = ds[v]
        if v.startswith("vel") or v in ("accel", "angrt", "mag") or v.startswith(("accel_", "angrt_", "mag_")):
            x.values[...] = rs.randint(-2000, 2001, size=x.shape) / 500.
        elif v.startswith("corr"):
            x.values[...] = rs.choice([10, 49, 50, 51, 90], p=[.1, .05, .05, .1, .7], size=x.shape)
        elif v in ("pressure", "pressure_b5"):
            top = float(ds["range"].max()) * 1.1 if "range" in ds else 5
            x.values[...] = rs.uniform(.2, 1.1, size=x.shape) * top
        elif v in ("temp", "temp_b5"):
            x.values[...] = rs.randint(0, 20, size=x.shape)
    for v in [v for v in ds.data_vars if v.startswith("orientmat")]:
        ds[v].values[...] = rotations(rs, ds[v].shape[-1])
    if kind == "imu":
        ds.attrs["inst2head_vec"] = [.25, -.5, 1.]
    k = 3 if kind in ("vec", "imu", "awac") else "wh" if kind == "wh" else 4
    ds["beam2inst_orientmat"].values[...] = B[k]
    return ds


def step(ds, o, kind, rng, scratch):
    """-> dataset after the operation, was the source of a copying operation changed"""
    inpl = rng.random() < .5
    acc = rng.random() < .5
    before = None if inpl else ds.copy(deep=True)

    def done(r):
        if inpl:
            return ds, False
        return r, not before.identical(ds)
    if o in ("beam", "inst", "earth", "principal"):
        return done(ds.velds.rotate2(o, inplace=inpl) if acc else dolfyn.rotate2(ds, o, inplace=inpl))
    if o.startswith("dec"):
        d = {"dec10": 10, "decm25": -25, "dec0": 0}[o]
        return done(ds.velds.set_declination(d, inplace=inpl) if acc else dolfyn.set_declination(ds, d, inplace=inpl))
    if o.startswith("ph"):
        ds.attrs["principal_heading"] = float(o[2:])
        return ds, False
    if o == "head":
        return done(ds.velds.set_inst2head_rotmat(R, inplace=inpl) if acc else dolfyn.set_inst2head_rotmat(ds, R, inplace=inpl))
    if o == "filt":
        return done(apc.correlation_filter(ds, thresh=50, inplace=inpl))
    if o == "surf":
        apc.find_surface_from_P(ds)
        before = None if inpl else ds.copy(deep=True)
        return done(apc.nan_beyond_surface(ds, inplace=inpl, **({"beam_angle": 25} if kind == "awac" else {})))
    if o == "off":
        apc.set_range_offset(ds, 2)
        return ds, False
    if o == "cut":
        return ds.isel({d: slice(1, -1) for d in ds.dims if d.startswith("time")}).copy(deep=True), False
    if o == "nc":
        p = os.path.join(scratch, "s.nc")
        if acc:
            ds.velds.save(p)
        else:
            dolfyn.save(ds, p, compression=bool(rng.random() < .3))
        r = dolfyn.load(p)
        os.remove(p)
        return r, False
    if o == "mat":
        p = os.path.join(scratch, "s.mat")
        dolfyn.save_mat(ds, p, datenum=bool(acc))
        r = dolfyn.load_mat(p, datenum=bool(acc))
        os.remove(p)
        return r, not (inpl or before.identical(ds))
    if o == "mot":
        r = correct_motion(ds, accel_filtfreq=.1)
        return r, not (inpl or before.identical(ds))
    if o == "avg":
        before = ds.copy(deep=True)
        bn = (dolfyn.adp.turbulence.ADPBinner if "range" in ds.dims else dolfyn.adv.turbulence.ADVBinner)(n_bin=2, fs=ds.attrs["fs"])
        r = bn.do_avg(ds)
        return r, not before.identical(ds)
    raise KeyError(o)


def live(ds0, h, kind, rng, scratch, t0):
    ds = ds0.copy(deep=True)
    views, mut = [view(ds, t0)], False
    for o in h:
        st, r = guard(step, ds, o, kind, rng, scratch)
        if st != "ok":
            return None, views, mut, "%s: %s" % (o, r)
        ds, m = r
        mut = mut or m
        views.append(view(ds, t0))
    return ds, views, mut, ""


def _lives(a):
    case, scratch, seed, kind, fr, hs = a
    d = tempfile.mkdtemp(dir=scratch)
    rng = random.Random(seed)
    out = []
    try:
        ds0 = make(kind, fr, seed, d)
        t0 = ds0["time"].values[0]
        ends = []
        for j, h in enumerate(hs):
            ds, views, mut, why = live(ds0, h, kind, rng, d, t0)
            out.append((case + "/%d:%s" % (j, ",".join(h)), {"k": "life", "kind": kind, "fr": fr, "h": h, "views": views, "mut": mut,
                                                         "refused": ds is None, "what": why}))
            if ds is not None:
                ends.append((h, values(ds, t0)))
        for h, v in ends[1:]:
            out.append((case + "/meet:" + ",".join(h), {"k": "meet", "kind": kind, "fr": fr, "ha": ends[0][0], "hb": h, "va": ends[0][1], "vb": v}))
    except Exception as ex:
        out.append((case, {"k": "error", "what": repr(ex)[:300]}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def _file(a):
    case, scratch, seed = a
    from drivers import c14
    r = random.Random(seed)
    d = tempfile.mkdtemp(dir=scratch)
    out = []
    try:
        n = r.randint(3, 6)
        kind = r.choice(["vec", "imu", "awac", "vno", "wh", "wh", "sig", "sig"])
        if kind == "vec":
            b, nm = nrt.Gen(r, "VEC").file(["sys"] + ["v"] * n), "f.vec"
        elif kind == "imu":
            b, nm = nrt.Gen(r, "VEC", ahrs=r.choice([195, 204, 211])).file(["sys"] + ["imu", "v"] * n), "f.vec"
        elif kind == "awac":
            b, nm = nrt.Gen(r, "WPR", cells=r.choice([2, 4, 6])).file(["prof"] * n), "f.wpr"
        elif kind == "vno":
            b, nm = nrt.Gen(r, "VNO").file(["vnohdr", "event"] + ["vd"] * n), "f.vno"
        elif kind == "wh":
            g = pd0.Gen(r, r.choice(["wh50", "os", "wh16", "bb5"]), cells=r.choice([1, 2, 5]), coord=r.choice([0, 8, 24]))
            k = r.choice(["full", "full+bt"])
            b, nm = b"".join(g.ens(k) for _ in range(n)), "f.000"
        else:
            s = r.choice([x for x in c14.SETS if "burst" in x])
            b, nm = ad2.Gen(r, **c14.options(r, s)).file((s + ["+"]) * n), "f.ad2cp"
        case += "/" + kind
        p = os.path.join(d, nm)
        with open(p, "wb") as f:
            f.write(b)
        st, ds = read(p)
        if st != "ok":
            return [(case, {"k": "error", "what": str(ds)[:300]})]
        for x in (ds if isinstance(ds, tuple) else (ds,)):
            if "vel" in x:
                out.append((case, {"k": "file", "kind": kind, "view": view(x, x["time"].values[0])}))
    except Exception as ex:
        out.append((case, {"k": "error", "what": repr(ex)[:300]}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def run(ctx):
    r = ctx.rng
    jobs = []
    kinds = ("vec", "imu", "awac", "wh", "sig")
    # every state any life can reach
    for kind in kinds if not ctx.quick else (r.choice(kinds[:3]), r.choice(kinds[3:])):
        ctx.mc("MCWorkflow", ['CONSTANT KIND = "%s"' % kind, "CONSTANT L = 1000", 'CONSTANT FRS = {"beam", "inst", "earth"}', "INIT WInit", "NEXT WNext",
                              "VIEW Now", "INVARIANT Diamond", "INVARIANT Return", "INVARIANT Idempotent", "INVARIANT Sane",
                              "PROPERTY Physical", "CHECK_DEADLOCK FALSE"], "%s, lives of any length" % kind)
    for kind in kinds:
        L = ctx.pick(4, 5)
        frs = ctx.pick([r.choice(["beam", "inst", "earth"])], ["beam", "inst", "earth"])
        cs = []
        for fr in frs:
            cs += ctx.mc("MCWorkflow", ['CONSTANT KIND = "%s"' % kind, "CONSTANT L = %d" % L, 'CONSTANT FRS = {"%s"}' % fr, "INIT WInit", "NEXT WNext",
                                        "INVARIANT Replay", "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "%s %s L=%d" % (kind, fr, L), cases=True)
        groups = {}
        for c in cs:
            groups.setdefault((c["fr"], repr(sorted(c["s"].items()))), []).append(c["h"])
        keys = sorted(k for k in groups if len(groups[k]) > 1)
        r.shuffle(keys)
        for i, k in enumerate(keys[:ctx.pick(36, 400)]):
            hs = groups[k]
            # prefer the lives of the group that differ most in kind
            pick = r.sample(hs, min(len(hs), ctx.pick(3, 4)))
            jobs.append(("%s/%s/%d" % (kind, k[0], i), ctx.scratch, ctx.seed * 7919 + len(jobs), kind, k[0], pick))
    evs = run_pool(_lives, jobs)
    evs += run_pool(_file, [("file/%d" % i, ctx.scratch, ctx.seed * 104729 + i) for i in range(ctx.pick(120, 1500))])
    for es in evs:
        for case, e in es:
            ctx.emit(e, case)
    canaries(ctx)


def canaries(ctx):
    done = set()
    for e in ctx.events:
        if e["k"] in done:
            continue
        if e["k"] == "file":
            e2 = dict(e, view=dict(e["view"], vars=[dict(x, u="furlong") for x in e["view"]["vars"]]))
        elif e["k"] == "life":
            e2 = dict(e, views=e["views"][:-1] + [dict(e["views"][-1], dir=["a"])])
        elif e["k"] == "meet":
            e2 = dict(e, vb={n: dict(x, v=[y + 5 if y < NAN else y for y in x["v"]]) for n, x in e["vb"].items()})
        else:
            continue
        done.add(e["k"])
        ctx.canary(e2)
