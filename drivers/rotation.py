"""Replay behaviours of specs/Rotation.tla against dolfyn.rotate2,
set_declination, set_inst2head_rotmat and the principal heading attribute."""
import os
import numpy as np
import xarray as xr
import dolfyn
from vlib.core import q, guard, run_pool

SPEC = "RotationTrace"
S = 10000.0
RV = {}


def arr(view, dt):
    """[t][z][k] integers -> array (k, z, t)"""
    a = np.array(view, dtype=float)
    a[a >= 2000000000] = np.nan
    return (np.moveaxis(a, (0, 1, 2), (2, 1, 0)) / S).astype(dt)


def make(tab, ci):
    """The dataset whose abstract state is InitS(ci)."""
    c = tab["cfgs"][ci - 1]
    st = tab["start"][ci - 1]
    dt = np.float32 if ci % 2 else np.float64
    nt, n, nz = len(st["vel"]), c["n"], c["nz"]
    time = (np.datetime64("2020-01-01T00:00:00", "ns")
            + np.arange(nt) * np.timedelta64(1, "s"))
    ds = xr.Dataset()
    ds = ds.assign_coords(time=("time", time), beam=np.arange(1, n + 1),
                          dir=("dir", lab0(c)))
    ds["dir"].attrs["ref_frame"] = c["start"]
    rv = ["vel"]
    v = arr(st["vel"], dt)
    if nz > 1:
        ds = ds.assign_coords(range=np.arange(nz) + 1.5)
        ds["vel"] = (("dir", "range", "time"), v)
        ds["vel_bt"] = (("dir", "time"), arr(st["bt"], dt)[:, 0])
        rv.append("vel_bt")
        ds["amp"] = (("beam", "range", "time"),
                     np.arange(n * nz * nt).reshape(n, nz, nt).astype("uint8"))
    else:
        ds["vel"] = (("dir", "time"), v[:, 0])
        ds["amp"] = (("beam", "time"), np.arange(n * nt).reshape(n, nt).astype("uint8"))
    # a vector the user did not list for rotation
    ds["drift"] = (("dir", "time"), np.arange(n * nt).reshape(n, nt) * 0.5 - 2)
    if c["imu"]:
        ds = ds.assign_coords(dirIMU=("dirIMU", ["X", "Y", "Z"] if c["start"] in ("beam", "inst")
                                      else ["E", "N", "U"]))
        ds["accel"] = (("dirIMU", "time"), arr(st["imu"], dt)[:, 0])
        ds["angrt"] = (("dirIMU", "time"), arr(st["imu"], dt)[:, 0].copy())
        rv += ["accel", "angrt"]
    ds = ds.assign_coords(x1=np.arange(1, n + 1), x2=np.arange(1, n + 1))
    ds["beam2inst_orientmat"] = (("x1", "x2"), np.array(tab["b%d" % n], float))
    om = np.stack([np.array(o["m"], float) / o["d"] for o in tab["omats"]], -1)
    ds = ds.assign_coords(earth=["E", "N", "U"], inst=["X", "Y", "Z"])
    ds["orientmat"] = (("inst", "earth", "time"), om)   # rows: instrument axes
    h0 = np.array([10., 100., 350., 200.])
    ds["heading"] = (("time",), h0)
    ds["pitch"] = (("time",), np.array([1., 2., 3., 4.]))
    ds["roll"] = (("time",), np.array([4., 3., 2., 1.]))
    ds["pressure"] = (("time",), np.array([10., 11., np.nan, 12.]))
    ds.attrs.update(inst_make=c["make"], inst_model=c["model"],
                    inst_type="ADV" if c["model"] == "Vector" else "ADCP",
                    coord_sys=c["start"], rotate_vars=rv, fs=1.0,
                    coord_sys_axes="axes", coord_sys_axes_bt="axes", note="keep")
    if c["ori"]:
        ds.attrs["orientation"] = c["ori"]
    if c["start"] == "ship":
        ds.attrs["use_pitchroll"] = "yes"
    return ds, h0


def lab0(c):
    n, f = c["n"], c["start"]
    if f == "beam":
        return np.arange(1, n + 1)
    base = ["X", "Y", "Z"] if f in ("inst", "ship") else ["E", "N", "U"]
    if n == 3:
        return base
    if c["make"] == "TRDI":
        return base + ["err"]
    return base[:2] + [base[2] + "1", base[2] + "2"]


def view(a, scale=S):
    a = np.asarray(a, float)
    if a.ndim == 2:
        a = a[:, None, :]
    return q(np.moveaxis(a, (0, 1, 2), (2, 1, 0)), scale)


def flat(ds):
    d = {}
    for nm in ds.variables:
        v = ds[nm].values
        d["v:" + str(nm)] = (ds[nm].dims, v.dtype.kind, v.tobytes()
                             if v.dtype.kind != "O" else repr(v.tolist()))
    for a in ds.attrs:
        d["a:" + a] = repr(ds.attrs[a])
    return d


ALLOW = {"rot": {"v:dir", "v:dirIMU", "a:coord_sys", "a:coord_sys_axes", "a:coord_sys_axes_bt"},
         "dec": {"v:orientmat", "v:heading", "a:declination",
                 "a:declination_in_orientmat", "a:principal_heading",
                 "v:dir", "v:dirIMU", "a:coord_sys_axes", "a:coord_sys_axes_bt"},
         "ph": {"a:principal_heading"},
         "head": {"v:inst2head_rotmat", "a:inst2head_rotmat_was_set", "v:dir",
                  "v:dirIMU", "v:x1", "v:x2", "a:coord_sys_axes", "a:coord_sys_axes_bt"}}


def observe(ds, h0, before, op):
    after = flat(ds)
    rvs = {"v:" + v for v in ds.attrs["rotate_vars"]}
    allow = ALLOW[op] | rvs
    other = sorted(k for k in set(before) | set(after)
                   if before.get(k) != after.get(k) and k not in allow)
    ang = np.deg2rad(np.asarray(ds["heading"].values, float) - h0)
    cs = [q(np.cos(ang), 1e4), q(np.sin(ang), 1e4)]
    uni = [x[0] if max(x) - min(x) <= 1 else 2000000002 for x in cs]
    at = ds.attrs
    ph = at.get("principal_heading")
    bt = ds["vel_bt"].values if "vel_bt" in ds else np.zeros((1, 1))
    imu = ds["accel"].values if "accel" in ds else np.zeros((1, 1))
    if "accel" in ds and not np.array_equal(ds["accel"].values, ds["angrt"].values, equal_nan=True):
        other = other + ["angrt differs from accel"]
    return {
        "frame": str(at["coord_sys"]), "axes": any(a.startswith("coord_sys_axes") for a in at),
        "dir": [str(x) for x in ds["dir"].values],
        "dirattr": str(ds["dir"].attrs.get("ref_frame")),
        "dirimu": [str(x) for x in ds["dirIMU"].values] if "dirIMU" in ds else [],
        "vel": view(ds["vel"].values), "bt": view(bt), "imu": view(imu),
        "omat": q(np.moveaxis(np.asarray(ds["orientmat"].values, float), -1, 0), S),
        "heading": uni,
        "hasph": ph is not None,
        "ph": [q(np.cos(np.deg2rad(ph)), 1e4), q(np.sin(np.deg2rad(ph)), 1e4)]
        if ph is not None else [0, 0],
        "hasdec": "declination" in at,
        "decl": q(at["declination"], 1e4) if "declination" in at else 0,
        "head": "inst2head_rotmat" in ds,
        "other": other[:5]}


def step(tab, ds, h0, op, rng):
    """Perform one model action on the real dataset; returns the dataset the
    history continues with and the observation."""
    name, a = op
    inplace = bool(rng.randint(2))
    acc = bool(rng.randint(2))
    before = flat(ds)
    orig = ds
    if name == "ph":
        ds = ds.copy(deep=True)
        ds.attrs["principal_heading"] = tab["ang"][a - 1]["deg"] / 1e4 \
            if tab["ang"][a - 1]["d"] == 1 else float(np.rad2deg(np.arctan2(
                tab["ang"][a - 1]["s"], tab["ang"][a - 1]["c"])))
        st, ret = "ok", None
        inplace = True
    else:
        if name == "rot":
            # frames may be spelled in any case
            args = (a if a == "ship" or a == "body" else [a, a, a.upper(), a.capitalize()][rng.randint(4)],)
            f = dolfyn.rotate2
        elif name == "dec":
            x = tab["ang"][a - 1]
            # exact angle, in one of its equivalent conventions
            args = (float(np.rad2deg(np.arctan2(x["s"], x["c"]))) % 360
                    if x["deg"] > 0 else x["deg"] / 1e4 if x["d"] == 1
                    else float(np.rad2deg(np.arctan2(x["s"], x["c"]))),)
            f = dolfyn.set_declination
        elif name == "head":
            m = tab["heads"][a - 1]
            args = ((np.array(m["m"], float) / m["d"]).tolist(),)
            f = dolfyn.set_inst2head_rotmat
        if inplace:
            ds = ds.copy(deep=True)
        if acc:
            meth = getattr(ds.velds, f.__name__)
            st, ret = guard(meth, *args, inplace=inplace)
        else:
            st, ret = guard(f, ds, *args, inplace=inplace)
    mut = False
    if not inplace:
        mut = flat(orig) != before
        if st == "ok":
            ds = ret if isinstance(ret, xr.Dataset) else ds
        okret = isinstance(ret, xr.Dataset) and ret is not orig
    else:
        okret = ret is None
    obs = observe(ds, h0, before, name)
    return ds, {"raised": st == "raise", "mut": mut, "ret": bool(okret),
                "obs": obs, "how": ("inplace" if inplace else "copy")
                + ("/accessor" if acc else "/function"),
                "err": ret if st == "raise" else ""}


def tree(histories):
    t = {}
    for h in histories:
        n = t
        for op in h:
            n = n.setdefault((op[0], op[1]), {})
    return t


def walk(args):
    tab, ci, sub, seed, bad = args
    rng = np.random.RandomState(seed)
    out = []
    ds0, h0 = make(tab, ci)

    def rec(ds, node, ops):
        for op in sorted(node, key=str):
            nops = ops + [list(op)]
            try:
                d2, r = step(tab, ds, h0, op, rng)
            except Exception as e:
                out.append({"k": "error", "what": "%s: %s" % (type(e).__name__, e),
                            "case": "rot|%d|%s" % (ci, nops)})
                continue
            r.update(k="replay", ci=ci, ops=nops,
                     case="rot|%d|%s" % (ci, "+".join("%s:%s" % tuple(o) for o in nops)))
            out.append(r)
            if not r["raised"]:
                rec(d2, node[op], nops)
        for op in bad:                      # requests the model may refuse here
            if (op[0], op[1]) in node:
                continue
            nops = ops + [list(op)]
            try:
                d2, r = step(tab, ds, h0, op, rng)
            except Exception as e:
                out.append({"k": "error", "what": "%s: %s" % (type(e).__name__, e),
                            "case": "rot|%d|%s" % (ci, nops)})
                continue
            r.update(k="request", ci=ci, ops=nops,
                     case="rot|%d|%s" % (ci, "+".join("%s:%s" % tuple(o) for o in nops)))
            out.append(r)
    rec(ds0, sub, [])
    return out


def run_ops(ctx, opset, bad, depth, walks):
    cases = ctx.mc("MCRotation", [
        "CONSTANT Ops <- " + opset, "CONSTANT Depth = %d" % depth,
        "INIT RInit", "NEXT RNext",
        "INVARIANT PathIndependent", "INVARIANT LengthPreserved",
        "INVARIANT PrincipalInvariant", "INVARIANT BeamInvariant",
        "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"],
        "%s depth %d" % (opset, depth), cases=True)
    tab = [c for c in cases if "table" in c][0]
    ctx.tab = tab
    hist = {}
    for c in cases:
        if "ops" in c:
            hist.setdefault(c["ci"], []).append(c["ops"])
    # longer histories: random walks over the same alphabet
    alpha = sorted({(o[0], o[1]) for hs in hist.values() for h in hs for o in h}, key=str)
    for ci in hist:
        phset = False
        for _ in range(walks):
            h = []
            for _ in range(ctx.rng.randint(depth + 1, depth + 5)):
                h.append(list(ctx.rng.choice(alpha)))
            # drop actions that the model would refuse
            h2, ph, head, fr = [], False, False, tab["cfgs"][ci - 1]["start"]
            for o in h:
                if o[0] == "head" and (head or tab["cfgs"][ci - 1]["model"] != "Vector"):
                    continue
                if o[0] == "ph" and fr == "principal":
                    continue
                if o[0] == "rot" and ((o[1] == "principal" and not ph) or
                                      (fr == "ship" and o[1] in ("beam", "inst"))):
                    continue
                if o[0] == "head":
                    head = True
                if o[0] == "ph":
                    ph = True
                if o[0] == "rot":
                    fr = o[1]
                h2.append(o)
            hist[ci].append(h2)
    jobs = []
    for ci in sorted(hist):
        t = tree(hist[ci])
        for i, op in enumerate(sorted(t, key=str)):
            jobs.append((tab, ci, {op: t[op]}, ctx.seed * 1000 + ci * 10 + i,
                         bad if i == 0 else bad[:0] if False else bad))
    for res in run_pool(walk, jobs):
        for ev in res:
            ctx.emit(ev, ev["case"])
    # demonstrate the binding: one corrupted field must be rejected
    good = [e for e in ctx.events if e["k"] == "replay" and not e["raised"]]
    for i in (len(good) // 3, len(good) // 2):
        import copy
        e = copy.deepcopy(good[i])
        e["obs"]["vel"][0][0][0] += 500
        ctx.canary(e)
