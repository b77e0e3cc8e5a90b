"""Attitude conversions and rotation without a stored orientation matrix."""
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.rotate.base import euler2orient, orient2euler, quaternion2orient, calc_tilt
from vlib.core import q, guard
from drivers import attfile, rotation

SPEC = "Attitude"


def deg(a):
    return np.rad2deg(np.arctan2(float(a["s"]), float(a["c"])))


def euler(ctx, A, batch, units, n):
    h = np.array([deg(A[i - 1]) for i in batch[0]]) % 360
    p = np.array([deg(A[i - 1]) for i in batch[1]])
    r = np.array([deg(A[i - 1]) for i in batch[2]])
    if units == "radians":
        o = euler2orient(*np.deg2rad([h, p, r]), units="radians")
    elif units == "default":
        o = euler2orient(h, p, r)
    else:
        o = euler2orient(h, p, r, units=units)
    if n % 3 == 0:
        t = np.arange(o.shape[-1])
        ds = xr.Dataset({"orientmat": (("inst", "earth", "time"), o)}, coords={"time": t})
        h2, p2, r2 = orient2euler(ds)
    else:
        h2, p2, r2 = orient2euler(o)
    again = euler2orient(h2, p2, r2)
    cs = [[[q(np.cos(np.deg2rad(x)), 1e4), q(np.sin(np.deg2rad(x)), 1e4)] for x in v]
          for v in (h2, p2, r2)]
    return {"k": "euler", "h": batch[0], "p": batch[1], "r": batch[2],
            "o": q(np.moveaxis(o, -1, 0), 1e4), "back": cs,
            "hd": q(h2, 1e4), "again": q(np.moveaxis(again, -1, 0), 1e4)}


def quat(ctx, ks, n):
    a = np.array(ks, float).T
    if n % 2:
        a = a / np.sqrt((a ** 2).sum(0))
    da = xr.DataArray(a, dims=["q", "time"], coords={
        "q": ["w", "x", "y", "z"], "time": np.arange(a.shape[1])})
    o = quaternion2orient(da)
    v = np.asarray(o.values, float)
    return {"k": "quat", "q": ks, "o": q(np.moveaxis(v, -1, 0), 1e4),
            "dims": list(v.shape)}


def conv(ctx, tab, ci, batch, rng, hold=0, early=0):
    """rotate2 on a dataset whose orientation matrix is absent."""
    A = tab["ang"]
    c = tab["cfgs"][ci - 1]
    n, nz, nt = c["n"], c["nz"], len(batch[0])
    hi, pi_, ri = [list(b) for b in batch]
    ship = c["start"] == "ship"
    h = np.array([deg(A[i - 1]) for i in hi]) % 360
    r = np.array([deg(A[i - 1]) for i in ri])
    P = np.array([deg(A[i - 1]) for i in pi_])
    if c["make"] == "TRDI":     # the recorded pitch is the ungimballed one
        p = np.rad2deg(np.arctan(np.tan(np.deg2rad(P)) / np.cos(np.deg2rad(r))))
    else:
        p = P
    vel = rng.randint(-3, 4, size=(n, nz, nt)) * 1000.0
    down = rng.randint(0, 2, size=nt)
    time = np.datetime64("2020-01-01", "ns") + np.arange(nt) * np.timedelta64(1, "s")
    ds = xr.Dataset(coords={"time": time, "beam": np.arange(1, n + 1),
                            "dir": np.arange(n), "x1": np.arange(n), "x2": np.arange(n)})
    if nz > 1:
        ds = ds.assign_coords(range=np.arange(nz) + 1.)
        ds["vel"] = (("dir", "range", "time"), vel / 1000)
    else:
        ds["vel"] = (("dir", "time"), vel[:, 0] / 1000)
    hh, pp, rr = h.copy(), p.copy(), r.copy()
    if hold:
        hi[-hold:] = [hi[-hold - 1]] * hold
        pi_[-hold:] = [pi_[-hold - 1]] * hold
        ri[-hold:] = [ri[-hold - 1]] * hold
        down[-hold:] = down[-hold - 1]
        hh[-hold:] = pp[-hold:] = rr[-hold:] = np.nan
        for k in range(1, hold):      # one or two of the angles may be known longer
            for j, x in enumerate((hh, pp, rr)):
                if k < hold - 1 and early >> j & 1:
                    x[-hold - 1 + k] = (h, p, r)[j][-k]
    for nm, x in (("heading", hh), ("pitch", pp), ("roll", rr)):
        ds[nm] = (("time",), x)
    ds["beam2inst_orientmat"] = (("x1", "x2"), np.eye(n))
    if c["model"] == "Vector":
        ds["orientation_down"] = (("time",), down.astype(bool))
    ds.attrs.update(inst_make=c["make"], inst_model=c["model"], coord_sys="ship" if ship else "inst",
                    rotate_vars=["vel"], inst_type="x")
    if c["ori"]:
        ds.attrs["orientation"] = c["ori"]
    if ship:
        ds.attrs["use_pitchroll"] = "yes"
    keep = {k: ds[k].values.copy() for k in ("heading", "pitch", "roll")}
    e = dolfyn.rotate2(ds, "earth", inplace=False)
    o = rotation.view(e["vel"].values, 1000)
    if ship:
        b = rotation.view(vel / 1000, 1000)     # no way back to the ship frame
    else:
        b = rotation.view(dolfyn.rotate2(e, "inst", inplace=False)["vel"].values, 1000)
    for k in keep:
        if not np.array_equal(keep[k], ds[k].values, equal_nan=True) or \
                not np.array_equal(keep[k], e[k].values, equal_nan=True):
            raise ValueError("recorded %s changed" % k)
    v = rotation.view(vel / 1000, 1000)
    return {"k": "conv", "cfg": c, "h": hi, "p": pi_, "r": ri, "ship": ship,
            "down": down.tolist(), "vel": v, "out": o, "back": b}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev}
    ctx.emit(ev, case)


def run(ctx):
    cases = ctx.mc("MCAttitude", ["INIT AInit", "NEXT ANext", "INVARIANT AllProper",
                                  "INVARIANT HalfTurn", "INVARIANT Level",
                                  "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"],
                   "angle lattice", cases=True)
    tab = [c for c in cases if c["k"] == "table"][0]
    A = tab["ang"]
    hpr = [c for c in cases if c["k"] == "hpr"]
    qs = [c["q"] for c in cases if c["k"] == "quat"]
    ctx.rng.shuffle(hpr)
    ctx.rng.shuffle(qs)
    B = 10
    n = 0
    for rep in range(ctx.pick(1, 4)):
        if rep:
            ctx.rng.shuffle(hpr)
        for i in range(0, len(hpr), B):
            b = hpr[i:i + B]
            bt = [[c[x] for c in b] for x in "hpr"]
            u = ("degrees", "radians", "default", "Degrees")[n % 4]
            rec(ctx, "euler|%d" % n, euler, ctx, A, bt, u, n)
            n += 1
    for i in range(0, len(qs), 7):
        rec(ctx, "quat|%d" % i, quat, ctx, qs[i:i + 7], i)
    tr = []
    for m, legs in ((12, (3, 4, 5)), (13, (5, 12, 13)), (5, (4, 3, 5)), (9, (0, 4, 4)),
                    (7, (6, 0, 6)), (3, (0, 0, 0)), (17, (8, 15, 17)), (1, (3, 4, 5))):
        for s1 in (1, -1):
            for s2 in (1, -1):
                tr.append((m, s1 * legs[0], s2 * legs[1], legs[2]))
    for i, (m, a, b, hy) in enumerate(tr):
        def f():
            P = np.array([np.rad2deg(np.arctan(a / m))])
            R = np.array([np.rad2deg(np.arctan(b / m))])
            if i % 2:
                P, R = xr.DataArray(P), xr.DataArray(R)
            t = np.asarray(calc_tilt(P, R), float)
            return {"k": "tilt", "m": m, "tp": [a], "tr": [b], "hy": [hy],
                    "tt": q(np.tan(np.deg2rad(t)), 1e4), "want": [int(np.floor(hy * 1e4 / m + .5))]}
        rec(ctx, "tilt|%d" % i, f)
    rng = ctx.np_rng(4)
    ok = [c for c in hpr]
    cfgs = [i for i in range(1, len(tab["cfgs"]) + 1)]
    for ci in cfgs:
        c = tab["cfgs"][ci - 1]
        use = ok
        if c["make"] == "TRDI":
            use = [x for x in ok if A[x["p"] - 1]["c"] > 0 and A[x["r"] - 1]["c"] != 0]
        if c["n"] == 4 and c["make"] != "TRDI":   # the 4-beam inverse needs a vertical part
            use = [x for x in ok if A[x["p"] - 1]["c"] != 0 and A[x["r"] - 1]["c"] != 0]
        for k in range(ctx.pick(12, 80)):
            idx = rng.choice(len(use), 6)
            bt = [[use[j][x] for j in idx] for x in "hpr"]
            hold = int(rng.choice([0, 0, 1, 2, 3, 5])) if c["model"] == "Vector" else 0
            rec(ctx, "conv|%d|%d" % (ci, k), conv, ctx, tab, ci, bt, rng, hold, int(rng.randint(0, 7)))
    attfile.events(ctx, A, hpr)
    g = [e for e in ctx.events if e["k"] == "euler"][0]
    import copy
    e = copy.deepcopy(g)
    e["o"][3][1][2] += 200
    ctx.canary(e)
    g = [e for e in ctx.events if e["k"] == "read"][0]
    e = copy.deepcopy(g)
    e["o"][1][0][0] += 300
    ctx.canary(e)
    g = [e for e in ctx.events if e["k"] == "conv"][0]
    e = copy.deepcopy(g)
    e["out"][1][0][0] += 100
    ctx.canary(e)
