"""Motion correction of ADV records with inertial data."""
import copy
import warnings
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.adv import api as avm
from dolfyn.adv.motion import correct_motion
from vlib.core import q, guard, run_pool

SPEC = "Motion"
SV, SR = 1e4, 1e5
B3 = np.array([[1, 1, 0], [1, 2, 1], [0, 1, 2]], float)


def rots():
    import itertools
    res = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3), int)
            for i in range(3):
                m[i, p[i]] = s[i]
            if round(np.linalg.det(m)) == 1:
                res.append(m)
    return res


ROTS = rots()


def record(rng, n, fs, nb=0, att="any", acc="any", rate="any", headset=False):
    idx = {"any": lambda: rng.randint(0, 24, n), "fixed": lambda: np.full(n, rng.randint(24)),
           "id": lambda: np.full(n, 0)}[att]()
    o = [ROTS[i].tolist() for i in idx] if att != "id" else [np.eye(3, dtype=int).tolist()] * n
    a = {"any": lambda: rng.randint(-9, 10, (n, 3)), "zero": lambda: np.zeros((n, 3), int),
         "const": lambda: np.tile(rng.randint(-9, 10, 3), (n, 1))}[acc]()
    w = rng.randint(-6, 7, (n, 3)) if rate == "any" else np.zeros((n, 3), int)
    return {"fs": int(fs), "fq": 1, "nb": int(nb), "o": o, "a": a.tolist(), "w": w.tolist(),
            "v": rng.randint(-16, 17, (n, 3)).tolist(), "gone": [],
            "head": rng.randint(-30000, 40000, 3).tolist(),
            "rh": (ROTS[rng.randint(24)] if headset else np.eye(3, dtype=int)).tolist(),
            "hs": bool(headset)}


def make(r, dt="f4"):
    n = len(r["a"])
    fs = r["fs"] / r["fq"]
    t = np.arange(n) / fs
    if r["nb"]:
        t = np.arange(n) % r["nb"] / fs + (np.arange(n) // r["nb"]) * 60
    ds = xr.Dataset(coords={"time": np.datetime64("2020-01-01T00:00:00", "ns") +
                            (t * 1e9).astype("timedelta64[ns]"),
                            "dir": ["X", "Y", "Z"], "dirIMU": ["X", "Y", "Z"], "beam": [1, 2, 3],
                            "x1": [1, 2, 3], "x2": [1, 2, 3], "earth": ["E", "N", "U"],
                            "inst": ["X", "Y", "Z"]})
    ds["vel"] = (("dir", "time"), (np.array(r["v"]).T / 8).astype(dt))
    ds["vel"].values[:, r["gone"]] = np.nan       # samples without a velocity
    ds["accel"] = (("dirIMU", "time"), (np.array(r["a"]).T / 8).astype(dt))
    ds["angrt"] = (("dirIMU", "time"), (np.array(r["w"]).T / 8).astype(dt))
    ds["mag"] = (("dirIMU", "time"), np.zeros((3, n), dt))
    ds["pressure"] = (("time",), np.arange(n) * .5)
    ds["beam2inst_orientmat"] = (("x1", "x2"), B3.copy())
    ds["orientmat"] = (("earth", "inst", "time"), np.moveaxis(np.array(r["o"], float), 0, -1).copy())
    ds.attrs.update(inst_make="Nortek", inst_model="Vector", inst_type="ADV", fs=float(fs), has_imu=1,
                    coord_sys="inst", rotate_vars=["vel", "accel", "angrt", "mag"],
                    inst2head_vec=[v * 1e-5 for v in r["head"]])
    if r["hs"]:
        # the record's velocity is given after the head rotation
        ds["vel"].values = np.dot(np.array(r["rh"]).T, ds["vel"].values).astype(dt)
        ds.velds.set_inst2head_rotmat(r["rh"])
    if r["nb"]:
        ds.attrs["duty_cycle_n_burst"] = r["nb"]
        ds.attrs["duty_cycle_interval"] = 60
    return ds


def mat(a, sc):
    return q(np.asarray(a, float).T, sc)


def flt(r, k):
    return 0 if k == 0 else r["fs"] / r["fq"] / 4


def correct(ds, r, toE, af, vf, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return correct_motion(ds, accel_filtfreq=flt(r, af), vel_filtfreq=flt(r, vf), to_earth=toE, **kw)


def look(ds):
    x = {"vel": mat(ds.vel, SR), "accel": mat(ds.accel, SV), "angrt": mat(ds.angrt, SR)}
    for nm, v, sc in (("raw", "vel_raw", SR), ("rot", "velrot", SR), ("acc", "velacc", SV),
                      ("acc5", "velacc", SR), ("low", "acclow", SV)):
        x[nm] = mat(ds[v], sc) if v in ds else []
    return x


NEW = {"vel_raw", "velrot", "velacc", "acclow"}


def state(ds, r, c, frame, dec, mut, want_vars):
    extra = set(ds.variables) - want_vars
    miss = want_vars - set(ds.variables)
    meta = not miss and not (extra - NEW) and \
        bool(ds.attrs.get("motion corrected")) == bool(c["done"]) and \
        (not c["done"] or (ds.attrs.get("motion accel_filtfreq Hz") == flt(r, c["af"]) and
                           all(ds.attrs["rotate_vars"].count(v) == 1 for v in NEW) and
                           all(ds[v].dims[-1] == "time" for v in NEW) and NEW <= extra))
    return {"k": "state", "r": r, "c": c, "x": look(ds), "frame": frame, "dec": dec,
            "label": ds.coord_sys, "mut": bool(mut), "extra": bool(extra & NEW), "meta": bool(meta)}


def snap(ds):
    return ds.copy(deep=True), copy.deepcopy(ds.attrs)


def changed(ds, s):
    return not ds.identical(s[0]) or repr(ds.attrs) != repr(s[1])


def history(args):
    case, r, h, start, dt = args
    ds = make(r, dt)
    base = set(ds.variables)
    frame, dec, c = "inst", 0, {"done": False, "af": 0, "vf": 0}
    evs = []

    def put(ev, nm):
        ev["case"] = case + nm
        evs.append(ev)
    if start != "inst":
        ds.velds.rotate2(start)
        frame = start
    for j, op in enumerate(h):
        nm = "|%d-%s" % (j, "-".join(map(str, op)))
        mut = False
        if op[0] == "rot":
            ds.velds.rotate2(op[1])
            frame = op[1]
        elif op[0] == "dec":
            ds.velds.set_declination(90)
            dec = 90
        elif op[0] == "cor":
            s = snap(ds)
            st, out = guard(correct, ds, r, op[1], op[2], op[3])
            mut = changed(ds, s)
            if st == "raise":
                put({"k": "refuse", "raised": True, "want": False, "why": "refused " + out[:80], "mut": mut}, nm)
                return evs
            ds = out
            frame, c = ("earth" if op[1] else "inst"), {"done": True, "af": op[2], "vf": op[3]}
        else:
            s = snap(ds)
            st, out = guard(correct, ds, r, True, 0, 0)
            put({"k": "refuse", "raised": st == "raise", "want": True, "why": "corrected-twice",
                 "mut": changed(ds, s)}, nm)
            continue
        if op[0] == "cor" or j == len(h) - 1:
            put(state(ds, r, c, frame, dec, mut, base), nm)
    return evs


def refusals(ctx, rng):
    """Everything without which a correction would be meaningless."""
    def drop(v):
        return lambda d: d.drop_vars(v)

    def setna(v):
        def f(d):
            d[v].values[rng.randint(3), rng.randint(10)] = np.nan
            return d
        return f

    def attr(k, v):
        def f(d):
            d.attrs[k] = v
            return d
        return f

    def noattr(k):
        def f(d):
            d.attrs.pop(k)
            return d
        return f

    def badhead(d):
        d["inst2head_rotmat"] = (("x1", "x2"), np.eye(3))
        d.attrs["inst2head_rotmat_was_set"] = 0
        return d

    def mirrored(d):
        d["inst2head_rotmat"] = (("x1", "x2"), np.diag([1., 1., -1.]))
        d.attrs["inst2head_rotmat_was_set"] = 1
        return d

    def scaled(d):
        d["inst2head_rotmat"] = (("x1", "x2"), 2 * np.eye(3))
        d.attrs["inst2head_rotmat_was_set"] = 1
        return d

    def gap(k):
        def f(d):
            d.attrs["duty_cycle_n_burst"] = 10
            d.attrs["duty_cycle_interval"] = k
            t = d.time.values.copy()
            t[10:] += np.timedelta64(58, "s")
            return d.assign_coords(time=t)
        return f

    def ragged(d):
        d.attrs["duty_cycle_n_burst"] = 8
        d.attrs["duty_cycle_interval"] = 1
        t = d.time.values.copy()
        t[16:] += np.timedelta64(30, "s")
        return d.assign_coords(time=t)
    def uneven(d):
        d.attrs["duty_cycle_n_burst"] = 8
        d.attrs["duty_cycle_interval"] = 10
        t = d.time.values.copy()
        for j, k in enumerate((0, 14, 20, 34, 40)):
            t[8 * j:8 * j + 8] = t[0] + (np.arange(8) / 8 * 1e9).astype("timedelta64[ns]") + np.timedelta64(k, "s")
        return d.assign_coords(time=t)
    muts = [("none", lambda d: d, False), ("no-accel", drop("accel"), True), ("no-angrt", drop("angrt"), True),
            ("nan-accel", setna("accel"), True), ("nan-angrt", setna("angrt"), True),
            ("no-imu", noattr("has_imu"), True), ("no-head-vec", noattr("inst2head_vec"), True),
            ("flagged", attr("motion corrected", 1), True), ("velrot", lambda d: d.assign(velrot=d.vel), True),
            ("model", attr("inst_model", "Vectrino"), True), ("head-not-set", badhead, True),
            ("head-scaled", scaled, True), ("head-mirrored", mirrored, True), ("bad-interval", gap(120), True), ("good-interval", gap(60), False),
            ("short-interval", gap(50), True), ("ragged-bursts", ragged, True), ("uneven-bursts", uneven, True)]
    for nm, f, want in muts:
        for toE in (True, False):
            for frame in ("inst", "earth"):
                r = record(rng, 40 if nm == "uneven-bursts" else 24 if nm == "ragged-bursts" else 20, 8)
                ds = make(r)
                if frame == "earth":
                    ds.velds.rotate2("earth")
                ds = f(ds)
                s = snap(ds)
                st, out = guard(correct, ds, r, toE, 1, 0)
                ctx.emit({"k": "refuse", "raised": st == "raise", "want": want, "why": nm, "mut": changed(ds, s)},
                         "refuse|%s|%s|%s" % (nm, toE, frame))


def allvars(ds):
    return np.concatenate([np.asarray(ds[v], float) for v in ("vel", "vel_raw", "velrot", "velacc", "acclow")])


def relations(ctx, rng, k):
    def rel(nm, l, rs, tol, case):
        ctx.emit({"k": "rel", "rel": nm, "l": mat(l, SV), "rs": [mat(x, SV) for x in rs], "tol": tol}, case)

    def run(ds, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st, out = guard(correct_motion, ds, **kw)
        if st == "raise":
            raise guard.exc
        return out
    for i in range(k):
        fs = int(rng.choice([4, 8, 16]))
        n = int(rng.randint(30, 80))
        r = record(rng, n, fs, headset=bool(i % 2), att=["any", "fixed"][i // 2 % 2])
        ds = make(r, "f8")
        b = run(ds)
        c = "rel|%d|" % i
        rel("default-filters", allvars(b), [allvars(run(ds, accel_filtfreq=.03, vel_filtfreq=.01))], 1, c + "def")
        f = float(rng.choice([.05, .1, .3]))
        d2 = ds.copy(deep=True)
        d2.attrs["motion accel_filtfreq Hz"] = f
        bf = run(ds, accel_filtfreq=f)
        rel("stored-accel-filter", allvars(bf), [allvars(run(d2))], 1, c + "attr")
        rel("vel-filter-default", allvars(bf), [allvars(run(ds, accel_filtfreq=f, vel_filtfreq=f / 3))], 1, c + "vdef")
        rel("user-filter-wins", allvars(b), [allvars(run(d2, accel_filtfreq=.03))], 1, c + "over")
        d2 = ds.copy(deep=True)
        d2.attrs["motion vel_filtfreq Hz"] = f / 2
        rel("stored-vel-filter", allvars(run(ds, accel_filtfreq=f, vel_filtfreq=f / 2)),
            [allvars(run(d2, accel_filtfreq=f))], 1, c + "vattr")
        # frames
        for fr in ("earth", "beam"):
            de = ds.copy(deep=True)
            de.velds.rotate2(fr)
            rel("source-frame", allvars(b), [allvars(run(de))], 2, c + "src-" + fr)
        bi = run(ds, to_earth=False)
        bi.velds.rotate2("earth")
        rel("to-earth", allvars(b), [allvars(bi)], 2, c + "toE")
        dd = ds.copy(deep=True)
        dd.velds.set_declination(20.)
        bd = run(dd)
        b2 = b.copy(deep=True)
        b2.velds.set_declination(20.)
        rel("declination", allvars(b2), [allvars(bd)], 2, c + "dec")
        # linear in the acceleration; the mean does not matter
        r2, r3 = copy.deepcopy(r), copy.deepcopy(r)
        r2["a"] = rng.randint(-9, 10, (n, 3)).tolist()
        r3["a"] = (np.array(r["a"]) + np.array(r2["a"])).tolist()
        o2, o3 = run(make(r2, "f8")), run(make(r3, "f8"))
        rel("linear-acceleration", o3.velacc, [b.velacc, o2.velacc], 3, c + "lin")
        rel("linear-low-acceleration", o3.acclow, [b.acclow, o2.acclow], 3, c + "linlow")
        # gravity: constant in the earth frame
        r2 = copy.deepcopy(r)
        g = rng.randint(-80, 81, 3)
        r2["a"] = [(np.array(a) + np.array(o) @ g).tolist() for a, o in zip(r["a"], r["o"])]
        og = run(make(r2, "f8"))
        rel("gravity", og.velacc, [b.velacc], 3, c + "grav")
        rel("gravity-low", og.acclow, [b.acclow, np.tile(g[:, None] / 8, n)], 3, c + "gravlow")
        # time reversal symmetry is not claimed; bursts are
        m, nbst = int(rng.randint(12, 30)), int(rng.randint(2, 4))
        rb = record(rng, m * nbst, fs, nb=m)
        db = make(rb, "f8")
        for toE in (True, False):
            ob = run(db, to_earth=toE, accel_filtfreq=f)
            parts = []
            for j in range(nbst):
                one = db.isel(time=slice(j * m, (j + 1) * m)).copy(deep=True)
                if j:
                    one.attrs = copy.deepcopy(db.attrs)
                    one.attrs.pop("duty_cycle_n_burst")
                else:
                    one.attrs = copy.deepcopy(db.attrs)
                parts.append(allvars(run(one, to_earth=toE, accel_filtfreq=f)))
            rel("burst-alone", allvars(ob), [np.concatenate(parts, -1)], 1, c + "burst-%s" % toE)


def separate(ctx, rng, k):
    for i in range(k):
        r = record(rng, 8, 4, att=["id", "fixed", "any"][i % 3])
        ds = make(r, ["f4", "f8"][i % 2])
        ds.velds.set_inst2head_rotmat(np.eye(3))
        toE = bool(i // 2 % 2)
        st, out = guard(correct, ds, r, toE, 0, 0, separate_probes=True)
        if st == "raise":
            raise guard.exc
        ctx.emit({"k": "sep", "r": r, "frame": "earth" if toE else "inst", "x": look(out)}, "sep|%d" % i)


def run(ctx):
    cases = ctx.mc("MCMotion", ["CONSTANT L = %d" % ctx.pick(3, 5), "INIT Init", "NEXT Next", "INVARIANT Once",
                                "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"], "histories", cases=True)
    rng = ctx.np_rng(1)
    ctx.rng.shuffle(cases)
    jobs = []
    cor = [c for c in cases if any(o[0] == "cor" for o in c["s"])]
    oth = [c for c in cases if not any(o[0] == "cor" for o in c["s"])]
    for i, c in enumerate(oth[:ctx.pick(10, 100)] + cor[:ctx.pick(150, 2500)]):
        n = int(rng.randint(10, 15))
        nb = 0
        if i % 4 == 1:
            n, nb = 22, 11
        elif i % 8 == 3:
            nb = n
        r = record(rng, n, [4, 5, 16, 8, 3][i % 5], nb, att=["any", "any", "fixed"][i % 3],
                   acc=["any", "any", "any", "const", "zero"][i % 5], rate=["any", "any", "zero"][i % 3],
                   headset=bool(i // 2 % 2))
        # the history's first frame is where its first rotation did not go
        start = ["inst", "earth", "beam"][i % 3]
        if i % 3 == 1:      # 12.5 Hz and the like
            r["fs"], r["fq"] = [25, 9, 33][i // 3 % 3], 2
        if i % 5 == 2:
            r["gone"] = sorted(int(v) for v in rng.choice(n, rng.randint(1, 4), replace=False))
        jobs.append(("hist|%d" % i, r, c["s"], start, ["f4", "f8"][i // 3 % 2]))
    for evs in run_pool(history, jobs, chunksize=8):
        for e in evs:
            ctx.emit(e, e["case"])
    refusals(ctx, rng)
    relations(ctx, rng, ctx.pick(8, 80))
    separate(ctx, rng, ctx.pick(6, 30))
    for key in ("vel", "raw", "rot", "acc", "low", "angrt"):
        for e in ctx.events:
            if e["k"] == "state" and e["c"]["done"] and e["frame"] != "beam":
                e = copy.deepcopy(e)
                e["x"][key][-1][1] += 40
                ctx.canary(e)
                break
    for k in ("rel", "sep"):
        e = copy.deepcopy([e for e in ctx.events if e["k"] == k][0])
        if k == "rel":
            e["l"][0][0] += 50
        else:
            e["x"]["rot"][0][0] += 50
        ctx.canary(e)
