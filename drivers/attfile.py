"""Files whose samples were recorded at known attitudes, read with the real readers:
the orientation matrix of each sample (C04)."""
import os
import random
import struct
import numpy as np
from vlib import pd0, nrt, ad2
from vlib.core import q, run_pool
from drivers.rdifile import read


def deg(a):
    return np.rad2deg(np.arctan2(float(a["s"]), float(a["c"])))


def put(x):
    return struct.pack("<H", int(round(x)) & 0xFFFF)


class Pd0(pd0.Gen):
    def var(self, k, id=128, bad=False):
        b = pd0.Gen.var(self, k, id, bad)
        h, P, r = self.att[k]
        p = np.rad2deg(np.arctan(np.tan(np.deg2rad(P)) / np.cos(np.deg2rad(r))))     # the ungimballed pitch is recorded
        return b[:18] + put(h % 360 * 100) + put(p * 100) + put(r * 100) + b[24:]


class Nrt(nrt.Gen):
    def sys(self, late=0):
        b = nrt.Gen.sys(self, late)
        h, p, r = self.att[0]
        b = b[4:14] + put(h % 360 * 10) + put(p * 10) + put(r * 10) + b[20:-2]
        return nrt.rec(0x11, b)

    def prof(self):
        k = self.samples
        b = nrt.Gen.prof(self)
        h, p, r = self.att[k]
        return nrt.rec(0x20, b[4:18] + put(h % 360 * 10) + put(p * 10) + put(r * 10) + b[24:-2])


class Ad2(ad2.Gen):
    j = 0

    def common(self, k, ens, badtime=False):
        b = ad2.Gen.common(self, k, ens, badtime)
        h, p, r = self.att[self.j]
        self.j += 1
        return b[:24] + put(h % 360 * 100) + put(p * 100) + put((r + 180) % 360 * 100 - 18000) + b[30:]


def _one(a):
    case, scratch, seed, fmt, att, idx, kw = a
    rng = random.Random(seed)
    n = len(att)
    cfg = {"make": "Nortek", "model": "", "ori": ""}
    if fmt == "pd0":
        g = Pd0(rng, rng.choice(["wh16", "wh50", "os14", "bb5", "wh8", "river"]), 2, angle=20, coord=kw["coord"])
        g.att, name = att, "f.000"
        up = bool(g.c["cfg0"] & 128)
        data = b"".join(g.ens("full") for _ in range(n))
        cfg = {"make": "TRDI", "model": "", "ori": "up" if up else "down"}
    elif fmt == "ad2":
        k = rng.choice(["burst", "avg"])
        g = Ad2(rng, flags_burst=0b11101111, flags_avg=0b11101111, orient=kw["orient"], auto=0, ens0=1)
        g.att, name = att, "f.ad2cp"
        data = g.file([k] * n)
        cfg["model"] = "Signature"
    elif fmt == "vec":
        g = Nrt(rng, "VEC", avg=512)
        att, idx = [att[0]] * n, [[i[0]] * n for i in idx]      # between system records the attitude is interpolated
        g.att, name = att, "f.VEC"
        data = g.file(["sys", "v"] * n)
        cfg["model"] = "Vector"
    else:
        g = Nrt(rng, "WPR")
        g.att, name = att, "f.wpr"
        data = g.file(["prof"] * n)
        cfg["model"] = "AWAC"
    p = os.path.join(scratch, "att%d_%s" % (os.getpid(), name))
    with open(p, "wb") as f:
        f.write(data)
    try:
        st, ds = read(p)
    finally:
        for x in (p, p + ".index"):
            if os.path.exists(x):
                os.remove(x)
    if st != "ok":
        return case, {"k": "error", "what": ds}
    o = np.moveaxis(np.asarray(ds["orientmat"].values, float), -1, 0)
    down = [int(bool(x)) for x in np.asarray(ds["orientation_down"].values)] if fmt == "vec" else [0] * n
    return case, {"k": "read", "cfg": cfg, "ship": bool(fmt == "pd0" and g.c["coord"] & 24 == 16 and g.c["coord"] & 4), "h": idx[0], "p": idx[1],
                  "r": idx[2], "down": down, "n": int(o.shape[0]), "o": q(o, 1e4), "tol": 10 if fmt in ("pd0", "ad2") else 40}


def events(ctx, A, hpr):
    jobs = []
    r = ctx.rng
    for i in range(ctx.pick(160, 1200)):
        fmt = ("pd0", "ad2", "vec", "awac")[i % 4]
        use = hpr
        if fmt == "pd0":
            use = [x for x in hpr if A[x["p"] - 1]["c"] > 0 and A[x["r"] - 1]["c"] != 0]
        else:
            use = [x for x in hpr if A[x["p"] - 1]["c"] >= 0]
        b = [r.choice(use) for _ in range(r.choice([2, 3, 5]))]
        kw = {"coord": r.choice([0, 8, 16, 16, 24]), "orient": r.choice([4, 5])}
        att = [[deg(A[x[k] - 1]) for k in "hpr"] for x in b]
        jobs.append(("read|%s|%d|%s" % (fmt, i, kw), ctx.scratch, ctx.seed * 1000 + i, fmt, att, [[x[k] for x in b] for k in "hpr"], kw))
    for case, ev in run_pool(_one, jobs, chunksize=4):
        ctx.emit(ev, case)
