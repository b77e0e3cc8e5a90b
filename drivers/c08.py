"""Spectra, cross-spectra, coherence and phase."""
import copy
import numpy as np
import xarray as xr
import dolfyn
from dolfyn.tools import psd as P
from dolfyn.adv.turbulence import ADVBinner
from vlib.core import q, guard, NAN

SPEC = "Spectra"
SIN = {3: np.sqrt(3) / 2, 4: 1., 6: np.sqrt(3) / 2}
T0 = np.datetime64("2022-02-02T02:02:02", "ns")


def windows(n):
    """(argument, integer shape, scale of the recorded densities)"""
    res = [(None, [1] * n, 1000), (1, [1] * n, 1000)]
    if n in (3, 4):
        res += [("hann", [0] + [1] * (n - 2) + [0], 1000), ("hanning", [0] + [1] * (n - 2) + [0], 1000)]
        res += [("hamm", [2, 25, 2] if n == 3 else [8, 77, 77, 8], 100)]
    res += [("arr", [1, 2, 1, 1, 2, 0][:n], 1000), ("arr", [0, 1, 2, 2, 1, 1][:n], 1000)]
    return res


def warg(w):
    return np.array(w[1], float) if isinstance(w[0], str) and w[0] == "arr" else w[0]


def pair(z, n, sc):
    z = np.asarray(z)
    return [[a, b] for a, b in zip(q(z.real, sc), q(z.imag / SIN[n], sc))]


def sig(rng, l, n):
    a = rng.randint(-3, 4, size=l)
    return a


def noises(rng, kw):
    """noise levels for a coherence: one for each signal, or one for both"""
    if rng.rand() < .5:
        return [0, 0]
    z = rng.randint(0, 3, size=2)
    r = rng.randint(4)
    if r < 2:
        kw["noise"] = [tuple(int(v) for v in z), z.astype(float)][r]
        return z.tolist()
    kw["noise"] = [int(z[0]), [float(z[0])]][r - 2]
    return [int(z[0])] * 2


def low(fn, rng, n, la, lb, w, step, fs):
    a, b = sig(rng, la, n), sig(rng, lb, n)
    if rng.rand() < .2 and la == lb:
        b = a.copy()
    oa, ob = [(0, 0), (65536, -20000)][rng.randint(2)]      # a mean the trend removal takes out
    A, B = a + float(oa), b + float(ob)
    ev = {"k": fn, "a": a.tolist(), "b": b.tolist(), "n": n, "win": w[1], "fs": fs, "sc": w[2], "step": step}
    win = warg(w)
    st = {"step": step} if step else {}
    if fn == "psd":
        o = P.psd(A, n, fs, window=win, **st)
        ev["out"] = q(o, w[2])
    elif fn == "csd":
        o = (P.cpsd(A, B, n, fs, window=win, **st) if la == lb and rng.rand() < .5 or st else
             P.cpsd_quasisync(A, B, n, fs, window=win))
        ev["out"] = pair(o, n, w[2])
    elif fn == "phase":
        ev["out"] = pair(P.phase_angle(A, B, n, window=win, **st), n, 10000)
    elif fn == "coh":
        ev["debias"] = bool(rng.randint(2))
        kw = {} if ev["debias"] else {"debias": False}
        ev["nz"] = noises(rng, kw)
        ev["out"] = q(P.coherence(A, B, n, window=win, **kw), 1000)
    if not (np.array_equal(A, a + oa) and np.array_equal(B, b + ob)):
        raise ValueError("input changed")
    return ev


def da(rows, t, name="time"):
    if len(rows) == 1:
        return xr.DataArray(rows[0], dims=[name], coords={name: t})
    return xr.DataArray(rows, dims=["dir", name], coords={name: t, "dir": ["X", "Y", "Z"]})


def bins(fn, rng, n, p, qq, N, w, fs, three, unit, ovr):
    nb = p // qq if p % qq == 0 else p / qq
    off = np.cumsum(rng.choice([125, 250, 1000], size=N))
    t = T0 + off.astype("timedelta64[ms]")
    R = 3 if three else 1
    x = rng.randint(-3, 4, size=(R, N))
    kw, ckw = {}, {"n_bin": nb, "fs": fs}
    cls = ADVBinner if fn == "csd" or rng.rand() < .5 else dolfyn.VelBinner
    fftname = "n_fft" if fn == "psd" else "n_fft_coh"
    if "bin" in ovr:
        kw["n_bin"] = nb
        ckw["n_bin"] = int(nb) + int(rng.randint(1, 4))
    if "fft" in ovr:
        kw[fftname] = n
        if rng.rand() < .5:
            ckw[fftname] = 3 if n == 6 else n
    else:
        ckw[fftname] = n
    b = cls(**ckw)
    ev = {"k": "bins", "fn": fn, "n": n, "p": p, "p2": p, "pt": p, "q": qq, "win": w[1], "fs": fs, "sc": w[2],
          "pad": -1, "step": 0, "noise": [0] * R, "x": x.tolist(), "y": x.tolist(), "t": off.tolist()}
    win = warg(w)
    c = 1.
    if fn in ("psd", "csd"):
        kw["freq_units"] = unit
        c = 2 * np.pi if "rad" in unit else 1.
    v = da(x.astype(["f4", "f8"][rng.randint(2)]), t)
    keep = v.copy(deep=True)
    tn = "time"
    if fn == "psd":
        if rng.rand() < .3:
            kw["n_pad"] = ev["pad"] = int(rng.randint(0, n + 1)) if qq == 1 else 0
        if rng.rand() < .3:
            kw["step"] = ev["step"] = int(rng.randint(1, n + 1))
        if rng.rand() < .4:
            ev["noise"] = rng.randint(0, 3, size=R).tolist()
            nz = np.array(ev["noise"], float)
            kw["noise"] = (xr.DataArray(nz, dims="dir") if rng.rand() < .5 else nz) if R == 3 else float(nz[0])
        if "fs" in ovr:
            kw["fs"] = ev["fs"] = fs + 1
        if R == 1:
            tn = ["time", "time_b5"][rng.randint(2)]
            v = da(x.astype(float), t, tn)
            keep = v.copy(deep=True)
        big = 0.
        if (p // qq == n if ev["pad"] < 0 else ev["pad"] == 0) and rng.rand() < .5:
            big = 65536.             # no padding: a mean goes away with the trend
            v = v.astype(float) + big
            keep = v.copy(deep=True)
        o = b.calc_psd(v, window=win, **kw)
        if rng.rand() < .2 and "noise" not in kw and qq == 1:    # the workhorse beneath
            kk = {a: z for a, z in kw.items() if a not in ("freq_units", "noise")}
            o2 = b.calc_psd_base(x[0] + big, window=win, n_pad=kk.pop("n_pad", None), **kk)
            c2 = 2 * np.pi if "rad" in unit else 1.
            if not np.allclose(o2, o.values.reshape((-1,) + o2.shape)[0] * c2, rtol=1e-4, atol=1e-5):
                raise ValueError("calc_psd_base disagrees")
        f = o["freq"].values
        ev["out"] = [[q(z * c, w[2]) for z in r] for r in o.values.reshape((R,) + o.shape[-2:])]
        if o.attrs["n_fft"] != n:
            raise ValueError("n_fft attribute %s" % o.attrs["n_fft"])
    elif fn == "csd":
        if "fs" in ovr:
            kw["fs"] = ev["fs"] = fs + 1
        ev["x"] = [x[0].tolist(), x[0].tolist(), x[1].tolist()]
        ev["y"] = [x[1].tolist(), x[2].tolist(), x[2].tolist()]
        ev["noise"], ev["pad"] = [0, 0, 0], n
        o = b.calc_csd(v, window=win, **kw)
        f = o["coh_freq"].values
        ev["out"] = [[pair(z * c, n, w[2]) for z in r] for r in o.values]
    else:
        # two signals; the first may be sampled faster
        N1 = int(rng.choice([N, N, 2 * N, N + N // 2, N + N // 3, N + 1]))
        y = rng.randint(-3, 4, size=(R, N))
        x = rng.randint(-3, 4, size=(R, N1))
        if rng.rand() < .2 and N1 == N:
            y = x.copy()
        t1 = T0 + (np.arange(N1) * 100).astype("timedelta64[ms]")
        v, v2 = da(x.astype(float), t1), da(y.astype(float), t)
        keep = v.copy(deep=True)
        ev.update(x=x.tolist(), y=y.tolist(), p=p * N1 // N, pad=n, nz=[0, 0])
        if fn == "coh":
            ev["nz"] = noises(rng, kw)
            ev["debias"] = bool(rng.randint(2))
            if not ev["debias"]:
                kw["debias"] = False
        o = (b.calc_coh if fn == "coh" else b.calc_phase_angle)(v, v2, window=win, **kw)
        f = o["f"].values
        if fn == "coh":
            ev["out"] = [[q(z, 1000) for z in r] for r in o.values.reshape((R,) + o.shape[-2:])]
        else:
            ev["out"] = [[pair(z, n, 10000) for z in r] for r in o.values.reshape((R,) + o.shape[-2:])]
    ev["f"] = q(np.asarray(f, float) * c ** -1 * n / ev["fs"], 1, 1e-4)
    ev["tb"] = q((o[tn].values - T0) / np.timedelta64(1, "ms"))
    ev["mut"] = not keep.identical(v)
    return ev


def freq(n, fs, unit):
    c = 2 * np.pi if unit == "rad/s" else 1.
    b = dolfyn.VelBinner(n_bin=12, fs=fs, n_fft=n)
    f = b.calc_freq(units=unit)
    return {"k": "freq", "n": n, "f": q(f / c * n / fs, 1, 1e-6)}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev, "a": str(a)[:300]}
    ctx.emit(ev, case)


def run(ctx):
    rng = ctx.np_rng(8)
    cases = []
    for n in (3, 4, 6):
        cases += ctx.mc("MCSpectra", ["CONSTANT NN = %d" % n, "CONSTANT MaxL = %d" % (5 * n + 1),
                                      "INIT SInit", "NEXT SNext", "INVARIANT Parseval", "INVARIANT NoMean",
                                      "INVARIANT ConjLaw", "INVARIANT ScaleLaw", "INVARIANT Inside",
                                      "INVARIANT Overlap", "CONSTRAINT Export", "CHECK_DEADLOCK FALSE"],
                        "n=%d" % n, cases=True)
    reps = ctx.pick(1, 8)
    for c in cases:
        n, l = c["n"], c["l"]
        for w in windows(n):
            for r in range(reps):
                fs = int(rng.choice([1, 2, 4, 8]))
                step = int(rng.randint(1, n + 3)) if rng.rand() < .3 else 0
                tag = "%d|%d|%s|%d" % (n, l, w[1], r)
                rec(ctx, "psd|" + tag, low, "psd", rng, n, l, l, w, step, fs)
                lb = l + (int(rng.randint(0, n + 2)) if rng.rand() < .5 and not step else 0)
                a, b = (l, lb) if rng.rand() < .5 else (lb, l)
                rec(ctx, "csd|" + tag, low, "csd", rng, n, a, b, w, step if a == b else 0, fs)
                rec(ctx, "phase|" + tag, low, "phase", rng, n, a, b, w, step if a == b else 0, fs)
                if 2 * l // n > 2:
                    rec(ctx, "coh|" + tag, low, "coh", rng, n, a, b, w, 0, fs)
    for n in (3, 4, 6):
        for fs in (1, 2, 5, 16):
            for u in ("Hz", "rad/s"):
                rec(ctx, "freq|%d|%d|%s" % (n, fs, u), freq, n, fs, u)
    ovrs = [(), ("bin",), ("fft",), ("fs",), ("bin", "fft")]
    for i in range(ctx.pick(320, 4000)):
        n = [3, 4, 6][i % 3]
        qq = 2 if i % 11 == 0 else 1
        p = int(rng.randint(n, 3 * n + 1)) if qq == 1 else 2 * int(rng.randint(n, 2 * n + 1)) + 1
        lo = -(-p // qq)
        N = int(rng.randint(lo, 3 * lo + 3))
        W = windows(n)
        w = W[rng.randint(len(W))]
        fn = ["psd", "psd", "csd", "coh", "phase"][rng.randint(5)]
        if qq == 2:
            fn = "psd"
        ov = ovrs[rng.randint(5)]
        if qq == 2:
            ov = ()
        rec(ctx, "bins|%s|%d" % (fn, i), bins, fn, rng, n, p, qq, N, w, int(rng.choice([1, 2, 4])),
            bool(rng.randint(2)) or fn == "csd", ["Hz", "rad/s"][rng.randint(2)], ov)
    for k in ("psd", "csd", "phase", "coh", "bins"):
        for e in ctx.events:
            if e["k"] == k and (k != "bins" or e["fn"] == "psd" and not any(e["noise"])):
                if k == "coh" and not (e["a"] == e["b"] and not any(e["nz"]) and NAN not in e["out"]):
                    continue
                e = copy.deepcopy(e)
                w = e["out"]
                while isinstance(w[0], list):
                    w = w[0]
                if w[0] >= NAN or k == "phase" and e["b"] != e["a"]:
                    continue
                w[0] += 30
                ctx.canary(e)
                break
