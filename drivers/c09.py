"""Runs of true values and gap filling."""
import copy
import itertools
import numpy as np
from dolfyn.tools import misc
from vlib.core import q, guard, NAN

SPEC = "GapsTrace"
SC = 2520
FINE = 2.**20 + .3


def group(b):
    a = np.array(b, bool)
    keep = a.copy()
    res = []
    for m in range(0, len(b) + 2):
        g = misc.group(a) if m == 0 else misc.group(a, m)
        res.append([[int(s.start), int(s.stop)] for s in g])
    if not np.array_equal(a, keep):
        raise ValueError("input changed")
    return {"k": "group", "b": b, "runs": res}


def fill(tool, x, lim, ext, t, dt, axis):
    """x: rows of integers; the array's `axis` holds the series."""
    a = np.array(x, float)
    a[a >= 2e9] = np.nan
    if dt == "f8":
        a = a + FINE          # nothing narrower holds these numbers
    a = a.astype(dt)
    good = a[~np.isnan(a)]
    kw = {}
    if lim < 99:
        kw["maxgap"] = lim
    if ext:
        kw["extrapFlg"] = True
    if axis is None:
        a = a[0]
        b = a.copy()
        r = misc.fillgaps(b, **kw) if tool == "fillgaps" else misc.interpgaps(b, np.array(t, float), **kw)
        if r is not b and not np.array_equal(r, b, equal_nan=True):
            raise ValueError("returned array is not the filled one")
        out = r[None]
    else:
        nd, ax = axis
        if nd == 3:
            a = a.reshape(2, -1, a.shape[-1])
        b = np.ascontiguousarray(np.moveaxis(a, -1, ax))
        if ax or len(x) % 2:
            kw["dim"] = ax
        if tool == "fillgaps":
            misc.fillgaps(b, **kw)
        else:
            misc.interpgaps(b, np.array(t, float), **kw)
        out = np.moveaxis(b, ax, -1).reshape(len(x), -1)
    return {"k": "fill", "tool": tool, "x": x, "lim": lim, "ext": ext, "sc": SC,
            "t": t if tool == "interpgaps" else [], "out": q(out - FINE if dt == "f8" else out, SC),
            "exact": bool(np.array_equal(out[~np.isnan(np.where(np.array(x) >= 2e9, np.nan, 0.))], good))}


def slices(shape, axis):
    res = []
    for s in misc.slice1d_along_axis(tuple(shape), axis):
        ax = axis if axis >= 0 else axis + len(shape)
        if s[ax] != slice(None):
            raise ValueError("axis not sliced")
        res.append([int(v) for i, v in enumerate(s) if i != ax])
    return {"k": "slices", "shape": list(shape), "axis": (axis % len(shape)) + 1, "idx": res}


def med(x, r, w, thr, one):
    a = np.array(x, float)
    a[a >= 2e9] = np.nan
    keep = a.copy()
    if one:
        o = misc.medfiltnan(a[0], 2 * w + 1, thresh=thr / 100)[None]
    else:
        o = misc.medfiltnan(a, [2 * r + 1, 2 * w + 1], thresh=thr / 100)
    if not np.array_equal(a, keep, equal_nan=True):
        raise ValueError("input changed")
    return {"k": "med", "x": x, "r": r, "w": w, "thr": thr, "out": q(o, 1, 1e-9)}


def rec(ctx, case, fn, *a):
    st, ev = guard(fn, *a)
    if st == "raise":
        ev = {"k": "error", "what": ev}
    ctx.emit(ev, case)


def run(ctx):
    N = ctx.pick(10, 12)
    cases = ctx.mc("MCGaps", ["CONSTANT N = %d" % N, "INIT GInit", "NEXT GNext",
                              "INVARIANT ScanAgrees", "INVARIANT Covers", "INVARIANT Apart",
                              "INVARIANT FillSane", "CONSTRAINT Export",
                              "CHECK_DEADLOCK FALSE"], "N=%d" % N, cases=True)
    rng = ctx.np_rng(9)
    for i, b in enumerate(cases):
        rec(ctx, "group|%s" % "".join("01"[v] for v in b), group, b)
    M = ctx.pick(8, 9)
    pats = [b for b in cases if len(b) <= M]
    opts = list(itertools.product((1, 2, 3, 99, 0), (False, True), ("fillgaps", "interpgaps")))
    for i, b in enumerate(pats):
        use = opts if not ctx.quick and len(b) < 7 else [opts[j] for j in rng.choice(len(opts), 4, False)]
        for lim, ext, tool in use:
            x = [NAN if v else int(rng.randint(-9, 10)) for v in b]
            t = np.cumsum(rng.choice([1, 2, 3], size=len(b))).tolist()
            rec(ctx, "fill|%s|%d|%d|%s" % ("".join("01"[v] for v in b), lim, ext, tool),
                fill, tool, [x], lim, ext, t, ["f8", "f4", "f8"][i % 3], None)
    for i in range(ctx.pick(200, 2000)):
        n = rng.randint(2, 9)
        nd = 2 if i % 3 else 3
        k = 6 if nd == 3 else rng.randint(1, 5)
        x = [[NAN if rng.rand() < .4 else int(rng.randint(-9, 10)) for _ in range(n)] for _ in range(k)]
        t = np.cumsum(rng.choice([1, 2, 3], size=n)).tolist()
        lim, ext, tool = opts[rng.randint(len(opts))]
        rec(ctx, "nd|%d" % i, fill, tool, x, lim, ext, t, "f8", (nd, int(rng.randint(nd))))
    for nd in (2, 3, 4):
        for shape in itertools.product((1, 2, 3), repeat=nd):
            for ax in range(-nd, nd):
                rec(ctx, "slices|%s|%d" % (shape, ax), slices, shape, ax)
    for i in range(ctx.pick(150, 1500)):
        one = i % 3 == 0
        r, w = (0, int(rng.randint(1, 3))) if one else (int(rng.randint(0, 2)), int(rng.randint(0, 3)))
        nr = 1 if one else rng.randint(3, 6)
        nt = rng.randint(5, 10)
        x = rng.randint(-9, 10, size=(nr, nt))
        x = np.where(rng.rand(nr, nt) < [0, .15, .5][i % 3], NAN, x).tolist()
        rec(ctx, "med|%d" % i, med, x, r, w, [0, 10, 30, 50][i % 4], one)
    for k in ("group", "fill", "med", "slices"):
        for e in ctx.events[::-1]:
            if e["k"] == k:
                e = copy.deepcopy(e)
                if k == "group":
                    if not e["runs"][0]:
                        continue
                    e["runs"][0][0][1] += 1
                elif k == "slices":
                    e["idx"][0][0] += 1
                elif k == "med":
                    if NAN in np.ravel(e["x"]):
                        continue
                    e["out"][0][0] += 1
                else:
                    if NAN in np.ravel(e["x"]):
                        continue
                    e["out"][0][0] += 5
                ctx.canary(e)
                break
