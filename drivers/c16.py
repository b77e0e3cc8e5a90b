"""Damaged files: only sound records come back, and all of them."""
import json
import random
from vlib.pd0 import Gen, FW
from vlib import nrt
from vlib.core import run_pool
from drivers import rdifile as R
from drivers import damage
from drivers import nrtfile as NF
from drivers import ad2file as AF, c14
from vlib import ad2
SPEC = "DamageTrace"


def rdi_zones(b):
    n = b[5]
    return {"sync": (0, 2), "size": (2, 4), "head": (4, 6 + 2 * n), "data": (6 + 2 * n, len(b) - 2), "check": (len(b) - 2, len(b))}


def rdi_junk(r):
    return bytes([r.choice([0, 1, 0x7F, 0x7F, 0x80, 0x79, 3]) for _ in range(r.choice([1, 1, 2, 3, 7, 40]))])


def rdi_file(seed, fw, kinds, cells):
    g = Gen(random.Random(seed), fw, cells)
    return [g.ens(k) for k in kinds]


def _rdi(a):
    case, scratch, seed, fw, kinds, cells, what = a
    r = random.Random(seed + 7)
    recs = rdi_file(seed, fw, kinds, cells)
    if what[0] == "faults":
        data = damage.apply(recs, rdi_zones, what[1], what[2], r, rdi_junk)
    else:
        data = bytearray(b"".join(recs))
        k, p = what[0], int(what[1] * len(data)) if what[0] != "at" else what[1]
        if k == "cut":
            data = data[:p]
        elif k == "cutat":
            data = data[:p]
        elif k == "flip":
            data[p] ^= what[2]
        elif k == "lose":
            del data[p:p + what[2]]
        elif k == "double":
            data = data[:p] + data[max(0, p - what[2]):]
        data = bytes(data)
    return case, R.event(scratch, data)


NAME = {"VEC": "f.VEC", "WPR": "f.wpr", "VNO": "f.vno"}


def nrt_zones(b):
    if b[1] in (16, 81):
        return {"sync": (0, 1), "head": (1, 2), "size": (2, 6), "data": (6, len(b) - 2), "check": (len(b) - 2, len(b))}
    return {"sync": (0, 1), "head": (1, 2), "size": (2, 4), "data": (4, len(b) - 2), "check": (len(b) - 2, len(b))}


def nrt_junk(r):
    return bytes([r.choice([0, 1, 0xA5, 0x11, 0x80, 7]) for _ in range(r.choice([1, 2, 3, 8, 40]))])


def _nrt(a):
    case, scratch, seed, model, items, opt, what = a
    r = random.Random(seed + 7)
    g = nrt.Gen(random.Random(seed), model, **opt)
    head, recs = g.config(), [g.item(k) for k in items]
    kw = {}
    if what[0] == "cut":
        data = head + b"".join(recs)
        data = data[:int(what[1] * len(data)) if what[1] < 1 else what[1]]
        ev = NF.event(scratch, data, name=NAME[model], ahrs=opt.get("ahrs", 204))
        return case, ev if len(data) >= 784 else None
    # records may be damaged; the first is left alone, so that there is one to start from
    keep = opt.get("keep", 0)
    data = head + b"".join(recs[:keep]) + damage.apply(recs[keep:], nrt_zones, what[1], what[2], r, nrt_junk)
    ev = NF.event(scratch, data, name=NAME[model], ahrs=opt.get("ahrs", 204), do_checksum=True)
    ev["k"] = "checked"
    ev["faults"] = len(what[1]) + (what[2][1] != "none")
    ev["mild"] = not what[1]
    return case, ev


def _ad2(a):
    case, scratch, seed, items, opt, n = a
    g = ad2.Gen(random.Random(seed), **opt)
    return case, AF.event(scratch, g, g.file(items)[:n])


def run(ctx):
    r = ctx.rng
    cases = ctx.mc("MCDamage", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE",
                                "INVARIANTS NothingInvented InOrder NothingElseLost Export",
                                "CONSTANTS N = 3 MaxFaults = %d" % ctx.pick(1, 2)], "damage", cases=True)
    jobs = []

    def add(case, fw, kinds, cells, what):
        jobs.append((case, ctx.scratch, ctx.seed * 1000 + len(jobs), fw, kinds, cells, what))
    fws = list(FW)
    kinds = [["full"] * 3, ["full+bt", "full", "full+alt"], ["full+bt+unk", "novel", "full"]]
    keep = cases if len(cases) < ctx.pick(700, 6000) else r.sample(cases, ctx.pick(700, 6000))
    for i, c in enumerate(keep):
        add("rdi/fault/%d/%s/%s" % (i, json.dumps(c["faults"]), c["cut"]), fws[i % len(fws)], kinds[i % 3], 1 + i % 2,
            ("faults", c["faults"], c["cut"]))
    for i in range(ctx.pick(500, 6000)):
        x = r.random()
        k = ["cut", "flip", "lose", "double", "flip"][i % 5]
        n = r.choice([1, 2, 64, 128, 255]) if k == "flip" else r.choice([1, 2, 3, 30, 200])
        add("rdi/%s/%d/%.4f/%d" % (k, i, x, n), r.choice(fws), r.choice(kinds), r.choice([1, 2]), (k, x, n))
    # Nortek files cut anywhere, and damaged ones read with their checksums
    njobs = []

    def addn(case, model, items, what, **opt):
        njobs.append((case, ctx.scratch, ctx.seed * 1000 + len(njobs), model, items, opt, what))
    kinds = [("VEC", ["sys", "v", "v", "sys", "v"], {"keep": 2}), ("VEC", ["sys", "v", "imu", "v", "imu", "v", "imu"], {"keep": 3}),
             ("WPR", ["prof", "prof", "prof", "prof"], {"keep": 1}), ("VNO", ["vnohdr", "event", "vd", "vd", "chk", "vd"], {"keep": 3}),
             ("VNO", ["vnohdr", "event", "vd", "vd", "vd", "vd", "vd"], {"keep": 3})]
    for m, its, opt in kinds:
        size = len(nrt.Gen(random.Random(1), m, **opt).file(its)) - 784
        cuts = range(size) if size < ctx.pick(60, 10 ** 6) else sorted(r.sample(range(size), ctx.pick(60, 300) if size > 300 else size))
        for n in cuts:
            if "imu" in its and n < 180:
                continue       # no sample with its inertial data yet
            addn("nrt/cut/%s/%s/%d" % (m, ",".join(its), n), m, its, ("cut", 784 + n), **opt)
    nk = r.sample(cases, min(len(cases), ctx.pick(500, 4000)))
    for i, c in enumerate(nk):
        m, its, opt = kinds[i % len(kinds)]
        if i % len(kinds) == 4:        # sound records behind the damage
            c = dict(c, cut=[4, "none"])
        addn("nrt/fault/%d/%s/%s/%s" % (i, m, json.dumps(c["faults"]), c["cut"]), m, its, ("faults", c["faults"], c["cut"]), **opt)
    # Signature files cut anywhere
    ajobs = []
    for i in range(ctx.pick(4, 24)):
        s = [["burst", "b5"], ["burst", "bt", "echo"], ["avg"], ["burst"], ["burst", "b5", "bt"], ["avg", "bt"]][i % 6]
        its, opt, seed = (s + ["+"]) * 4, c14.options(r, s, cells=r.choice([1, 2])), ctx.seed * 1000 + i
        head = len(ad2.Gen(random.Random(seed), **opt).header())
        size = len(ad2.Gen(random.Random(seed), **opt).file(its))
        for n in sorted(r.sample(range(head, size), ctx.pick(60, 300))):
            ajobs.append(("ad2/cut/%d/%s/%d" % (i, "+".join(s), n), ctx.scratch, seed, its, opt, n))
    seen = 0
    for case, ev in run_pool(_ad2, ajobs, chunksize=4):
        ctx.emit(ev, case)
        if not ev["raised"] and len(ev["out"][0]["vars"].get("vel", [])) > 1 and seen < 3:
            seen += 1
            e = json.loads(json.dumps(ev))
            e["out"][0]["vars"]["vel"][0][0] += 1
            ctx.canary(e)
    seen = 0
    for case, ev in run_pool(_nrt, njobs, chunksize=4):
        if ev is None:
            continue
        ctx.emit(ev, case)
        if ev["k"] == "checked" and not ev["raised"] and ev["out"]["n"] >= 2 and seen < 4:
            seen += 1
            for nm in ("vel", "amp"):
                e = json.loads(json.dumps(ev))
                e["out"]["vars"][nm][-1][0] += 1
                ctx.canary(e)
    seen = 0
    for case, ev in run_pool(_rdi, jobs, chunksize=4):
        ctx.emit(ev, case)
        if not ev["raised"] and ev["out"]["n"] == 2 and seen < 4:
            seen += 1
            for f in (_extra, _bump):
                ctx.canary(f(ev))
    ctx.notes.append("%d damaged TRDI files, %d damaged Nortek files, %d cut Signature files" % (len(jobs), len(njobs), len(ajobs)))
    ctx.chunk = 6


def _extra(e):
    e = json.loads(json.dumps(e))
    e["out"]["n"] += 1
    return e


def _bump(e):
    e = json.loads(json.dumps(e))
    e["out"]["vars"]["heading"][-1][0] += 1
    return e
