"""Nortek files: decoded record by record."""
import json
import random
from vlib.nrt import Gen
from vlib.core import run_pool
from drivers import nrtfile as R
SPEC = "NrtTrace"
NAME = {"VEC": "f.VEC", "WPR": "f.wpr", "VNO": "f.vno"}


def _one(a):
    case, scratch, seed, model, opt, items, kw = a
    g = Gen(random.Random(seed), model, **opt)
    return case, R.event(scratch, g.file(items), name=NAME[model], ahrs=opt.get("ahrs", 204), **kw)


def burst(r, n, kinds, avg, nb, p=.15):
    """a plausible Vector deployment: system records once a second, IMU after each sample"""
    its = []
    last = None
    lost = r.choice([0, 0, 0, .4])
    for i in range(n):
        now = (i * avg // 512, i // nb if nb else 0)
        if now != last and (last is None or now[1] != last[1] or r.random() >= lost):
            its.append("sys")
        last = now
        its.append("v")
        if "imu" in kinds:
            its.append("imu")
        if r.random() < p:
            its.append(r.choice(["unk", "chk", "hdr", "imux"] if "imu" in kinds else ["unk", "chk", "hdr"]))
    return its


def run(ctx):
    r = ctx.rng
    jobs = []

    def add(case, model, items, kw=None, **opt):
        jobs.append((case, ctx.scratch, ctx.seed * 1000 + len(jobs), model, opt, items, kw or {}))
    items = ["v", "sys", "imu", "unk"]
    cases = ctx.mc("MCNortek", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "INVARIANTS Counts OnePer Aligned Latest Export",
                                "CONSTANTS Items = {%s} MaxLen = %d Quota = {1, 2, 3}" % (",".join('"%s"' % i for i in items), ctx.pick(5, 6))],
                   "files", cases=True)
    n = ctx.pick(500, 5000)
    for i, c in enumerate(cases if len(cases) <= n else r.sample(cases, n)):
        add("file/%d/%s/%d" % (i, ",".join(c["items"]), c["nens"]), "VEC", c["items"], {"nens": c["nens"] or -1},
            ahrs=(204, 195, 211)[i % 3], avg=(512, 256, 128, 64)[i % 4])
    # Vector deployments: rates, bursts, inertial sensors, headings through North
    for i in range(ctx.pick(160, 2500)):
        kinds = ["imu"] if i % 2 else []
        avg = r.choice([512, 256, 128, 64, 32, 16, 8, 100, 7])
        nb = r.choice([0, 0, 4, 8, 16])
        its = burst(r, r.choice([4, 9, 16, 24, 33]), kinds, avg, nb)
        if i % 5 == 0:
            its = [r.choice(["v", "v", "v", "sys", "imu", "unk"] if kinds else ["v", "v", "sys", "hdr", "chk"]) for _ in range(r.randint(3, 24))]
        add("vector/%d/avg%d/burst%d" % (i, avg, nb), "VEC", its, avg=avg, n_burst=nb, ahrs=r.choice([195, 204, 211]),
            heading=r.choice([0, 3590, 3599, 1795, 900]), t0=r.choice([(14, 12, 31, 23, 59, 50), (16, 2, 28, 23, 59, 57), (0, 1, 1, 0, 0, 0), (19, 7, 9, 9, 9, 9)]))
    # AWAC
    for i in range(ctx.pick(60, 800)):
        its = [r.choice(["prof", "prof", "prof", "unk", "unk"]) for _ in range(r.randint(1, 6))]
        its[0] = "prof" if i % 3 else its[0]
        if "prof" not in its:
            its.append("prof")
        add("awac/%d" % i, "WPR", its, cells=r.choice([2, 4, 6, 20]), avg=r.choice([1, 10, 60, 600]))
    # wave records among the profiles
    for nm, it in [("hdr", ["prof", "wavehdr", "prof"]), ("data", ["prof", "prof", "wave", "prof"]), ("suv", ["prof", "suv", "prof"])]:
        add("awacwaves/" + nm, "WPR", it, cells=2)
    # Vectrino
    for i in range(ctx.pick(60, 800)):
        its = ["vnohdr", "event"] + [r.choice(["vd", "vd", "vd", "chk", "vnohdr"]) for _ in range(r.randint(1, 12))] + ["vd"]
        add("vectrino/%d" % i, "VNO", its, avg=r.choice([2000, 500, 5000, 25000, 50000, 781]))
    seen = 0
    for case, ev in run_pool(_one, jobs, chunksize=4):
        ctx.emit(ev, case)
        if not ev["raised"] and case.startswith("vector") and seen < 4 and ev["out"]["n"] > 3:
            seen += 1
            for f in (_drop, _shift, _late):
                ctx.canary(f(ev))
    ctx.notes.append("%d files read" % len(jobs))
    ctx.chunk = 6


def _cp(e):
    return json.loads(json.dumps(e))


def _drop(e):
    e = _cp(e)
    e["out"]["n"] += 1
    return e


def _shift(e):
    e = _cp(e)
    v = e["out"]["vars"]["vel"]
    e["out"]["vars"]["vel"] = v[1:] + v[:1]
    return e


def _late(e):
    e = _cp(e)
    e["out"]["vars"]["amp"][0][0] += 1
    return e
