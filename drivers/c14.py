"""AD2CP files: decoded packet by packet; every pattern of missing packets the model has."""
import json
import random
from vlib.ad2 import Gen
from vlib.core import run_pool
from drivers import ad2file as R
SPEC = "Ad2Trace"
AHRS = 1 << 12
VEL = 0b11101111
SETS = [["burst"], ["burst", "b5"], ["burst", "bt"], ["burst", "b5", "bt"], ["avg"], ["avg", "bt"], ["burst", "echo"],
        ["burst", "b5", "bt", "echo"], ["avg", "echo"], ["burst", "raw"], ["burst", "b5", "raw"], ["avg", "rawavg"], ["avg", "bt", "rawavg"]]


def flags(r, k, ahrs=None, raw=False):
    a = r.choice([0, AHRS]) if ahrs is None else ahrs
    if k in ("burst", "avg"):
        return VEL | (1 << 8 if raw else r.choice([0, 1 << 8])) | r.choice([0, 1 << 10]) | a | r.choice([0, 0, 1 << 13]) | r.choice([0, 0, 1 << 14])
    if k == "b5":
        return VEL | a
    if k == "bt":
        return 0b101111 | 1 << 8 | 1 << 9 | (1 << 10 if a else 0)
    if k == "echo":
        return 0b1111 | 1 << 11 | a
    if k in ("raw", "rawavg"):
        return 0b1111 | 1 << 8 | 1 << 9 | r.choice([0, 1 << 10]) | r.choice([0, a])
    return 0


def options(r, streams, **kw):
    o = {}
    common = r.choice([0, AHRS]) if r.random() < .7 else None
    if "avg" in streams and "burst" in streams:
        common = AHRS
    raw = bool({"raw", "rawavg"} & set(streams))
    for k in streams:
        o["flags_" + k] = flags(r, k, common, raw)
    o.update(kw)
    return o


def _one(a):
    case, scratch, seed, items, opt, kw = a
    g = Gen(random.Random(seed), **opt)
    return case, R.event(scratch, g, g.file(items), **kw)


def run(ctx):
    r = ctx.rng
    jobs = []

    def add(case, items, opt, **kw):
        jobs.append((case, ctx.scratch, ctx.seed * 1000 + len(jobs), items, opt, kw))

    # files in which every ensemble is whole
    for i in range(ctx.pick(150, 2500)):
        s = SETS[i % len(SETS)]
        regular = [k for k in s if not k.startswith("raw")]
        sparse = [k for k in s if k.startswith("raw")]
        n = r.randint(1, ctx.pick(6, 14))
        at = {r.randrange(n)} | {j for j in range(n) if r.random() < .3}
        its = []
        for j in range(n):
            its += regular + (sparse if j in at else []) + (["odd"] if r.random() < .1 else []) + (["str"] if r.random() < .05 else [])
            its += ["alt"] if r.random() < .1 else []
            its += ["rawecho"] if r.random() < .05 else []
            its += ["+"]
        if r.random() < .2:
            j = r.randrange(len(its))
            its = [k + "!" if k in ("burst", "avg", "b5", "bt", "echo") and r.random() < .2 else k for k in its]
        start = r.randrange(n) if r.random() < .3 else 0
        nens = r.choice([-1, -1, r.randint(start + 1, n + 2)]) if not sparse or start == 0 else -1
        add("regular/%d/%s%s" % (i, "+".join(s), "/bad" if any(k.endswith("!") for k in its) else ""), its, options(r, s, ens0=r.choice([1, 2, 700]), cells=r.choice([1, 2, 3, 5] + ctx.pick([], [40]))),
            start=start, nens=nens, index=r.choice(["new", "cached", "rebuilt"]))

    add("regular/big", ["burst", "+", "big", "burst", "+", "burst", "+"], options(r, ["burst"]))
    # two profiles in one file
    for i in range(ctx.pick(16, 300)):
        n1, n2 = r.choice([(3, 1), (5, 2), (2, 5), (4, 3), (1, 1)])
        s1 = ["burst"] + (["b5"] if r.random() < .4 else [])
        raws = r.choice([[], [], ["raw"], ["rawavg"], ["raw", "rawavg"]])
        its = []
        reps = r.randint(2, 4)
        for j in range(reps):
            for x in range(n1):
                its += s1 + (["raw"] if "raw" in raws and x == 0 else []) + ["+"] + (["str"] if r.random() < .05 else [])
            for x in range(n2):
                its += ["avg"] + (["rawavg"] if "rawavg" in raws and x == 0 else []) + ["+"]
        add("dual/%d/%d+%d" % (i, n1, n2), its, options(r, s1 + ["avg"] + raws))

    # packets missing here and there: every pattern
    for streams, n in ctx.pick([(["burst", "b5"], 5), (["burst", "b5", "bt"], 4)],
                               [(["burst", "b5"], 7), (["burst", "b5", "bt"], 5), (["burst", "b5", "bt", "echo"], 4)]):
        cases = ctx.mc("MCAd2", ["CONSTANTS", 'Streams = {%s}' % ", ".join('"%s"' % s for s in streams),
                                 "Order <- MCOrder%d" % len(streams), "N = %d" % n, "Offsets = {0, 6}",
                                 "SPECIFICATION Spec", "INVARIANTS OneEach Together InOrder NoneLost Hole Counted Export", "CHECK_DEADLOCK FALSE"],
                       "missing/%d" % len(streams), cases=True)
        cases = [c for c in cases if c["off"] == 0 or r.random() < .3]
        if len(cases) > ctx.pick(120, 3000):
            cases = r.sample(cases, ctx.pick(120, 3000))
        for c in cases:
            its = []
            for row in c["present"]:
                its += row + ["+"]
            add("missing/%s/off%d" % (",".join("".join(x[-1] for x in row) for row in c["present"]), c["off"]), its,
                options(r, streams, ens0=1 + c["off"], cells=2), index=r.choice(["new", "cached"]))
        ctx.notes.append("%d patterns of missing packets over %s" % (len(cases), "+".join(streams)))
    for case, ev in run_pool(_one, jobs, chunksize=4):
        ctx.emit(ev, case)
    ctx.notes.append("%d files read" % len(jobs))
    ctx.chunk = 6

    good = [e for e in ctx.events if not e["raised"] and "vel" in e["out"][0]["vars"] and len(e["out"]) == 1 and e["case"].startswith("regular") and e["start"] == 0 and "/bad" not in e["case"]][:6]
    for e in good:
        for nm in ("vel", "temp", "orientmat", "time", "status", "low_volt_skip"):
            if nm in e["out"][0]["vars"] and (nm != "orientmat" or e["out"][0]["attrs"]["has_imu"]):
                c = json.loads(json.dumps(e))
                c["out"][0]["vars"][nm][0][0] += 300
                ctx.canary(c)
        c = json.loads(json.dumps(e))
        c["out"][0]["vars"]["vel"].append(c["out"][0]["vars"]["vel"][0])
        ctx.canary(c)
        c = json.loads(json.dumps(e))
        del c["out"][0]["vars"]["pressure"]
        ctx.canary(c)
