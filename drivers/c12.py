"""TRDI files: decoded ensemble by ensemble."""
import json
import os
import random
import dolfyn
from vlib.pd0 import Gen, FW
from vlib.core import run_pool
from drivers import rdifile as R
SPEC = "Pd0Trace"

def _one(a):
    case, scratch, seed, fw, cells, opt, items = a
    if fw is None:
        return case, R.event(scratch, items, name=opt["fname"])
    g = Gen(random.Random(seed), fw, cells, **opt)
    data = b"".join(build(g, it) for it in items)
    return case, R.event(scratch, data, name=opt.get("fname", "f.000"))

def build(g, it):
    if it == "junk":
        return g.junk()
    if it == "trunc":
        return g.ens("full")[:-9]
    if it == "badsum":
        x = bytearray(g.ens("full")); x[-20] ^= 0x15
        return bytes(x)
    if it.startswith("less"):
        return g.ens(it[5:] or "full", max(1, g.cells - 1))
    if it.startswith("more"):
        return g.ens(it[5:] or "full", g.cells + 2)
    return g.ens(it)

FAM = list(FW)


def run(ctx):
    jobs = []

    def add(case, fw, items, cells=3, **opt):
        jobs.append((case, ctx.scratch, ctx.seed * 1000 + len(jobs), fw, cells, opt, items))
    # behaviours of the model: what a file is made of, in which order
    items = ["full", "full+bt", "less", "more", "junk", "trunc", "badsum", "novel+bt", "full+unk+alt"]
    cases = ctx.mc("MCPd0", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "INVARIANTS NoMix Ordered Complete Export",
                             "CONSTANTS Items = {%s} MaxLen = %d" % (",".join('"%s"' % i for i in items), ctx.pick(3, 4))],
                   "files", cases=True)
    for i, c in enumerate(cases):
        add("file/%d/%s" % (i, ",".join(c["items"])), FAM[i % len(FAM)], c["items"], cells=2)
    # every firmware with every kind of content
    kinds = ["full", "full+bt", "full+status+unk+bt", "full+bt+end", "full+gap+bt", "swap+skip", "bb+bt", "sl+bt", "nav+bt",
             "att+bt+alt", "gga+vtg+dbt+hdt+bt", "noamp", "wr+bt"]
    for fw in FW:
        for k in kinds:
            for c in ctx.pick([2], [1, 2, 5]):
                opt = {"winriver1": True} if k.startswith("wr") else {}
                add("fw/%s/%s/%d" % (fw, k, c), fw, [k] * 3, cells=c, **opt)
    # contents that change from one ensemble to the next
    r = ctx.rng
    pool = ["full", "full+bt", "novel", "noamp", "full+status", "full+unk", "full+end", "bt+alt", "badtime", "junk", "more:bt", "less:bt"]
    vm = ["nav", "nav+rep", "full", "nav+bt"]
    wr = ["gga", "gga+vtg", "gga+rep+dbt", "vtg+hdt", "gga+hdt", "gga+empty+vtg", "gga+evtg+ehdt", "gga+edbt+vtg+ehdt", "full", "dbt"]
    sl = ["sl", "sl+bt", "sl+novel"]
    for i in range(ctx.pick(220, 2500)):
        p = [pool, vm, wr, sl][i % 4]
        its = [r.choice(p) for _ in range(r.randint(1, 6))]
        if i % 4 == 3:
            its[0] = "sl"
        if i % 4 == 1:
            its[0] = "nav"
        if i % 4 == 2:
            its[0] = "gga+vtg+dbt+hdt"
        opt = {}
        if i % 4 == 3 and i % 3 == 0:
            its, opt = [r.choice(["bt", "wr+bt", "wr", "bt+alt", "more:wr+bt"]) for _ in range(r.randint(1, 6))], {"winriver1": True}
        if i % 12 == 1:
            opt = {"fname": r.choice(["f.ENX", "f.ENR", "f.ENS", "ENX.ENS", "ENX.000"])}
        while its[0] == "junk":
            its[0] = r.choice(p)
        add("mix/%d/%s" % (i, ",".join(its)), r.choice(FAM), its, cells=r.choice([1, 2, 3, 4]), **opt)
    # configuration corners
    for i in range(ctx.pick(40, 400)):
        opt = {"beam5": i % 2 == 0, "var": r.choice([0, 1, -1, 17999, -17999]), "angle": r.choice([0, 20, 25, 30])}
        add("config/%d" % i, FAM[i % len(FAM)], ["full+bt", "full"], cells=r.choice([1, 3]), **opt)
    # the years of the last century and of the end of this one
    for fw in FAM:
        for k in ("full", "gga+bt"):
            add("years/%s/%s" % (fw, k), fw, [k] * 2, cells=1, years=True)
    # long files of small ensembles
    for i, (fw, n) in enumerate([("bb5a", 130), ("os14", 120), ("wh50", 110)]):
        add("long/%s" % fw, fw, ["swap"] * n, cells=1)
    # a recorded file: windows of its ensembles
    real = open(os.path.join(os.path.dirname(dolfyn.__file__), "example_data", "vmdas02_os.ENR"), "rb").read()
    at = [0]
    while at[-1] < len(real):
        at.append(at[-1] + int.from_bytes(real[at[-1] + 2:at[-1] + 4], "little") + 2)
    for i in range(ctx.pick(4, 40)):
        a = r.randrange(len(at) - 6)
        jobs.append(("recorded/%d" % a, ctx.scratch, 0, None, 0, {"fname": "f.ENR"}, real[at[a]:at[a + r.randint(1, 4)]]))
    evs = run_pool(_one, jobs, chunksize=4)
    seen = 0
    for case, ev in evs:
        ctx.emit(ev, case)
        if not ev["raised"] and ev["out"]["vars"].get("heading") and case.startswith("file") and seen < 4:
            seen += 1
            for f in (_drop, _shift, _bump):
                ctx.canary(f(ev))
    ctx.notes.append("%d files read" % len(jobs))
    ctx.chunk = 4


def _cp(e):
    return json.loads(json.dumps(e))


def _drop(e):
    e = _cp(e)
    e["out"]["n"] += 1
    return e


def _shift(e):
    e = _cp(e)
    e["out"]["vars"]["heading"] = e["out"]["vars"]["heading"][1:] + [[-5]]
    return e


def _bump(e):
    e = _cp(e)
    e["out"]["vars"]["number"][-1][0] += 1
    return e
