"""User metadata and format detection."""
import json
import os
import random
import zlib
import tempfile
import shutil
import warnings
import numpy as np
import dolfyn
from vlib import nrt, pd0, ad2
from vlib.core import guard, run_pool
from drivers import rdifile as RF
from drivers.c15 import code
from drivers import c14
SPEC = "MetadataTrace"


def acode(x):
    return zlib.crc32(repr(np.asarray(x).tolist()).encode()) & 0x3FFFFFFF


def attrs(ds):
    return {k: acode(v) for k, v in ds.attrs.items()}


def vcodes(ds):
    return {nm: code(ds[nm].values) for nm in ds.variables}


def data(fmt, seed):
    r = random.Random(seed)
    if fmt == "rdi":
        g = pd0.Gen(r, "wh50", 2, var=0)
        return b"".join(g.ens("full+bt") for _ in range(3)), "d.000"
    if fmt == "rdivar":
        g = pd0.Gen(r, "os", 2, var=1250)
        return b"".join(g.ens("full") for _ in range(3)), "my.data.PD0"
    if fmt == "vec":
        return nrt.Gen(r, "VEC", coord=r.choice([0, 1, 2]), avg=512).file(["sys", "v", "imu"] * 3), "v.VEC"
    if fmt == "vecplain":
        return nrt.Gen(r, "VEC", coord=1, avg=512).file(["sys", "v"] * 3), "v"
    if fmt == "awac":
        return nrt.Gen(r, "WPR").file(["prof"] * 3), "a.b.wpr"
    if fmt == "sig":
        ss = ["burst", "b5"] if seed % 2 else ["burst", "bt"]
        return ad2.Gen(r, **c14.options(r, ss, cells=2)).file((ss + ["+"]) * 3), "s.1.ad2cp"
    if fmt == "sigavg":
        return ad2.Gen(r, **c14.options(r, ["avg"], cells=2)).file(["avg", "+"] * 3), "s_avg"
    return nrt.Gen(r, "VNO").file(["vnohdr", "event"] + ["vd"] * 3), "d.vno"


MODEL = {"rdi": "RDI", "rdivar": "RDI", "vec": "Vector", "vecplain": "Vector", "awac": "AWAC", "vno": "Vectrino", "sig": "Signature", "sigavg": "Signature"}
MATS = {"identity": "identity", "eye": "eye", "one": 1, "turn": [[0., 1., 0.], [-1., 0., 0.], [0., 0., 1.]],
        "tilt": [[1., 0., 0.], [0., .6, .8], [0., -.8, .6]]}


def value(nm, r):
    """(what is written into the file, what becomes of it)"""
    if nm.endswith("rotmat"):
        m = r.choice(sorted(MATS))
        if nm == "my_rotmat":       # an entry like any other
            return MATS[m], MATS[m]
        return MATS[m], np.eye(3) if m in ("identity", "eye", "one") else np.array(MATS[m])
    if nm.endswith("head_vec"):
        v = [r.randint(-9, 9) / 4. for _ in range(3)]
        return v, v
    if nm == "declination":
        v = r.choice([0, 8.28, -15.5, 12, 180.0])
        return v, v
    v = r.choice([3, 2.5, "a text", [1, 2.5], "", True, 0, [39.9402, -105.2283]])
    return v, v


def by_hand(ds, ent):
    if "inst2head_rotmat" in ent and ds.attrs["inst_model"].lower() in ("vector", "awac", "vectrino"):
        dolfyn.set_inst2head_rotmat(ds, ent["inst2head_rotmat"], inplace=True)
    if "declination" in ent:
        dolfyn.set_declination(ds, ent["declination"], inplace=True)
    return ds


def _meta(a):
    case, scratch, seed, fmt, c = a
    r = random.Random(seed)
    top = tempfile.mkdtemp(prefix="m_", dir=scratch)
    d = os.path.join(top, "dir.with.dots")
    os.mkdir(d)
    try:
        b, name = data(fmt, seed)
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(b)
        want = sorted(k for k, v in c["content"].items() if v)
        paths = {"base": os.path.splitext(p)[0] + ".userdata.json", "full": p + ".userdata.json", "named": os.path.join(d, r.choice(["other.json", "x.userdata.json"]))}
        if paths["base"] == paths["full"]:      # a name without an extension
            c["files"]["full"] = c["files"]["base"]
        entries, sem = {}, {}
        for s in ("base", "full", "named"):
            entries[s], sem[s] = {}, {}
            if s == "full" and paths["base"] == paths["full"]:
                entries[s], sem[s] = entries["base"], sem["base"]
                continue
            wr = {}
            for nm in want:
                w, v = value(nm, r)
                wr[nm] = w
                entries[s][nm] = acode(v)
                sem[s]["inst" + nm[4:] if nm.startswith("body") else nm] = v
            if c["files"][s]:
                with open(paths[s], "w") as f:
                    json.dump(wr, f)
        # metadata that belongs to somebody else
        for x in (d + ".userdata.json", os.path.join(d, ".userdata.json"), os.path.join(top, "dir.userdata.json"),
                  os.path.join(d, "another.userdata.json")):
            with open(x, "w") as f:
                json.dump({"stranger": 1}, f)
        sw = {"on": True, "off": False, "named": paths["named"]}[c["sw"]]
        st, ds = RF.read(p, userdata=sw)
        st0, plain = RF.read(p, userdata=False)
        e = {"k": "meta", "files": c["files"], "sw": c["sw"], "entries": entries, "model": MODEL[fmt], "raised": st != "ok", "what": ds if st != "ok" else "",
             "handraised": False, "hand": {}, "got": {}, "handvars": {}, "gotvars": {}, "filemut": open(p, "rb").read() != b}
        src = c["sw"] if c["sw"] != "on" else "base" if c["files"]["base"] else "full" if c["files"]["full"] else "off"
        if st0 != "ok":
            e["handraised"] = True
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                hs, hand = guard(by_hand, plain, {} if src == "off" else sem[src])
            e["handraised"] = hs != "ok"
            if hs == "ok":
                e["hand"], e["handvars"] = attrs(hand), vcodes(hand)
        if st == "ok":
            e["got"], e["gotvars"] = attrs(ds), vcodes(ds)
        return case, e
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _type(a):
    case, scratch, seed, b, whole, name = a
    d = tempfile.mkdtemp(prefix="t_", dir=scratch)
    try:
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(b)
        st, ds = RF.read(p)
        make = "none"
        if st == "ok":
            m = str(ds.attrs["inst_model"])
            make = "RDI" if "RDI" in str(ds.attrs["inst_make"]) else "signature" if m.startswith("Signature") else "nortek"
        return case, {"k": "type", "b": list((b + b"\0\0")[:2]), "whole": whole, "raised": st != "ok", "make": make,
                      "named": p in (ds if st != "ok" else ""), "lfs": b.startswith(b"version https://git-lfs.github.com/spec/"),
                      "lfserror": st != "ok" and "git-lfs" in ds.replace(p, "")}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    r = ctx.rng
    names = ["declination", "inst2head_rotmat", "body2head_vec", "decimated", "latlon", "my_rotmat", "inst2head_vec", "body2head_rotmat"]
    cs = []
    for grp in ctx.pick([names[:2] + names[3:5], ["declination", "body2head_vec", "my_rotmat"], ["body2head_rotmat", "decimated", "inst2head_vec"], ["blank_dist", "declination"]],
                        [names[:6], ["declination", "body2head_rotmat", "inst2head_vec", "my_rotmat", "latlon"], ["blank_dist", "declination", "decimated"]]):
        cs += ctx.mc("MCMetadata", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "INVARIANTS RightSource OnlyError Nothing AllUsed Disjoint Export",
                                    "CONSTANTS Contents = {%s}" % ",".join('"%s"' % n for n in grp)], "metadata-%d" % len(cs), cases=True)
    fmts = ["rdi", "rdivar", "vec", "vecplain", "awac", "vno", "sig", "sigavg"]
    jobs = []
    keep = cs if len(cs) <= ctx.pick(900, 6000) else r.sample(cs, ctx.pick(900, 6000))
    for i, c in enumerate(keep):
        fmt = fmts[i % len(fmts)]
        jobs.append(("meta/%d/%s/%s/%s" % (i, fmt, c["sw"], "+".join(k for k in sorted(c["content"]) if c["content"][k])),
                     ctx.scratch, ctx.seed * 1000 + i, fmt, c))
    seen = 0
    for case, ev in run_pool(_meta, jobs, chunksize=4):
        ctx.emit(ev, case)
        if not ev["raised"] and ev["got"].get("latlon") and seen < 3:
            seen += 1
            e = json.loads(json.dumps(ev))
            e["got"].pop("latlon")
            ctx.canary(e)
            e = json.loads(json.dumps(ev))
            e["gotvars"]["vel"] += 1
            ctx.canary(e)
    # leading bytes
    tj = []
    for fmt in fmts:
        b, _ = data(fmt, 5)
        for name in ["d.000", "x.VEC", "y.ad2cp", "z", "w.nc", "q.wpr"]:
            tj.append(("type/whole/%s/%s" % (fmt, name), ctx.scratch, 0, b, True, name))
    lfs = b"version https://git-lfs.github.com/spec/v1\noid sha256:4d7a\nsize 12345\n"
    tj.append(("type/lfs", ctx.scratch, 0, lfs, False, "p.VEC"))
    tj.append(("type/lfs-like", ctx.scratch, 0, lfs[:30], False, "p.VEC"))
    firsts = [0x7F, 0xA5, 0x76, 0, 0x79, 0x0A, 5]
    pairs = [(a, b) for a in firsts for b in range(256)] if ctx.quick else [(a, b) for a in range(256) for b in range(256)]
    # a hundred at a time keeps the pool busy
    tail = bytes(60)
    for a, b in pairs:
        if (a, b) in ((0x7F, 0x79), (0x7F, 0x7F), (0xA5, 5), (0xA5, 0x0A)):
            continue
        tj.append(("type/%02x%02x" % (a, b), ctx.scratch, 0, bytes([a, b]) + tail, False, r.choice(["d.000", "x.VEC", "y.ad2cp", "z"])))
    for b in (b"", b"\x7f", b"\xa5"):
        tj.append(("type/short%d" % len(b), ctx.scratch, 0, b, False, "d.000"))
    for case, ev in run_pool(_type, tj, chunksize=64):
        ctx.emit(ev, case)
    e = dict(ctx.events[-1], raised=False)
    ctx.canary(e)
    ctx.notes.append("%d metadata situations, %d leading-byte situations" % (len(jobs), len(tj)))
