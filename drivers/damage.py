"""Turns the faults of specs/MCDamage.tla into bytes.  A record is given as its
bytes and the zones in it: {zone: (first, one past last)}."""
import random


def apply(recs, zones, faults, cut, r, junk):
    """recs: list of bytes; zones(bytes) -> dict; cut: [record, zone]"""
    out = b""
    for i, rec in enumerate(recs, 1):
        z = zones(rec)
        if cut[0] == i and cut[1] != "none":
            n = 0 if cut[1] == "before" else r.randrange(*z[cut[1]]) + (0 if r.random() < .5 else 1)
            n = min(n, len(rec) - 1)
            return out + rec[:n]
        rec = bytearray(rec)
        pre = b""
        for f in [f for f in faults if f["r"] == i]:
            if f["kind"] == "junk":
                pre = junk(r)
            else:
                p = r.randrange(*z[f["zone"]])
                if p >= len(rec):
                    p = len(rec) - 1
                if f["kind"] == "flip":
                    rec[p] ^= r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
                else:
                    del rec[p:p + r.choice([1, 1, 2, 5])]
        out += pre + bytes(rec)
    return out
