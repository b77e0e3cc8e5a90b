"""Writes TRDI PD0 files.  Only a generator: what the bytes mean is decided by
specs/Pd0.tla."""
import struct

# firmware families: version, revision, length of fixed and variable leader
FW = {"os": (23, 17, 60, 60), "os14": (14, 10, 50, 58), "wh16": (16, 28, 59, 65), "wh50": (50, 40, 59, 65),
      "wh16a": (16, 5, 53, 65), "wh8": (8, 35, 52, 57), "wh8a": (8, 14, 50, 56), "bb5": (5, 60, 42, 65), "river": (56, 3, 59, 66),
      "sv47": (47, 19, 59, 65), "bb5a": (5, 20, 42, 42),
      # the first ones of what changed with the firmware
      "bb53": (5, 30, 42, 42), "bb55": (5, 55, 42, 65), "wh813": (8, 13, 42, 56), "wh824": (8, 24, 52, 57), "wh1627": (16, 27, 59, 65)}


def u16(x):
    return struct.pack("<H", x & 0xFFFF)


def u32(x):
    return struct.pack("<I", x & 0xFFFFFFFF)


class Gen:
    """One file's configuration; ens() makes ensembles of it."""

    def __init__(self, rng, fw="wh16", cells=3, **opt):
        self.r, self.fw, self.cells, self.opt = rng, fw, cells, opt
        r = rng
        self.c = dict(
            cfg0=r.choice([0, 1, 2, 3, 4, 5, 6]) | r.choice([0, 8]) | r.choice([0, 128]),
            cfg1=r.choice([0, 1, 2]) | r.choice([0, 64]) | r.choice([0, 0, 4, 8, 32, 128]), coord=opt.get("coord", r.choice([0, 8, 16, 24])) | r.choice([0, 1, 2, 4, 7]),
            pings=r.choice([r.randint(1, 900), r.randint(1, 35000)]), cs=r.choice([25, 50, 100, 400, 1600, 40000]), blank=r.choice([r.randint(0, 2000), r.randint(0, 65535)]), mode=r.choice([1, 11, 12]),
            minc=r.randint(0, 255), reps=r.randint(0, 255), pg=r.randint(0, 100), mev=r.choice([r.randint(0, 9999), r.randint(0, 65535)]),
            tpp=[r.randint(0, 3), r.randint(0, 59), r.randint(1, 99)], mis=r.randint(-17999, 17999),
            var=opt.get("var", r.choice([0, 0, 1250, -730])), bin1=r.choice([r.randint(10, 3000), r.randint(1, 65535)]), xmit=r.choice([r.randint(1, 900), r.randint(1, 65535)]),
            ref=[r.randint(0, 5), r.randint(0, 9)], ft=r.randint(0, 255), lag=r.choice([r.randint(0, 400), r.randint(0, 65535)]),
            angle=opt.get("angle", r.choice([0, 20, 25])), serial=r.randint(0, 2 ** 31 - 1))
        self.c.update(sim=r.choice([0, 0, 1]), sens=[r.randint(0, 255), r.randint(0, 255)], bw=r.randint(0, 65535), power=r.randint(0, 255))
        self.n0 = opt.get("n0", r.choice([1, 200, 65533, 65536 * 200 + 65533]))
        self.k = 0
        self.cent, self.year = 20, opt.get("year", 14)
        if opt.get("years"):       # the last century where it is recorded, the last years of this one elsewhere
            self.cent, self.year = (19 if FW[fw][3] >= 65 else 20), r.choice([70, 95, 99])
        self.ms = r.randint(0, 40000000) // 10 * 10
        if opt.get("beam5"):
            self.c["cfg1"] |= 16

    def fixed(self, cells, id=0, c=None):
        c = c or self.c
        v, rev, n, _ = FW[self.fw]
        b = u16(id) + bytes([v, rev, c["cfg0"], c["cfg1"], c["sim"], 0, 4, cells]) + u16(c["pings"]) + u16(c["cs"]) + u16(c["blank"])
        b += bytes([c["mode"], c["minc"], c["reps"], c["pg"]]) + u16(c["mev"]) + bytes(c["tpp"]) + bytes([c["coord"]])
        b += u16(c["mis"]) + u16(c["var"]) + bytes(c["sens"]) + u16(c["bin1"]) + u16(c["xmit"]) + bytes(c["ref"])
        b += bytes([c["ft"], 0]) + u16(c["lag"])
        if self.fw.startswith("os"):
            return (b + bytes(60))[:n]
        b += bytes([self.r.randint(0, 255) for _ in range(8)]) + u16(c["bw"]) + bytes([c["power"], 0]) + u32(c["serial"]) + bytes([c["angle"]])
        assert len(b) >= n
        return b[:n]

    def clock(self, k, bad=False):
        s = 3600 * 13 + 59 * 60 + 50 + 3 * k
        d = [self.year, 12 if bad is False else 13, 31, s // 3600, s // 60 % 60, s % 60, (37 * k) % 100]
        return d

    def var(self, k, id=128, bad=False):
        r = self.r
        n = self.n0 + k
        cl = self.clock(k, bad)
        b = u16(id) + u16(n) + bytes(cl) + bytes([n >> 16]) + u16(r.choice([0, 0, 5, 256])) + u16(r.randint(1400, 1600))
        b += u16(r.randint(0, 9999)) + u16(r.randint(0, 35999)) + u16(r.randint(-9000, 9000)) + u16(r.randint(-9000, 9000))
        b += u16(r.randint(0, 40)) + u16(r.randint(-300, 4000)) + bytes([r.randint(0, 2), r.randint(0, 59), r.randint(0, 99)])
        b += bytes([r.randint(0, 180), r.randint(0, 200), r.randint(0, 200)]) + bytes([r.randint(0, 255) for _ in range(8)])
        assert len(b) == 42
        if self.fw.startswith("os"):
            b += bytes(18)
        elif self.fw.startswith("bb"):
            b += bytes([r.randint(0, 255) for _ in range(15)]) + bytes([self.cent] + cl)
        else:
            b += u32(r.randint(0, 2 ** 31)) + b"\x00\x00" + u32(r.randint(0, 2 ** 22)) + u32(r.randint(0, 5000)) + b"\x00"
            b += bytes([self.cent] + cl) + b"\x00"
        n = FW[self.fw][3]
        return b[:n]

    def vel(self, n, id=256, bad=None):
        v = [-32768 if (self.r.random() < .15) else self.r.randint(-32767, 32767) for _ in range(4 * n)]
        return u16(id) + b"".join(u16(x) for x in v)

    def bytes4(self, n, id):
        return u16(id) + bytes([self.r.randint(0, 255) for _ in range(4 * n)])

    def bottom(self, msb=True):
        r = self.r
        b = u16(1536) + bytes([r.randint(0, 255) for _ in range(14)]) + b"".join(u16(r.randint(0, 65535)) for _ in range(4))
        b += b"".join(u16(r.choice([-32768, r.randint(-9999, 9999)])) for _ in range(4))
        b += bytes([r.randint(0, 255) for _ in range(12)]) + bytes([r.randint(1, 255) for _ in range(26)])
        if self.opt.get("winriver1"):       # position hidden in the reference layer's bytes
            lon = r.choice([0, r.randint(1, 2047), r.randint(2049, 4095), r.randint(2037, 2047), r.randint(2049, 2060)]) << 20
            x = bytearray(b)
            x[4:6], x[46:48] = u16(lon & 0xFFFF), u16(lon >> 16)
            x[12:16] = u32(r.choice([0, r.randint(-1023, 1023)]) << 20)
            x[64] = r.choice([0, 1, 2])
            b = bytes(x)
        v = FW[self.fw][0] + FW[self.fw][1] / 100.
        if v < 5.3:
            return b
        b += bytes([r.randint(1, 255) for _ in range(7)]) + bytes([r.randint(0, 4) for _ in range(4)])
        if v >= 16.2:
            b += bytes([r.randint(0, 255) for _ in range(4)])
        if v >= 56.1:
            b += bytes(4)
        return b

    def alt(self):
        r = self.r
        return u16(16640) + bytes([r.randint(0, 255), r.randint(0, 255)]) + u32(r.randint(0, 4000000)) + bytes([r.randint(0, 255)])

    def vmdas(self, k, repeat=False):
        r = self.r
        if not repeat:
            self.ms += r.randint(1, 3000)
        t = self.ms * 10 + 3
        b = u16(8192) + bytes([30, 12]) + u16(2014) + u32(t - 77) + u32(r.randint(-99999, 99999)) + u32(r.randint(-900, 900) << 20)
        b += u32(r.randint(-900, 900) << 20) + u32(t) + u32(r.randint(-900, 900) << 20) + u32(r.randint(-1800, 1800) << 20)
        b += u16(r.randint(0, 9000)) + u16(r.randint(0, 65535)) + u16(7) + u16(r.randint(0, 9000)) + u16(r.randint(0, 65535)) + u16(0)
        b += u16(r.choice([r.randint(0, 255), r.randint(0, 255), 256, 512])) + bytes(6) + u16(2014) + bytes([30, 12]) + u32(t) + u16(r.randint(0, 65535))
        b += u16(r.randint(0, 65535)) + u16(r.randint(0, 65535)) + bytes(10)
        assert len(b) == 78
        return b

    def nmea(self, kind, form=0, empty=False, repeat=False):
        r = self.r
        spid = {"gga": 4, "vtg": 5, "dbt": 6, "hdt": 7}[kind] + 100 * form
        head = u16(8226) + u16(spid)
        dy = lambda lo, hi: r.randint(lo * 16, hi * 16) / 16.
        f, d = (lambda x: struct.pack("<f", x)), (lambda x: struct.pack("<d", x))
        if empty:
            n = {"gga": 40, "vtg": 20, "dbt": 18, "hdt": 12}[kind] + r.choice([0, 2]) + (r.choice([0, 1]) if kind == "gga" else 0)
            return head + u16(n) + d(0.) + b"$" * n
        if kind == "gga":
            if not repeat:
                self.ms += r.randint(1, 300) * 10
            t = self.ms
            s = "%02d%02d%02d.%02d" % (t // 3600000, t // 60000 % 60, t // 1000 % 60, t // 10 % 100)
            m = b"$GPGGA" + b"," + s.encode() + b"," + d(dy(0, 89)) + r.choice([b"N", b"S"]) + d(dy(0, 179)) + r.choice([b"E", b"W"])
            m += bytes([r.randint(0, 8), r.randint(0, 20)]) + f(dy(0, 9)) + f(dy(-50, 50)) + b"M" + f(dy(-50, 50)) + b"M" + f(dy(0, 99)) + u16(12)
        elif kind == "vtg":
            m = b"$GPVTG" + b"," + f(dy(0, 359)) + b"T" + f(dy(0, 359)) + b"M" + f(dy(0, 30)) + b"N" + f(dy(0, 60)) + b"K" + b"A"
        elif kind == "dbt":
            m = b"$SDDBT" + b"," + f(dy(0, 300)) + b"f" + f(dy(0, 99)) + b"M" + f(dy(0, 50)) + b"F"
        else:
            m = b"$GPHDT" + b"," + d(dy(0, 359)) + b"T"
        return head + u16(len(m) + r.choice([0, 8])) + d(1.5) + m

    def wrap(self, blocks, gap=0):
        n = len(blocks)
        o, offs, body = 6 + 2 * n, [], b""
        for x in blocks:
            offs.append(o)
            body += x + bytes([0xEE] * gap)
            o += len(x) + gap
        tot = 6 + 2 * n + len(body) + 2
        b = b"\x7f\x7f" + u16(tot) + b"\x00" + bytes([n]) + b"".join(u16(x) for x in offs) + body + b"\x5a\x5a"
        assert len(b) == tot
        return b + u16(sum(b))

    def blocks(self, kind="full", cells=None):
        n = self.cells if cells is None else cells
        k = self.k
        self.k += 1
        w = set(kind.split("+"))
        bad = "badtime" in w
        L = [self.fixed(n), self.var(k, bad=bad)]
        if "bb" in w:
            c2 = dict(self.c, bin1=777, cs=33)
            L += [self.fixed(self.opt.get("bbcells", n), 1, c2)]
            self.k += 5000
            L += [self.var(k + 5000, 129)]
            self.k -= 5000
        if "sl" in w:
            self.ns = min(n, self.opt.get("ns", 2))
            L += [u16(16) + bytes([self.ns]) + u16(10) + u16(55)]
        vel = [self.vel(n), self.bytes4(n, 512), self.bytes4(n, 768), self.bytes4(n, 1024)]
        if "novel" in w:
            vel = vel[1:]
        if "noamp" in w:
            vel = [x for x in vel if x[:2] != u16(768)]
        if "swap" in w:
            vel = vel[::-1]
        L += vel
        if "status" in w:
            L.append(self.bytes4(n, 1280))
        if "bb" in w:
            m = self.opt.get("bbcells", n)
            L += [self.vel(m, 257), self.bytes4(m, 513), self.bytes4(m, 769), self.bytes4(m, 1025)]
        if "sl" in w:
            L += [self.vel(self.ns, 272)] + [self.bytes4(self.ns, i) for i in (528, 784, 1040, 1296)]
        if "unk" in w:           # a block the reader does not know, between others
            L.append(u16(0x7777) + bytes([self.r.randint(0, 255) for _ in range(self.r.choice([2, 11, 30]))]))
        if "att" in w:           # variable attitude block of an Ocean Surveyor
            L.append(u16(0x30E0) + bytes([self.r.randint(0, 255) for _ in range(24)]))
        if "skip" in w:          # known blocks that are skipped
            L.append(u16(12800) + bytes([self.r.randint(0, 255) for _ in range(32)]))
            L.append(u16(22785) + bytes([self.r.randint(0, 255) for _ in range(65)]))
        if "bt" in w:
            L.append(self.bottom())
        if "alt" in w:
            L.append(self.alt())
        if "nav" in w:
            L.append(self.vmdas(k, "rep" in w))
        for g in ("gga", "vtg", "dbt", "hdt"):
            if g in w or "e" + g in w:
                L.append(self.nmea(g, self.r.choice([0, 1]), "empty" in w or "e" + g in w, "rep" in w))
        if "wr" in w:            # raw NMEA of the first WinRiver
            s = b"$GPGGA,1,2,3*0"
            L.append(u16(8449) + u16(len(s) + 2) + s)
        if "end" in w:           # an unknown block at the very end
            L.append(u16(0x6666) + bytes([self.r.randint(0, 255) for _ in range(9)]))
        return L

    def ens(self, kind="full", cells=None):
        return self.wrap(self.blocks(kind, cells), 3 if "gap" in kind.split("+") else 0)

    def junk(self, n=7):
        return bytes([self.r.choice([0, 1, 0x7F, 0x80, 0x79, 3]) for _ in range(n)]) + b"\x00"
