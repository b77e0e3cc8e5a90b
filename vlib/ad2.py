"""Writes AD2CP (Nortek Signature) files.  Only a generator: what the bytes mean is
decided by specs/Ad2.tla."""
import struct
from vlib.nrt import u16, f32

BURST, AVG, BT, B5, RAW, ECHO, RAWAVG = 21, 22, 23, 24, 26, 28, 31
IDS = {"burst": BURST, "avg": AVG, "bt": BT, "b5": B5, "raw": RAW, "echo": ECHO, "rawavg": RAWAVG, "btrec": 27, "alt": 30, "rawecho": 35, "str": 160, "odd": 99}


def u32(x):
    return struct.pack("<I", x & 0xFFFFFFFF)


def csum(b):
    s = 0xb58c + sum(struct.unpack("<%dH" % (len(b) // 2), b[:len(b) // 2 * 2]))
    if len(b) % 2:
        s += b[-1] << 8
    return s & 0xFFFF


def rec(id, body, fam=16):
    h = bytes([0xA5, 10, id, fam]) + u16(len(body)) + u16(csum(body))
    return h + u16(csum(h)) + body


class Gen:
    def __init__(self, rng, **opt):
        self.r, self.opt = rng, opt
        r = rng
        o = opt.get
        self.nb = o("beams", 4)
        self.nc = {k: o("cells_" + k, o("cells", r.choice([1, 2, 3, 5]))) for k in ("burst", "avg", "b5", "echo")}
        self.nc["bt"] = r.choice([0, 7])
        self.flags = {k: o("flags_" + k, 0) for k in IDS}
        self.coord = o("coord", r.choice([0, 1, 2]))
        self.cfg = {k: dict(cell=r.choice([200, 500, 1000, 2000]), blank=r.choice([10, 50, 100]), ncorr=r.randint(1, 99), power=-r.randint(0, 20),
                            ambig=r.choice([1000, 5000, 30000]), scale=r.choice([-3, -3, -4, -2]), serial=r.randint(100000, 999999)) for k in IDS}
        s = self.cfg["burst"]["serial"]
        for k in IDS:
            self.cfg[k]["serial"] = s
        self.orient = o("orient", r.choice([4, 5, 7]))
        self.auto = o("auto", r.choice([0, 1, 3]))
        self.wake = r.choice([0, 1, 2, 3] if self.orient < 7 else [0, 1, 2])
        self.bits = {k: r.choice([0, 1]) for k in ("low", "cfg", "tel", "boost")}
        self.nsamp = o("nsamp", r.choice([1, 2, 5]))
        self.ens0 = o("ens0", r.choice([1, 1, 2, 700]))
        self.k = 0
        self.t0 = o("t0", (114, 11, 31, 23, 59, 58))
        self.dt = o("dt", r.choice([1, 2, 5]))          # tenths of a second
        self.sr = r.choice([1, 2, 4, 8])
        self.mi, self.ai = o("mi", r.choice([1, 2, 7, 60, 600, 3600])), r.choice([1, 30, 60])
        self.n = {k: 0 for k in IDS}
        self.matrix = [r.randint(-20000, 20000) / 1e4 for _ in range(self.nb * self.nb)]
        self.theta = r.choice([20, 25])
        self.hdg = o("heading", r.randint(0, 35999))
        self.idle = r.choice([0, 1]) << 15 | r.randint(0, 7)
        self.altst = r.randint(0, 127) | r.randint(0, 3) << 7
        self.pitch, self.roll = o("pitch", r.randint(-8000, 8000)), o("roll", r.randint(-17999, 18000))

    def header(self):
        s = ['ID,STR="Signature%d",SN=%d' % (self.r.choice([250, 500, 1000]), self.cfg["burst"]["serial"]),
             'GETPLAN,MIAVG=%d,AVG=1,DIAVG=0,SA=35.0,BURST=1,MIBURST=3600,DIBURST=0,SV=0,FN="data.ad2cp",SO=0' % self.mi,
             'GETAVG,NC=%d,CS=1.00,BD=0.50,CY="ENU",PL=-2.0,AI=%d,VR=2.50,DF=3,NPING=60,NB=4,CH=0,MUX=0,BW="NARROW"' % (self.nc["avg"], self.ai),
             'GETBURST,NC=%d,NB=%d,CS=1.00,BD=0.50,CY="BEAM",PL=0.0,SR=%d,NS=1024,VR=2.50,DF=3,NPING=1,CH=0,VR5=2.50' % (self.nc["burst"], self.nb, self.sr),
             'GETUSER,POFF=9.50,DECL=0.00,HX=0,HY=0,HZ=0']
        s += ['BEAMCFGLIST,BEAM=%d,THETA=%d.00,PHI=%.2f,FREQ=1000,BW=25,BRD=1,HWBEAM=%d,ZNOM=60.00,DIA=50.00' % (i + 1, self.theta, 90. * i, i + 1) for i in range(5)]
        n = self.nb
        for nm in ("GETXFAVG", "GETXFBURST"):
            s.append("%s,ROWS=%d,COLS=%d," % (nm, n, n) + ",".join("M%d%d=%.4f" % (i + 1, j + 1, self.matrix[i * n + j]) for i in range(n) for j in range(n)))
        return rec(160, b"\x10" + ("\r\n".join(s) + "\r\n").encode() + b"\x00")

    def clock(self, k):
        y, mo, d, h, mi, s = self.t0
        u = k * self.dt
        s, u = s + u // 10, u % 10
        mi, s = mi + s // 60, s % 60
        h, mi = h + mi // 60, mi % 60
        d, h = d + h // 24, h % 24
        days = [31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo]
        if d > days:
            d, mo = d - days, mo + 1
        if mo > 11:
            mo, y = 0, y + 1
        return bytes([y, mo, d, h, mi, s]) + u16(u * 1000 + self.r.randint(0, 999))

    def common(self, k, ens, badtime=False):
        r, c = self.r, self.cfg[k]
        bt = k == "bt"
        n = self.nc.get(k, 0)
        cy = n if k == "echo" else n | self.coord << 10 | (1 if k in ("b5",) else self.nb) << 12
        if k in ("raw", "rawavg"):
            cy = 1 << 12 | self.coord << 10
        b = bytes([1 if bt else 3, 80 if bt else 76]) + u16(self.flags[k]) + u32(c["serial"])
        t = self.clock(ens - self.ens0)
        b += t if not badtime else bytes([t[0], t[1], t[2], t[3], 77, t[5]]) + t[6:]
        b += u16(r.choice([r.randint(14000, 16000), r.randint(0, 65535)])) + u16(r.randint(self.opt.get("tmin", -200), 3000)) + u32(r.randint(0, 1000000))
        self.hdg = self.opt["heading"] if "heading" in self.opt else (self.hdg + r.choice([-40, 3, 700])) % 36000
        b += u16((self.hdg + r.choice([-30, 0, 30])) % 36000) + u16(self.pitch + r.randint(-900, 900)) + u16((self.roll + r.randint(-900, 900) + 18000) % 36000 - 18000)
        b += u16(cy) + u16(c["cell"]) + u16(c["blank"]) + bytes([c["ncorr"], r.randint(0, 255)]) + u16(r.choice([r.randint(100, 200), r.randint(0, 65535)]))
        b += b"".join(u16(r.randint(-32768, 32767)) for _ in range(6))
        b += u32(c["ambig"]) if bt else u16(c["ambig"])
        b += u16(0x4321) + u16(r.randint(0, 999)) + struct.pack("<bb", c["scale"], c["power"]) + u16(r.randint(-300, 300)) + u16(r.randint(-200, 3000))
        st = self.wake << 28 | self.orient << 25 | self.auto << 22 | self.wake << 18 | self.bits["low"] << 17 | self.bits["cfg"] << 16
        st |= self.bits["tel"] << 11 | self.bits["boost"] << 10 | (0 if k == "echo" else 2)
        if bt:
            b += u32(r.randint(0, 9)) + u32(st) + u32(ens)
        else:
            b += u16(r.randint(0, 9)) + u16(self.idle) + u32(st) + u32(ens)
        return b

    def body(self, k, ens, badtime=False):
        r, f = self.r, self.flags[k]
        b = self.common(k, ens, badtime)
        bit = lambda i: f >> i & 1
        n = self.nc.get(k, 0)
        nb = 1 if k in ("b5", "raw", "rawavg") else self.nb
        ahrs = lambda: b"".join(f32(r.randint(-64, 64) / 64.) for _ in range(13)) + b"".join(f32(r.randint(-640, 640) / 64.) for _ in range(3))
        if k == "bt":
            nb = 4
            if bit(5):
                b += b"".join(u32(r.choice([r.randint(-30000, 30000), r.randint(-70000, 70000)])) for _ in range(nb))
            if bit(8):
                b += b"".join(u32(r.randint(0, 999999)) for _ in range(nb))
            if bit(9):
                b += b"".join(u16(r.randint(0, 65535)) for _ in range(nb))
            if bit(10):
                b += ahrs()
            return b
        if k == "echo":
            if bit(11):
                b += b"".join(u16(r.randint(0, 65535)) for _ in range(n))
            if bit(12):
                b += ahrs()
            return b
        if bit(5):
            b += b"".join(u16(r.randint(-32768, 32767)) for _ in range(nb * n))
        if bit(6):
            b += bytes([r.randint(0, 255) for _ in range(nb * n)])
        if bit(7):
            b += bytes([r.randint(0, 255) for _ in range(nb * n)])
        if bit(8):
            b += f32(r.randint(0, 6400) / 64.) + u16(r.randint(0, 65535)) + u16(self.altst)
        if bit(10):
            b += f32(r.randint(0, 6400) / 64.) + u16(r.randint(0, 65535)) + u16(r.randint(-30000, 30000)) + f32(r.randint(0, 6400) / 64.) + bytes(8)
        if bit(9):
            b += u32(self.nsamp) + u16(r.randint(1, 999)) + b"".join(u16(r.randint(0, 32767)) for _ in range(self.nsamp))
        if bit(12):
            b += ahrs()
        if bit(13):
            b += bytes([r.randint(0, 100) for _ in range(n)])
        if bit(14):
            b += b"".join(u16(r.randint(-32768, 32767)) for _ in range(4)) + bytes(24)
        return b

    def item(self, k):
        """k: stream name (of the ensemble at hand), '+' (next ensemble), 'str', 'odd' or 'stream!' (bad time)"""
        r = self.r
        if k == "+":
            self.k += 1
            return b""
        bad = k.endswith("!")
        k = k.rstrip("!")
        if k == "str":
            return rec(160, b"\x10a remark" + b"\x00")
        if k == "big":
            return rec(35, self.common("rawecho", self.ens0 + self.k) + bytes(33000 + 2 * r.randint(0, 99)))
        if k == "odd":
            return rec(99, bytes([r.choice([0, 0xA5, 10, 21, 200]) for _ in range(r.randint(1, 40))]))
        ens = self.ens0 + self.k
        if k in ("btrec", "alt", "rawecho"):
            return rec(IDS[k], self.common(k, ens) + bytes([r.randint(0, 255) for _ in range(8)]))
        return rec(IDS[k], self.body(k, ens, bad))

    def file(self, items):
        return self.header() + b"".join(self.item(k) for k in items)
