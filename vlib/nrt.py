"""Writes classic Nortek files (Vector, AWAC, Vectrino).  Only a generator: what the
bytes mean is decided by specs/Nrt.tla."""
import struct


def u16(x):
    return struct.pack("<H", x & 0xFFFF)


def f32(x):
    return struct.pack("<f", x)


def bcd(x):
    return (x // 10) << 4 | x % 10


def close(b):
    """append the checksum"""
    assert len(b) % 2 == 0, len(b)
    s = 0xb58c + sum(struct.unpack("<%dH" % (len(b) // 2), b))
    return b + u16(s)


def opt_text(t, n):
    return (t + bytes(n))[:n]


def rec(id, body):
    n = (len(body) + 6) // 2
    return close(b"\xa5" + bytes([id]) + u16(n) + body)


class Gen:
    def __init__(self, rng, model="VEC", **opt):
        self.r, self.model, self.opt = rng, model, opt
        r = rng
        self.nb = opt.get("cells", 2)
        self.avg = opt.get("avg", {"VEC": 128, "WPR": 60, "VNO": 2000}[model])
        self.n_burst = opt.get("n_burst", 0)
        self.t = opt.get("t0", (14, 12, 31, 23, 59, 50))
        self.samples = 0
        self.count = 0
        self.heading = opt.get("heading", 3585)
        self.down = r.choice([0, 1])
        self.ahrs = opt.get("ahrs", 204)
        self.nchk = r.choice([2, 4])
        self.u = dict(timctrl=r.choice([0, 2, 4, 6]) | r.choice([0, 32, 64, 96]) | r.choice([0, 128]) | r.choice([0, 256]) | r.choice([0, 512]),
                      coord=opt.get("coord", r.choice([0, 1, 2])), mode0=opt.get("mode0", r.choice([0, 16])) | r.randint(0, 511) & ~16, test=r.randint(0, 3),
                      binlen=r.choice([1285, 2570, 640, 5000]), blank=r.choice([22, 50, 100, 217]), npb=r.randint(0, 4096),
                      comp=r.choice([r.randint(1, 600), r.randint(1, 65535)]), burst_int=r.choice([60, 90, 600, 1805, 3600]), ana=r.randint(0, 5), sw=r.choice([13902, 13612]),
                      sal=r.randint(0, 400))
        self.freq = r.choice([2000, 1000, 600, 400]) if model == "WPR" else 6000
        self.mat = [r.randint(-12000, 12000) for _ in range(16)]

    def config(self):
        r = self.r
        nbeams = 4 if self.model == "VNO" else 3
        sn = {"VEC": b"VEC 4912", "WPR": b"WPR 2233", "VNO": b"VNO 0123"}[self.model]
        hw = sn + bytes([17, 0]) + b"4.14" + u16(r.randint(0, 9)) + u16(4000) + u16(r.randint(0, 999)) + u16(r.randint(0, 999)) + u16(r.randint(0, 500))
        hw += u16(r.choice([0, 1])) + bytes(12) + b"3.36"
        hw = rec(5, hw)
        assert len(hw) == 48
        n = nbeams
        head = u16(r.randint(0, 7)) + u16(self.freq) + u16(1) + b"HEAD 123\x00\x00\x00\x00"
        head += (bytes(8) + b"".join(u16(x) for x in self.mat[:n * n]) + bytes(200))[:176] + bytes(22) + u16(nbeams)
        head = rec(4, head)
        assert len(head) == 224
        u = self.u
        w = [0] * 18
        w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8] = 5, u["blank"], 7, 8, 9, u["npb"], self.avg, nbeams, u["timctrl"]
        w[13], w[14], w[15], w[16], w[17] = u["comp"], u["coord"], self.nb, u["binlen"], u["burst_int"]
        b = b"".join(u16(x) for x in w) + (opt_text(self.opt.get("name", r.choice([b"DEP1", b"", b"SIXCHR", b"\xd8re"])), 6)) + u16(r.choice([0, 1])) + bytes(6) + bytes(4)
        b += u16(u["mode0"]) + bytes(8) + u16(u["test"]) + u16(u["ana"]) + u16(u["sw"]) + u16(u["sal"]) + bytes(180)
        b += opt_text(self.opt.get("comments", r.choice([b"a comment", b"", b"depth 12 m, facing N", b"Troms\xf8, -3\xb0", "Gjør".encode()])), 80) + bytes(48) + u16(r.randint(0, 4)) + bytes(50)
        b += u16(r.randint(0, 7)) + u16(r.choice([0, 327, 328, 16384, 32766, 32767])) + u16(r.randint(0, 999)) + u16(r.randint(0, 999)) + u16(r.randint(0, 4000)) + u16(r.randint(0, 4096)) + bytes(4) + u16(self.n_burst) + bytes(2)
        b += bytes(4) + bytes(2) + bytes(2) + bytes(30) + bytes(16)
        b = rec(0, b)
        assert len(b) == 512, len(b)
        return hw + head + b

    def clock(self, dt=None):
        """minute, second, day, hour, year, month in BCD at the current sample"""
        y, mo, d, h, mi, s = self.t
        s += int(dt if dt is not None else 0)
        mi, s = mi + s // 60, s % 60
        h, mi = h + mi // 60, mi % 60
        d, h = d + h // 24, h % 24
        if d > 31:
            d, mo = d - 31, mo + 1
        if mo > 12:
            mo, y = 1, y + 1
        return bytes([bcd(mi), bcd(s), bcd(d), bcd(h), bcd(y), bcd(mo)])

    # Vector
    def v(self):
        r = self.r
        self.samples += 1
        self.count += 1
        b = b"\xa5\x10" + bytes([r.randint(0, 255), self.count % 256, r.choice([0, 0, 1, 3]), r.randint(0, 255)]) + u16(r.randint(0, 65535)) + u16(r.randint(0, 65535))
        b += b"".join(u16(r.randint(-32768, 32767)) for _ in range(3)) + bytes([r.randint(0, 255) for _ in range(6)])
        return close(b)

    def sys(self, late=0):
        r = self.r
        self.heading = (self.heading + r.choice([-40, 3, 17, 30])) % 3600
        if r.random() < .25:
            self.down ^= 1
        # a burst starts some time after the end of the one before
        nburst = self.n_burst or 10 ** 9
        dt = self.samples * self.avg / 512. + (self.samples // nburst) * 30
        b = self.clock(dt) + u16(r.choice([r.randint(90, 150), r.randint(0, 65535)])) + u16(r.choice([r.randint(14000, 16000), r.randint(0, 65535)])) + u16(self.heading) + u16(r.randint(-900, 900))
        b += u16(r.randint(-1800, 1800)) + u16(r.randint(-200, 3000)) + bytes([r.randint(0, 255), r.randint(0, 127) * 2 + self.down]) + u16(r.randint(0, 65535))
        return rec(0x11, b)

    def imu(self, id=None):
        r = self.r
        id = self.ahrs if id is None else id
        n = {195: 15, 204: 18, 211: 9}.get(id, 9)
        b = bytes([self.count % 256, id]) + b"".join(f32(r.randint(-640, 640) / 64.) for _ in range(n))
        b += bytes([r.randint(0, 255) for _ in range(4 if id == 195 else 6)])
        return rec(0x71, b)

    def hdr(self):
        r = self.r
        spare = [bytes([r.choice([0, 0, 33, 200, 255])]) for _ in range(2)] + [bytes(20) if r.random() < .5 else bytes(r.randint(0, 255) for _ in range(20))]
        return rec(0x12, self.clock() + u16(r.randint(0, 999)) + bytes([r.randint(0, 255) for _ in range(3)]) + spare[0] +
                   bytes([r.randint(0, 255) for _ in range(3)]) + spare[1] + spare[2])

    def chk(self):
        r = self.r
        n = self.nchk
        k = 4 if self.model == "VNO" else 3
        return rec(7, u16(n) + u16(0) + (bytes(6) if self.model == "VNO" else b"") + bytes([r.randint(0, 255) for _ in range(k * n)]))

    def unk(self, id=0x44):
        r = self.r
        return rec(id, bytes([r.choice([0, 1, 0xA5, 0x10, 0x11, 200]) for _ in range(2 * r.randint(1, 9))]))

    # AWAC
    def prof(self):
        r = self.r
        k = self.samples
        self.samples += 1
        b = self.clock(k * self.avg) + u16(r.randint(0, 65535)) + u16(r.randint(0, 65535)) + u16(r.randint(90, 150)) + u16(r.randint(14000, 16000))
        b += u16(r.randint(0, 3599)) + u16(r.randint(-900, 900)) + u16(r.randint(-900, 900)) + bytes([r.choice([0, 1, 2, 7]), r.randint(0, 255)])
        b += u16(r.randint(0, 65535)) + u16(r.randint(-200, 3000)) + bytes(88)
        b += b"".join(u16(r.randint(-32768, 32767)) for _ in range(3 * self.nb)) + bytes([r.randint(0, 255) for _ in range(3 * self.nb)])
        return rec(0x20, b)

    def wave(self):
        r = self.r
        return rec(0x30, bytes([r.randint(0, 255) for _ in range(18)]))

    def suv(self):
        return rec(0x36, bytes([self.r.randint(0, 255) for _ in range(18)]))

    def wavehdr(self):
        return rec(0x31, self.clock() + bytes(48))

    # Vectrino
    def event(self):
        return rec(0x0F, self.clock() + bytes([self.r.randint(0, 255) for _ in range(14)]))

    def vnohdr(self):
        return rec(0x50, bytes([self.r.randint(0, 255) for _ in range(36)]))

    def vd(self):
        r = self.r
        self.count += 1
        b = b"\xa5\x51" + bytes([r.randint(0, 255), self.count % 256]) + b"".join(u16(r.randint(-32768, 32767)) for _ in range(4))
        return close(b + bytes([r.randint(0, 255) for _ in range(8)]))

    def item(self, k):
        if k == "imux":
            return self.imu(210)
        return getattr(self, k)()

    def file(self, items):
        return self.config() + b"".join(self.item(k) for k in items)
