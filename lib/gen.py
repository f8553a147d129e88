"""Seeded generation of operation sequences. Only inputs come from here; the specification is the oracle."""
from schema import WIDTH, SCALARS


def varint(x, pad=0):
    b = []
    while x >= 128:
        b.append(128 | (x & 127))
        x >>= 7
    b.append(x)
    while pad > 0:
        b[-1] |= 128
        b.append(0)
        pad -= 1
    return bytes(b)


INTERESTING = [0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 65535, 65536, 1 << 20, (1 << 21) - 1, 1 << 21,
               (1 << 27), (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 35) - 1, 1 << 35,
               (1 << 42) - 1, 1 << 42, (1 << 49) - 1, 1 << 49, (1 << 56) - 1, 1 << 56, (1 << 62), (1 << 63) - 1, 1 << 63,
               (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - (1 << 31), (1 << 64) - (1 << 31) - 1]
FLOATS = ["00000000", "00000080", "0000803f", "000080bf", "0000c07f", "0100807f", "0000807f", "000080ff", "01000000", "ffff7f7f", "ffffffff", "00008000"]
DOUBLES = ["0000000000000000", "0000000000000080", "000000000000f03f", "000000000000f0bf", "000000000000f87f", "010000000000f07f",
           "000000000000f07f", "0100000000000000", "ffffffffffffffff", "0000000000001000"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    # -------------------------------------------------------------- values
    def scalar(self, k):
        r, w = self.r, WIDTH[k]
        if k == "bool":
            return bytes([r.randint(0, 1)])
        if k == "float" and r.random() < .6:
            return bytes.fromhex(r.choice(FLOATS))
        if k == "double" and r.random() < .6:
            return bytes.fromhex(r.choice(DOUBLES))
        c = r.random()
        if c < .12:
            x = 0
        elif c < .6:
            x = r.choice(INTERESTING)
        elif c < .75:
            x = (1 << 64) - r.choice(INTERESTING)
        elif c < .9:
            x = r.getrandbits(r.randint(1, 64))
        else:
            x = r.randint(0, 300)
        return (x % (1 << (8 * w))).to_bytes(w, "little")

    def content(self, cap, over=0.0, nonul=False):
        r = self.r
        n = r.choice([0, 1, cap, cap, r.randint(0, cap), max(0, cap - 1)])
        if r.random() < over:
            n = cap + r.choice([1, 1, 2, 7])
        if n > 60 and r.random() < .7:
            n = r.choice([n, r.randint(0, 20)])
        lo = 1 if nonul else 0
        return bytes(r.choice([lo, 65, 128, 255, r.randint(lo, 255)]) for _ in range(n))

    # ------------------------------------------------------------ encodings
    def tag(self, num, wt, loose=False):
        pad = self.r.randint(1, 3) if loose and self.r.random() < .15 else 0
        t = varint(num << 3 | wt)
        return varint(num << 3 | wt, min(pad, 5 - len(t)))

    def lenpfx(self, n, loose):
        b = varint(n)
        pad = min(self.r.randint(1, 3), 5 - len(b)) if loose and self.r.random() < .15 else 0
        return varint(n, pad)

    def enc_scalar(self, k, v, loose):
        if k in ("fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"):
            return v
        x = int.from_bytes(v, "little")
        w = 8 * WIDTH[k]
        if k in ("sint32", "sint64"):
            x = ((x << 1) ^ (-(x >> (w - 1)))) % (1 << w)
        lim = 5 if k == "uint32" else 10
        if loose and k in ("int32", "enum") and (x >> 31) and self.r.random() < .5:
            x |= 0xFFFFFFFF << 32         # the ten byte form of other implementations
        if loose and k == "bool" and self.r.random() < .3:
            x = self.r.choice([0, 1, 2, 128, 256, 1 << 63, 1 << 32])
        b = varint(x)
        pad = 0
        if loose and self.r.random() < .2:
            pad = min(self.r.randint(1, 9), lim - len(b))
        return varint(x, pad)

    def unknown(self, m):
        r = self.r
        known = {f.num for f in m.fields}
        near = [f.num + d for f in m.fields for d in (-1, 1, 16, 8)]
        while True:
            num = r.choice([r.randint(1, 40), 15, 16, 2047, 2048, 19, 536870911, 536870910, r.randint(1, 536870911)] + near)
            if 1 <= num <= 536870911 and num not in known:
                break
        wt = r.choice([0, 1, 2, 2, 5])
        if wt == 0:
            p = self.enc_scalar(r.choice(["uint64", "bool", "int64"]), self.scalar("uint64"), True)
        elif wt == 1:
            p = bytes(r.randint(0, 255) for _ in range(8))
        elif wt == 5:
            p = bytes(r.randint(0, 255) for _ in range(4))
        else:
            n = r.choice([0, 1, 2, 5, r.randint(0, 12), 127, 128, 200]) if r.random() < .4 else r.randint(0, 9)
            p = self.lenpfx(n, True) + bytes(r.choice([0, 8, 10, 128, 255, r.randint(0, 255)]) for _ in range(n))
        return self.tag(num, wt, True) + p

    def encode(self, m, loose=True, unk=0.0, depth=0, dens=.5, over=0.0, used=None):
        """A valid encoding (records in random order when loose); over: chance to exceed capacities."""
        r = self.r
        recs = []
        fields = [m.fields[i] for i in m.order()]
        big = len(fields) > 20
        for f in fields:
            if r.random() > (dens if not big else dens * .5):
                continue
            times = 1 if not loose or f.lab == "rep" else r.choice([1, 1, 1, 2, 3])
            if f.lab == "rep":
                total = r.choice([0, 1, f.rcap, r.randint(0, f.rcap)])
                total = min(total, 9)
                if r.random() < over:
                    total = f.rcap + 1 if f.rcap < 12 else total
                if f.packed:
                    parts = [total]
                    if loose and r.random() < .4:
                        a = r.randint(0, total)
                        parts = [a, total - a]
                    for n in parts:
                        if n == 0 and not loose:
                            continue
                        p = b"".join(self.enc_scalar(f.k, self.scalar(f.k), loose) for _ in range(n))
                        recs.append(self.tag(f.num, 2, loose) + self.lenpfx(len(p), loose) + p)
                else:
                    for _ in range(total):
                        recs.append(self.one(f, loose, unk, depth, over))
            else:
                for _ in range(times):
                    recs.append(self.one(f, loose, unk, depth, over))
        if loose and r.random() < .6:
            r.shuffle(recs)
        out = []
        for rec in recs:
            while r.random() < unk:
                out.append(self.unknown(m))
            out.append(rec)
        while r.random() < unk:
            out.append(self.unknown(m))
        return b"".join(out)

    def one(self, f, loose, unk, depth, over):
        if f.k == "msg":
            p = self.encode(f.msg, loose, unk, depth + 1, .5 if depth < 1 else .3, over)
            return self.tag(f.num, 2, loose) + self.lenpfx(len(p), loose) + p
        if f.k in ("string", "bytes"):
            p = self.content(f.cap, over)
            return self.tag(f.num, 2, loose) + self.lenpfx(len(p), loose) + p
        wt = 5 if f.k in ("fixed32", "sfixed32", "float") else 1 if f.k in ("fixed64", "sfixed64", "double") else 0
        return self.tag(f.num, wt, loose) + self.enc_scalar(f.k, self.scalar(f.k), loose)

    def mutate(self, b, m):
        """Damage an encoding."""
        r = self.r
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = r.random()
            if c < .3 and b:
                del b[r.randrange(len(b)):]
            elif c < .5 and b:
                b[r.randrange(len(b))] = r.choice([0, 1, 127, 128, 255, r.randint(0, 255)])
            elif c < .6 and b:
                i = r.randrange(len(b))
                b[i] ^= 1 << r.randint(0, 7)
            elif c < .7:
                i = r.randint(0, len(b))
                b[i:i] = bytes(r.choice([0, 128, 255, r.randint(0, 255)]) for _ in range(r.randint(1, 4)))
            elif c < .78 and b:
                i = r.randrange(len(b))
                del b[i:i + r.randint(1, 3)]
            elif c < .86 and m.fields:
                f = r.choice(m.fields)          # a known field with another wire type, or a bad length
                i = r.choice([0, len(b)])
                b[i:i] = self.tag(f.num, r.randint(0, 7)) + bytes(r.choice([0, 1, 2, 5, 255, 128]) for _ in range(r.randint(0, 10)))
            elif c < .92 and m.fields:
                f = r.choice(m.fields)
                n = r.choice([1, 5, 100, 127, 128, 1 << 14, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - r.randint(2, 12)])
                b += self.tag(f.num, 2) + varint(n) + bytes(r.randint(0, 255) for _ in range(r.randint(0, 6)))
            elif c < .96:
                b += bytes([r.choice([0x80, 0xFF])]) * r.randint(1, 11) + bytes([r.randint(0, 255)])
            else:
                b += r.choice([b"\x00\x01", b"\x06", b"\x07\x01", b"\x02\x01\x01", self.tag(r.randint(1, 9), r.choice([3, 4, 6, 7]))])
        return bytes(b)

    def noise(self, n=None):
        r = self.r
        n = r.randint(0, 24) if n is None else n
        pool = [0, 1, 2, 8, 9, 10, 13, 16, 18, 26, 34, 127, 128, 255]
        return bytes(r.choice(pool) if r.random() < .7 else r.randint(0, 255) for _ in range(n))


class Ops:
    """Builds one trace: list of (command line for the driver, event record without observations)."""
    def __init__(self, gen, schema, base, types):
        self.g, self.r, self.s, self.base = gen, gen.r, schema, base
        self.types = types              # message of each slot
        self.cmds, self.evs = [], []
        self.lim = 4096                 # serialize gets buffers of at most this size

    def _ev(self, cmd, **ev):
        self.cmds.append(cmd)
        self.evs.append(ev)

    def head(self):
        return "T " + " ".join(str(self.base + t.idx - 1) for t in self.types)

    # ---- whole message operations
    def plain(self, o, s, src=0):
        cmd = "%s %d" % (o, s) + (" %d" % src if o in ("cpy", "mov", "asg", "masg") else "")
        self._ev(cmd, o=o, s=s, src=src)

    def ser(self, s, cap=4096, kind=0, refuse=-1, pers=0):
        """cap: free bytes, or "@d": the size of the message plus d."""
        self._ev("ser %d %d %s %d %d" % (s, kind, cap, refuse, pers), o="ser", s=s, cap=cap, flt=(refuse >= 0))

    def des(self, s, data, kind=None, eq=0):
        r = self.r
        kind = r.choice([0, 1, 2, 3, 4, 5]) if kind is None else kind
        a, b = (r.randint(0, 5), r.choice([0, 1, 4, 9])) if kind >= 4 else (0, 0)
        if data == "=":
            self._ev("des %d %d %d %d =" % (s, kind, a, b), o="des", s=s, d=None, eq=eq, lim=self.lim)
        else:
            self._ev("des %d %d %d %d %s" % (s, kind, a, b, data.hex() or "."), o="des", s=s, d=list(data), eq=eq, lim=self.lim)

    def roundtrip(self, s, src, fresh=True):
        if fresh:
            self.plain(self.r.choice(["new", "clear"]), s)
        self.ser(src)
        self.des(s, "=", eq=src if fresh else 0)

    def txt(self, s, views=()):
        """Text output; views: sizes of small views, negative ones and None count from the length of the text."""
        self._ev("txt %d %s" % (s, " ".join(str(v) for v in views)), o="txt", s=s)

    # ---- field operations
    def fop(self, o, s, path, f, vals=(), src=0, var=0, idx=0):
        pt = ",".join("%d:%d" % tuple(p) if len(p) > 1 else "%d" % p[0] for p in path) or "-"
        cmd = "%s %d %s %d %d %d %d %d %s" % (o, s, pt, f, src, var, idx, len(vals), " ".join(v.hex() or "." for v in vals))
        self._ev(cmd, o=o, s=s, p=[[p[0]] + [min(x, 2147483647) for x in p[1:]] for p in path], f=f, src=src, w=var,
                 i=min(idx, 2147483647), v=[list(v) for v in vals])

    def index(self, cap):
        r = self.r
        return r.choice([0, 1, cap - 1, r.randint(0, cap), r.randint(0, cap), cap, cap + 1, 4294967295, 2147483648])

    def walk(self, m, maxd=3, want=None):
        """A random path to a nested message: (path, message)."""
        r, path = self.r, []
        while len(path) < maxd:
            subs = [(i + 1, f) for i, f in enumerate(m.fields) if f.k == "msg"]
            if not subs or r.random() < .35:
                break
            i, f = r.choice(subs)
            path.append([i, self.index(f.rcap)] if f.lab == "rep" else [i])
            m = f.msg
        return path, m

    def field_op(self, s, fsel=None):
        """One random operation on a field somewhere in slot s."""
        r, g = self.r, self.g
        path, m = self.walk(self.types[s - 1])
        if not m.fields:
            return False
        cand = [i for i, f in enumerate(m.fields) if fsel is None or fsel(f)]
        if not cand:
            cand = range(len(m.fields))
        i = r.choice(list(cand))
        f = m.fields[i]
        i += 1
        srcs = [j + 1 for j, t in enumerate(self.types) if t is f.msg and j + 1 != s] if f.k == "msg" else []
        if r.random() < .12:
            self.fop("clr", s, path, i)
            return True
        if r.random() < .04:
            self.fop("self", s, path, i, var=r.randint(0, 1))
            return True
        if f.lab == "rep":
            ch = ["add", "add", "add", "seti", "muti", "sdata", "rclr", "rset", "rget", "radd", "getc", "mut"]
            same = [j + 1 for j, t in enumerate(self.types) if t is m]
            if same and not path:
                ch += ["asgf", "asgf"]
            if f.rcap > 1:
                ch.append("xcpy")
            o = r.choice(ch)
            if o == "asgf":
                self.fop(o, s, path, i, src=r.choice(same))
            elif o in ("rclr", "mut"):
                self.fop(o, s, path, i)
            elif o == "getc":
                self.fop(o, s, path, i, idx=self.index(f.rcap))
            elif f.k == "msg":
                if not srcs:
                    return False
                idx = r.choice([0, 1, f.rcap, f.rcap + 1]) if o == "sdata" else r.choice([0, 1, f.rcap - 1]) if o == "xcpy" else self.index(f.rcap)
                self.fop(o, s, path, i, src=r.choice(srcs), var=r.randint(0, 1), idx=idx)
            elif o in ("sdata", "xcpy"):
                n = r.choice([0, 1, f.rcap, r.randint(0, f.rcap), f.rcap + 1]) if o == "sdata" else r.choice([1, f.rcap - 1, f.rcap - 1, r.randint(0, f.rcap - 1)])
                n = min(n, 12) if f.rcap > 20 else n
                self.fop(o, s, path, i, vals=[self.value(f) for _ in range(n)], var=r.randint(0, 1) if o == "xcpy" else 0, idx=n)
            else:
                idx = self.index(f.rcap) if f.rcap <= 20 else r.choice([0, 1, 2, 5])
                self.fop(o, s, path, i, vals=[self.value(f)], var=r.randint(0, 1), idx=idx)
        elif f.k == "msg":
            o = r.choice(["mut", "mclr", "set", "mset"])
            if o in ("set", "mset"):
                if not srcs:
                    return False
                self.fop(o, s, path, i, src=r.choice(srcs), var=r.randint(0, 1))
            else:
                self.fop(o, s, path, i)
        elif f.k in ("string", "bytes"):
            ch = ["set", "set", "sset", "sset", "sidx", "sclr", "mut", "sasg"] + (["scstr", "scstr", "snull"] if f.k == "string" else [])
            o = r.choice(ch)
            if o == "set":
                self.fop(o, s, path, i, vals=[g.content(f.cap)])
            elif o == "sset":
                self.fop(o, s, path, i, vals=[g.content(f.cap, .2)])
            elif o == "sasg":
                var = r.randint(0, 1)
                self.fop(o, s, path, i, vals=[g.content(min(f.cap, 60), .2)[:64] if var else g.content(1)], var=var)
            elif o == "scstr":
                self.fop(o, s, path, i, vals=[g.content(f.cap, .2, nonul=True)], var=r.randint(0, 1))
            elif o == "sidx":
                idx = self.index(f.cap) if f.cap < 64 else r.randint(0, 12)
                self.fop(o, s, path, i, vals=[bytes([r.randint(0, 255)])], idx=idx, var=r.randint(0, 1))
            else:
                self.fop(o, s, path, i, var=r.randint(0, 1) if o == "snull" else 0)
        else:
            o = "set"
            if not f.oo and f.k != "enum":
                o = r.choice(["set", "set", "mset", "mut"])
            self.fop(o, s, path, i, vals=[g.scalar(f.k)] if o != "mut" else [], var=r.randint(0, 1))
        return True

    def value(self, f):
        return self.g.content(f.cap) if f.k in ("string", "bytes") else self.g.scalar(f.k)
