"""Campaigns on message objects: traces are executed by the driver and validated by TLC against spec/TraceObjects."""
import random
import gen, mini, run, schema as sch
from gen import varint
from schema import SCALARS

ALL = {"agree", "alloc", "wellformed", "ser.size", "ser.pure", "ser.refused", "ser.cap", "ser.bytes", "ser.prefix", "des.others", "des.known",
       "roundtrip", "des.reject", "des.code", "des.oneof", "des.accept", "des.value", "op.result", "op.value", "txt.text", "txt.rest", "txt.view"}


class Camp:
    """Collects traces for a list of schemas, runs and validates them."""
    def __init__(self, ctx, fixed=None, nrandom=1, rand=None, opt=None, huge=False, std="c++14", defs=(), small=False, crowd=False):
        self.ctx = ctx
        self.g = gen.Gen(ctx.rng)
        self.schemas = []
        if fixed is None or fixed:
            self.schemas.append(sch.fixed_schema(fixed))
        for i in range(nrandom):
            r = random.Random("%s/%d/%d" % (ctx.id, ctx.seed, i))
            self.schemas.append((rand or sch.random_schema)(r, "vp.r%d" % i))
        self.huge = sch.huge_schema() if huge else None
        self.main = list(self.schemas)
        if huge:
            self.schemas.append(self.huge)
        self.crowd = sch.crowd_schema() if crowd else None
        if crowd:
            self.schemas.append(self.crowd)
        self.mini = None
        if small:
            self.mini = mini.mini_schema()
            self.schemas.append(self.mini)
        self.drv = run.Driver(ctx.work, self.schemas, opt=opt or ("-O1" if ctx.thorough else "-O0"), std=std, defs=defs)
        self.traces = {id(s): [] for s in self.schemas}

    def ops(self, s, types):
        return gen.Ops(self.g, s, self.drv.base(s), types)

    def add(self, o, note=""):
        if o.cmds:
            l = self.traces[id(o.s)]
            l.append(run.Trace(len(l) + 1, o, note))

    def slots(self, s, m):
        """Slot types: twice the message and one of its sub-messages (or any message)."""
        subs = [f.msg for f in m.fields if f.k == "msg"]
        return [m, m, self.ctx.rng.choice(subs or s.msgs)]

    def finish(self, judge, findings=False):
        ctx = self.ctx
        jobs = []
        for s in self.schemas:
            trs = self.traces[id(s)]
            if not trs:
                continue
            self.drv.run(trs)
            crashed = [t for t in trs if t.crash]
            for t in crashed[:3]:
                again = run.Trace(t.id, _Re(t))
                self.drv._run([again])
                if again.crash or "exit 98" not in t.crash:
                    ctx.violate("the code under test died: " + t.crash, dict(schema=s.proto(), driver_input=t.text()))
            ctx.count("events", sum(len(t.cmds) for t in trs))
            for t in ctx.rng.sample(trs, min(1, len(trs))):
                if t.out:
                    ctx.sample(dict(schema=s.name, types=[m.name for m in t.types], ops=t.cmds[:6], observed=[str(o)[:200] for o in t.out[:3]]))
            jobs.append((s, trs))
        for s, r in run.validate_all(ctx.work, jobs, judge):
            ctx.states += r["states"]
            ctx.transitions += r["transitions"]
            ctx.traces += r["done"]
            if r["other"]:
                ctx.count("events_violating_clauses_of_other_properties", r["other"])
            for t, l, clauses, why in r["rejects"]:
                ctx.violate("event %d (%s) violates %s; specification: %s" % (l, t.cmds[l - 1][:300], clauses, why[:600]),
                            dict(schema=s.proto(), driver_input=t.text(), event=l, clauses=clauses, expected=why, observed=t.out[l - 1]))
            if findings:
                for f in r["findings"]:
                    for key in ("trunc_tag", "trunc_unknown"):
                        if '"%s"' % key in f:
                            ctx.finding(key, FINDINGS[key])


class _Re:
    def __init__(self, t):
        self.s, self.types, self.cmds, self.evs, self._h = t.schema, t.types, t.cmds, t.evs, t.head

    def head(self):
        return self._h


FINDINGS = dict(trunc_tag="a tag cut short by the end of the message is accepted as its end, e.g. 08 05 80",
                trunc_unknown="an unknown length delimited field running over the end of the message is accepted, e.g. a2 06 05 61 62")


# ------------------------------------------------------------------------------------------ building blocks
def fill(c, o, s, n, fsel=None):
    """n random field operations on slot s."""
    k = tries = 0
    while k < n and tries < 4 * n:
        tries += 1
        if o.field_op(s, fsel):
            k += 1


def populate(c, o, s):
    """Give slot s some value, through the API or by decoding."""
    r = c.ctx.rng
    x = r.random()
    if x < .55:
        fill(c, o, s, r.randint(1, 8))
    elif x < .9:
        o.des(s, c.g.encode(o.types[s - 1], True, 0, dens=r.choice([.3, .7, 1])))
        fill(c, o, s, r.randint(0, 2))


def pick(c, s):
    r = c.ctx.rng
    ms = [m for m in s.msgs if m.fields] if r.random() < .97 else s.msgs
    return r.choice(ms)


def each(c, n):
    """Yield n schemas in turn, two thirds of the traces on the fixed schema when there is one."""
    for i in range(n):
        if len(c.main) == 1 or i % 3 != 2:
            yield c.main[0]
        else:
            yield c.main[1 + (i // 3) % (len(c.main) - 1)]


def scalar_values(k):
    """The boundary values of a scalar kind."""
    w = sch.WIDTH[k]
    if k == "bool":
        return [b"\0", b"\1"]
    if k == "float":
        return [bytes.fromhex(x) for x in gen.FLOATS]
    if k == "double":
        return [bytes.fromhex(x) for x in gen.DOUBLES]
    vals = set()
    for x in gen.INTERESTING:
        for y in (x, x - 1, -x, -x - 1, -x + 1):
            vals.add(y % (1 << 8 * w))
    for i in range(0, 8 * w):
        vals.add(1 << i)
        vals.add((1 << i) - 1)
        vals.add((-(1 << i)) % (1 << 8 * w))
    return [v.to_bytes(w, "little") for v in sorted(vals)]


def sweep(c, names, fn, per=12, most=24):
    """fn(o, message, field index, value) for boundary values of all scalar fields of messages of the fixed schema, a few per trace."""
    s = c.schemas[0]
    for m in s.msgs:
        if m.name not in names:
            continue
        for i, f in enumerate(m.fields):
            if f.k not in SCALARS:
                continue
            vals = scalar_values(f.k)
            c.ctx.rng.shuffle(vals)
            if not c.ctx.thorough:
                vals = vals[:most]
            for k in range(0, len(vals), per):
                o = c.ops(s, [m, m])
                for v in vals[k:k + per]:
                    fn(o, m, i, v)
                c.add(o)


def set_scalar(o, s, f, i, v, r):
    if f.lab == "rep":
        o.fop(r.choice(["add", "radd"]), s, [], i + 1, vals=[v], var=1)
    elif not f.oo and f.k != "enum" and r.random() < .4:
        o.fop("mset", s, [], i + 1, vals=[v])
    else:
        o.fop("set", s, [], i + 1, vals=[v], var=r.randint(0, 1))


def huge(c, what):
    """Values of which lengths and counts need two or three bytes. what: "ser", "des" or "cap"."""
    r, s = c.ctx.rng, c.huge
    m, hs, hp, hw = s.msgs[:4]

    def blob(n, nonul=False):
        return bytes(r.randint(1 if nonul else 0, 255) for _ in range(n))

    def done(o, src, dst):
        if what == "cap":
            for d in (0, -1, -2):
                o.ser(src, cap="@%d" % d, kind=2)
        else:
            o.ser(src, cap="@%d" % r.choice([0, 1]), kind=2)
            o.plain("clear", dst)
            o.des(dst, "=", kind=2, eq=src)
        c.add(o)

    def new(types):
        o = c.ops(s, types)
        o.lim = 200000
        return o
    for n in r.sample([127, 128, 254, 255, 256, 257, 299], 4) + [300, r.choice([16383, 16384, 16387, 16999]), 17000]:
        o = new([hs, hs])
        o.fop("sset", 1, [], 1, vals=[blob(n)])
        o.fop("sset", 1, [], 2, vals=[blob(min(n, 300), True)])
        o.fop("set", 1, [], 3, vals=[b"\7\0\0\0"])
        done(o, 1, 2)
    o = new([hw, hw])
    o.fop("sset", 1, [], 1, vals=[blob(65536)])
    for i in range(130):
        o.fop("seti", 1, [], 2, vals=[varint(0)[:0] + bytes([i, 0, 0, 255])], idx=i) if i in (0, 127, 128, 129) else None
    done(o, 1, 2)
    for n in (r.choice([255, 256, 257]), 2048, 2100):
        o = new([hp, hp])
        vals = [blob(8) for _ in range(n)]
        o.fop("sdata", 1, [], 1, vals=vals, idx=n)
        k = min(n, r.choice([128, 255, 256, 257, 300]))
        o.fop("sdata", 1, [], 2, vals=[bytes([i % 2]) for i in range(k)], idx=k)
        o.fop("set", 1, [], 3, vals=[b"\1\0\0\0"])
        done(o, 1, 2)
    for n in (r.choice([120, 128, 250, 256]), 16384):
        o = new([m, m, hs])
        o.fop("sset", 3, [], 1, vals=[blob(n)])
        o.fop("add", 1, [], 1, src=3, var=1)
        o.fop("set", 1, [], 2, src=3)
        o.fop("set", 1, [], 3, src=3)
        o.fop("add", 1, [], 1, src=3, var=1)
        done(o, 1, 2)
    o = new([m, m])
    for n in (270, 269, 127, 128, 0, 256):
        o.fop("add", 1, [], 6, vals=[blob(n)], var=1)
    o.fop("sset", 1, [], 5, vals=[blob(300)])
    o.fop("sset", 1, [], 5, vals=[blob(301)])
    o.fop("seti", 1, [], 6, vals=[blob(2)], idx=257)
    done(o, 1, 2)


def wide(c, what):
    """Lengths, counts and indices of more than 16 bits. what: a set of "wire", "cap", "index", "string", "copy", "text"."""
    r, s = c.ctx.rng, c.huge
    hb, hq, hv, hg, hn = s.msgs[4:]
    n1 = r.choice([65535, 65536, 65537, 65600])

    def new(types):
        o = c.ops(s, types)
        o.lim = 200000
        return o

    def text(n):
        return bytes(r.randint(1, 255) for _ in range(n))

    def bools(o, n):
        x = [bytes([r.randint(0, 1)]) for _ in range(97)]
        o.fop("sdata", 1, [], 1, vals=[x[i % 97] for i in range(n)], idx=n)
        o.fop("set", 1, [], 2, vals=[b"\1\0\0\0"])

    def out(o, n=1):
        if "cap" in what:
            for d in (0, -1)[:1 + n]:
                o.ser(1, cap="@%d" % d, kind=2)
        if "wire" in what:
            o.ser(1, cap="@%d" % r.choice([0, 1]), kind=2)
            o.plain("clear", 2)
            o.des(2, "=", kind=2, eq=1)
        if "copy" in what:
            o.plain(r.choice(["cpy", "mov", "asg", "masg"]), 2, 1)
        c.add(o)
    if what & {"wire", "cap", "copy"}:
        o = new([hb, hb])
        bools(o, n1)
        out(o)
        o = new([hq, hq])
        n = r.choice([8191, 8192, 8200])
        x = [bytes(r.randint(0, 255) for _ in range(8)) for _ in range(31)]
        o.fop("sdata", 1, [], 1, vals=[x[i % 31] for i in range(n)], idx=n)
        o.fop("set", 1, [], 2, vals=[b"\1\0\0\0"])
        out(o)
        for t, path in ((hv, []), (hg, [[1]]), (hg, [[3, r.randint(0, 1)]])):
            o = new([t, t])
            o.fop("sset", 1, path, 1, vals=[text(n1)])
            o.fop("set", 1, [], 2, vals=[b"\1\0\0\0"])
            out(o)
    if "cap" in what:
        o = new([hn])
        x = [text(r.randint(250, 300)) for _ in range(9)]
        o.fop("sdata", 1, [], 1, vals=[x[i % 9] for i in range(260)], idx=260)
        o.fop("set", 1, [], 2, vals=[b"\1\0\0\0"])
        o.ser(1, cap="@0", kind=2)
        o.ser(1, cap="@-1", kind=2)
        c.add(o)
    if "index" in what:
        o = new([hb])
        o.fop("seti", 1, [], 1, vals=[b"\1"], idx=65536)
        o.fop("getc", 1, [], 1, idx=65536)
        o.fop("getc", 1, [], 1, idx=65537)
        o.fop("add", 1, [], 1, vals=[b"\1"], var=1)
        o.fop("muti", 1, [], 1, vals=[b"\1"], idx=65999)
        o.fop("radd", 1, [], 1, vals=[b"\1"])
        c.add(o)
        o = new([hb])
        bools(o, 66000)
        o.fop("sdata", 1, [], 1, vals=[b"\1"] * 66001, idx=66001)
        o.fop("add", 1, [], 1, vals=[b"\1"], var=1)
        o.fop("seti", 1, [], 1, vals=[b"\0"], idx=131072)
        bools(o, 65540)
        o.fop("seti", 1, [], 1, vals=[b"\0"], idx=65545)
        c.add(o)
    if "string" in what:
        o = new([hv])
        o.fop("sidx", 1, [], 1, vals=[b"x"], idx=65537)
        o.fop("sset", 1, [], 1, vals=[text(n1)])
        o.fop("sset", 1, [], 1, vals=[text(66001)])
        o.fop("scstr", 1, [], 1, vals=[text(r.choice([n1, 66000]))], var=1)
        o.fop("scstr", 1, [], 1, vals=[text(66001)], var=0)
        o.fop("sidx", 1, [], 1, vals=[b"y"], idx=131072)
        o.fop("sclr", 1, [], 1)
        c.add(o)
    if "text" in what:
        o = new([hg])
        o.fop("sset", 1, [[1]], 1, vals=[text(n1)])
        o.fop("set", 1, [], 2, vals=[b"\1\0\0\0"])
        o.txt(1, [10, 65536, 1999999, 2000000, 2000001])
        c.add(o)
        # more than 255 bytes, elements and strings
        hm, hs, hp = s.msgs[:3]
        o = new([hs])
        o.fop("sset", 1, [], 1, vals=[bytes(r.randint(0, 255) for _ in range(r.choice([256, 257, 300, 700])))])
        o.fop("sset", 1, [], 2, vals=[text(300)])
        o.fop("set", 1, [], 3, vals=[b"\1\0\0\0"])
        o.txt(1, [1999999, 2000000])
        c.add(o)
        o = new([hp])
        for i, w, n in ((1, 8, r.choice([256, 257, 300])), (2, 1, r.choice([256, 257, 300]))):
            o.fop("sdata", 1, [], i, vals=[bytes(r.randint(0, 1 if w == 1 else 255) for _ in range(w)) for _ in range(n)], idx=n)
        o.txt(1, [1999999, 2000000])
        c.add(o)
        o = new([hm])
        n = r.choice([256, 257, 270])
        o.fop("sdata", 1, [], 6, vals=[text(r.randint(0, 3)) for _ in range(n)], idx=n)
        o.fop("sset", 1, [], 5, vals=[bytes(r.randint(0, 255) for _ in range(r.choice([256, 300])))])
        o.txt(1, [1999999, 2000000])
        c.add(o)


# ------------------------------------------------------------------------------------------ complete small models
REACH = dict(only={"none"}, whole=False)       # all values are reached by decoding records
VALUES = [(["Nest"], (1,), REACH), (["Opt"], (1,), REACH), (["One"], (1,), REACH), (["RepM"], (1,), REACH), (["RepS"], (1,), REACH), (["RepU"], (1,)),
          (["RepB"], (1,), dict(REACH, nv=3)), (["Str"], (1,), dict(nv=3)), (["Byt"], (1,), dict(nv=3))]


def values(c, fn, more=0, most=None, cfgs=VALUES):
    """fn(trace, encoding, boundaries) in every state of the small models, with more further slots of the same type."""
    for g in mini.graphs(c, cfgs):
        g.states(lambda t, encs, cuts: fn(t, encs[0], cuts[0]), more=[g.o.types[0]] * more, most=most)


def walk(c, *cfgs):
    """Take every transition of these small models."""
    for g in mini.graphs(c, cfgs):
        g.tour()


# ------------------------------------------------------------------------------------------ the properties
def c01(ctx):
    c = Camp(ctx, huge=True, small=True)
    r = ctx.rng

    def one(o, m, i, v):
        set_scalar(o, 1, m.fields[i], i, v, r)
        o.roundtrip(2, 1)
    sweep(c, {"Sca", "Opt"}, one, 6, 12)
    for s in each(c, ctx.scale(420)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        populate(c, o, 1)
        populate(c, o, 3)
        fill(c, o, 1, r.randint(0, 4))
        for _ in range(r.randint(1, 3)):
            o.plain(r.choice(["new", "clear"]), 2)
            kind = r.choice([0, 0, 1, 2])
            o.ser(1, cap="@%d" % r.choice([0, 0, 1, 50]), kind=kind)
            o.des(2, "=", eq=1)
            fill(c, o, 1, r.randint(0, 3))
        c.add(o)
    huge(c, "ser")
    wide(c, {"wire"})

    def val(t, enc, cuts):
        n = len(t.types)
        t.ser(1, cap="@%d" % r.choice([0, 0, 3]), kind=r.choice([0, 1, 2]))
        t.des(n, "=", eq=1)
        if r.random() < .3:
            t.ser(n)
    values(c, val, 1)
    c.finish({"roundtrip", "ser.cap", "des.accept", "des.value", "agree", "wellformed"})


def c02(ctx):
    c = Camp(ctx, huge=True, small=True)
    r = ctx.rng

    def one(o, m, i, v):
        set_scalar(o, 1, m.fields[i], i, v, r)
        o.ser(1)
        if m.fields[i].lab == "rep" and r.random() < .3:
            o.fop("clr", 1, [], i + 1)
    sweep(c, {"Sca", "Opt", "Rep", "One"}, one, 12, 16)
    for s in each(c, ctx.scale(420)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        populate(c, o, 3)
        for _ in range(r.randint(1, 4)):
            populate(c, o, 1)
            o.ser(1, cap="@%d" % r.choice([0, 0, 1, 30]), kind=r.choice([0, 0, 1, 2]))
        c.add(o)
    huge(c, "ser")
    wide(c, {"wire"})
    values(c, lambda t, enc, cuts: t.ser(1, cap="@%d" % r.choice([0, 0, 2]), kind=r.choice([0, 1, 2])))
    c.finish({"ser.bytes", "ser.cap"})


def c03(ctx):
    c = Camp(ctx, huge=True, small=True)
    r, g = ctx.rng, c.g

    def one(o, m, i, v):
        f = m.fields[i]
        p = g.enc_scalar(f.k, v, r.random() < .6)
        wt = 5 if f.k in ("fixed32", "sfixed32", "float") else 1 if f.k in ("fixed64", "sfixed64", "double") else 0
        d = g.tag(f.num, 2, True) + g.lenpfx(len(p), True) + p if f.lab == "rep" else g.tag(f.num, wt, True) + p
        o.des(1, d)
        if f.lab == "rep" and len(o.cmds) % 3 == 0:
            o.plain("clear", 1)
    sweep(c, {"Sca", "Opt", "Rep", "One"}, one, 12, 16)
    for s in each(c, ctx.scale(420)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        for _ in range(r.randint(1, 3)):
            if r.random() < .4:
                populate(c, o, 1)
                o.plain("asg", 2, 1)
            else:
                o.plain("clear", 1)
                o.plain("new", 2)
            # one after the other, and the concatenation
            parts = [g.encode(m, r.random() < .8, dens=r.choice([.2, .5, .9])) for _ in range(r.choice([1, 2, 2, 3]))]
            for p in parts:
                o.des(1, p)
            o.des(2, b"".join(parts))
        c.add(o)
    huge(c, "des")
    wide(c, {"wire"})
    # every value of the small models followed by others of the same model, in two calls and in one
    for gr in mini.graphs(c, VALUES):
        encs = [e[0][0] for e in gr.enc.values()]
        m = gr.o.types[0]
        todo = [(a, b) for a in encs for b in encs]
        most = ctx.scale(350, 12000)
        if len(todo) > most:
            todo = r.sample(todo, most)
        for k in range(0, len(todo), 10):
            o = c.ops(c.mini, [m, m])
            for a, b in todo[k:k + 10]:
                o.plain("clear", 1)
                o.plain("new", 2)
                o.des(1, a)
                o.des(1, b)
                o.des(2, a + b)
            c.add(o)
    strings(c, ctx.scale(5000, 60000), ctx.scale(3, 5))
    c.finish({"des.accept", "des.value", "des.others", "agree"})


def c04(ctx):
    c = Camp(ctx, small=True)
    r, g = ctx.rng, c.g
    for s in each(c, ctx.scale(600)):
        m = pick(c, s) if r.random() < .9 else r.choice(s.msgs)
        o = c.ops(s, [m, m, m])
        if r.random() < .3:
            populate(c, o, 1)
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .3:
                d = b"".join(g.unknown(m) for _ in range(r.randint(1, 3)))
            elif x < .5:
                # one unknown field of every wire type, with a payload that looks like fields
                num = r.choice([n for n in list(range(1, 60)) + [536870911, 2048] if n not in {f.num for f in m.fields}])
                inner = g.encode(m, True)[:r.choice([5, 60, 300])]
                d = varint(num << 3 | 2) + g.lenpfx(len(inner), True) + inner + g.encode(m, True, .2)
            else:
                d = g.encode(m, True, r.choice([.15, .4, .6]))
            o.des(r.randint(1, 2), d)
        c.add(o)
    # long unknown fields, also inside sub-messages
    for n in [127, 128, 255, 256, 257, r.choice([258, 384, 512, 1000]), 16383, 16384, 65535, 65536, r.choice([65537, 65540, 70000])]:
        s = r.choice(c.main)
        m = pick(c, s)
        num = r.choice([x for x in list(range(1, 60)) + [536870911, 2048] if x not in {f.num for f in m.fields}])
        body = bytes(r.choice([0, 8, 10, 128, 255, r.randint(0, 255)]) for _ in range(n))
        o = c.ops(s, [m, m])
        o.des(1, g.encode(m, True) + varint(num << 3 | 2) + varint(n) + body + g.encode(m, True))
        for f in [f for f in m.fields if f.k == "msg"][:2]:
            num = next(x for x in (15, 50, 51, 52, 53, 2049, 2050, 536870910) if x not in {h.num for h in f.msg.fields})
            e = g.encode(f.msg, True, dens=.3) + varint(num << 3 | 2) + varint(n) + body + g.encode(f.msg, True, dens=.3)
            o.des(2, varint(f.num << 3 | 2) + varint(len(e)) + e + g.encode(m, True, dens=.3))
        c.add(o)
    # unknown fields between all records of all values of the small models
    unk = [b"\x78\x80\x01", b"\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", b"\x7a\x00", b"\x7a\x02\x08\x01", b"\x7d\x08\x01\x10\x01", b"\x79\x08\x01\x12\x01\x1a\x01\x22\x01",
           b"\xf8\xff\xff\xff\x0f\x01", b"\x88\x01\x05", b"\x8a\x01\x03\x0a\x01\x41"]
    for gr in mini.graphs(c, VALUES):
        m = gr.o.types[0]
        todo = [(e[0][0], n) for e in gr.enc.values() for n in e[1][0]]
        most = ctx.scale(220, 10000)
        todo = r.sample(todo, min(most, len(todo)))
        for k in range(0, len(todo), 12):
            o = c.ops(c.mini, [m])
            for d, n in todo[k:k + 12]:
                o.plain(r.choice(["clear", "new"]), 1)
                o.des(1, d[:n] + b"".join(r.choice(unk) for _ in range(r.choice([1, 1, 2]))) + d[n:])
            c.add(o)
    c.finish({"des.accept", "des.value", "des.others", "agree"})


def strings(c, most, length, use=False):
    """All byte strings over critical bytes that are not rejected earlier."""
    r = c.ctx.rng

    def one(t, d):
        t.plain("new", 1)
        t.des(1, d)
        if use and r.random() < .15:
            t.ser(1)
        if use and r.random() < .1:
            t.plain("asg", 2, 1)
            t.plain("clear", 1)
            t.des(1, d)
    mini.strings(c, "Leaf", mini.ALPHABET["Leaf"], length + 1, one, most // 3)
    mini.strings(c, "Mix", mini.ALPHABET["Mix"], length, one, most)


def damaged(c, m):
    r, g = c.ctx.rng, c.g
    x = r.random()
    if x < .2:
        return g.noise()
    if x < .3:
        d = g.encode(m, True, .1, dens=.6)
        return d[:r.randint(0, len(d))]
    if x < .4:
        return g.encode(m, True, .1, over=.4)
    return g.mutate(g.encode(m, True, .2, dens=r.choice([.3, .7])), m)


def c05(ctx):
    c = Camp(ctx, small=True)
    r, g = ctx.rng, c.g
    for s in each(c, ctx.scale(620)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        if r.random() < .4:
            populate(c, o, 1)
        for _ in range(r.randint(1, 3)):
            o.des(1, damaged(c, m))
        x = r.random()
        if x < .4:
            o.ser(1, cap="@%d" % r.choice([0, 0, -1, 5]), kind=r.choice([0, 1, 2]))
        if x < .25:
            o.plain("asg", 2, 1)
            fill(c, o, 2, 1)
        if r.random() < .6:
            o.plain("clear", 1)
            y = r.random()
            if y < .4:
                fill(c, o, 1, r.randint(1, 3))
                o.ser(1)
            else:
                # reveals remains: decode shorter content, grow by index
                o.des(1, g.encode(m, True, dens=.6))
                fill(c, o, 1, r.randint(0, 2))
                o.ser(1)
        c.add(o)
    strings(c, ctx.scale(9000, 150000), ctx.scale(4, 5), use=True)
    c.finish({"wellformed", "agree", "des.known", "des.others", "des.accept", "des.value", "ser.cap", "ser.size", "ser.bytes", "ser.prefix",
              "op.value", "op.result"})


def c06(ctx):
    c = Camp(ctx, small=True)
    r, g = ctx.rng, c.g
    s = c.schemas[0]
    leaf = next(m for m in s.msgs if m.name == "Leaf")
    # the recorded findings, each time
    o = c.ops(s, [leaf])
    o.des(1, b"\x08\x05\x80", kind=0)
    o.des(1, b"\xa2\x06\x05ab", kind=0)
    c.add(o)

    def wts(f):
        ok = 2 if f.lab == "rep" or f.k in ("string", "bytes", "msg") else 5 if f.k in ("fixed32", "sfixed32", "float") else 1 if f.k in (
            "fixed64", "sfixed64", "double") else 0
        return [w for w in range(8) if w != ok]
    for s in c.main:
        # every field with every wrong wire type, alone and behind valid content
        for m in s.msgs:
            if len(m.fields) > 30:
                fs = r.sample(m.fields, 6)
            else:
                fs = m.fields
            o = c.ops(s, [m])
            for f in fs:
                for w in wts(f) if ctx.thorough else r.sample(wts(f), 4):
                    pre = g.encode(m, True, dens=.2) if r.random() < .3 else b""
                    o.des(1, pre + g.tag(f.num, w) + r.choice([b"\x01\x01", b"\x00" * 9, b"\x02" * 8, b"\x05hello", b""]))
                    if len(o.cmds) >= 10:
                        c.add(o)
                        o = c.ops(s, [m])
            c.add(o)
    for s in each(c, ctx.scale(360)):
        m = pick(c, s)
        o = c.ops(s, [m])
        x = r.random()
        if x < .35:
            # all truncations of one encoding
            d = g.encode(m, r.random() < .6, .1, dens=r.choice([.2, .5]))
            cuts = range(len(d)) if len(d) <= 16 or ctx.thorough else sorted(r.sample(range(len(d)), 16))
            for k in cuts:
                o.plain("new", 1)
                o.des(1, d[:k])
        elif x < .5:
            for _ in range(4):
                o.plain("clear", 1)
                o.des(1, g.encode(m, True, 0, dens=.5, over=.5))
        elif x < .6:
            # full, then one more
            for _ in range(3):
                o.des(1, g.encode(m, True, 0, dens=.8))
        elif x < .7:
            for _ in range(5):
                f = r.choice(m.fields)
                bad = b"".join([bytes([r.choice([0x80, 0xFF])]) * r.choice([4, 5, 9, 10, 11]), bytes([r.randint(0, 127)])])
                o.des(1, r.choice([g.tag(f.num, 0) + bad, bad, g.tag(f.num, 2) + bad, g.tag(77777, 0) + bad, g.tag(77777, 2) + bad]))
        else:
            for _ in range(r.randint(3, 6)):
                o.des(1, damaged(c, m))
        c.add(o)
    strings(c, ctx.scale(9000, 150000), ctx.scale(4, 5))
    # all values of the small models cut everywhere
    for gr in mini.graphs(c, VALUES):
        m = gr.o.types[0]
        todo = [d[:n] for d in {e[0][0] for e in gr.enc.values()} for n in range(len(d))]
        todo = sorted(set(todo))
        todo = r.sample(todo, min(ctx.scale(150, 10000), len(todo)))
        for k in range(0, len(todo), 20):
            o = c.ops(c.mini, [m])
            for d in todo[k:k + 20]:
                o.plain("new", 1)
                o.des(1, d)
            c.add(o)
    c.finish({"des.reject", "des.code", "des.known"}, findings=True)


def c07(ctx):
    c = Camp(ctx, huge=True, small=True)
    r = ctx.rng

    def one(o, m, i, v):
        set_scalar(o, 1, m.fields[i], i, v, r)
        o.ser(1, cap="@%d" % r.choice([0, -1]), kind=r.choice([0, 1, 2]))
    sweep(c, {"Sca", "Opt", "Rep", "One"}, one, 12, 12)
    for s in each(c, ctx.scale(360)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        populate(c, o, 3)
        for _ in range(r.randint(1, 2)):
            populate(c, o, 1)
            for d in r.sample([0, -1, -2, 1, -3, -5, -8, 2, -r.randint(1, 40), -4096, -20], 4):
                o.ser(1, cap="@%d" % d, kind=r.choice([0, 1, 2]))
            if r.random() < .3:
                o.ser(1, cap=r.randint(0, 12), kind=r.choice([0, 2]))
        c.add(o)
    # every capacity from nothing to more than enough
    for s in c.main:
        for m in r.sample(s.msgs, min(len(s.msgs), 6)):
            o = c.ops(s, c.slots(s, m))
            fill(c, o, 1, 5)
            for cap in range(0, 40 if not ctx.thorough else 120):
                o.ser(1, cap=cap, kind=r.choice([0, 2] + ([1] if 1 <= cap <= 80 else [])))
            c.add(o)
    huge(c, "cap")
    wide(c, {"cap"})

    def val(t, enc, cuts):
        caps = list(range(len(enc) + 2))
        for cap in caps if len(caps) <= 7 or ctx.thorough else caps[-3:] + r.sample(caps[:-3], 3):
            t.ser(1, cap=cap, kind=r.choice([0, 2] + ([1] if cap else [])))
    values(c, val)
    c.finish({"ser.size", "ser.cap", "ser.bytes", "ser.prefix"})


def has_rep(m):
    return any(f.lab == "rep" for f in m.fields)


def kinds_schema(fsel, n=5):
    """A random schema generator in which most fields satisfy fsel(lab, k, oneof)."""
    def mk(rng, package):
        best = None
        for _ in range(30):
            s = sch.random_schema(rng, package)
            score = sum(1 for m in s.msgs for f in m.fields if fsel(f)) / (1 + sum(len(m.fields) for m in s.msgs))
            if best is None or score > best[0]:
                best = (score, s)
        return best[1]
    return mk


def field_campaign(ctx, names, fsel, rand, ntr, judge=ALL, des=.12, huge=False, crowd=False):
    """Operation sequences concentrated on the fields selected by fsel."""
    c = Camp(ctx, fixed=names, rand=rand, small=True, huge=huge, crowd=crowd)
    r, g = ctx.rng, c.g
    for s in each(c, ctx.scale(ntr)):
        ms = [m for m in s.msgs if any(fsel(f) for f in m.fields)]
        m = r.choice(ms or s.msgs)
        o = c.ops(s, c.slots(s, m))
        hot = r.sample([f for f in m.fields if fsel(f)], min(len([f for f in m.fields if fsel(f)]), r.choice([1, 2, 3, 20]))) or m.fields
        sel = (lambda f: f in hot) if r.random() < .7 else fsel
        if r.random() < .6:
            populate(c, o, 3)
        for _ in range(r.randint(4, 14)):
            x = r.random()
            sl = r.choice([1, 1, 1, 2])
            if x < .68:
                fill(c, o, sl, 1, sel)
            elif x < .68 + des:
                o.des(sl, g.encode(m, True, .05, dens=r.choice([.2, .5])))
            elif x < .84:
                o.des(sl, damaged(c, m))
            elif x < .88:
                o.plain(r.choice(["cpy", "mov", "asg", "masg"]), sl, 3 - sl)
            elif x < .91:
                o.plain(r.choice(["new", "clear"]), sl)
            elif x < .95:
                o.ser(sl)
            else:
                o.roundtrip(3 - sl, sl)
        o.ser(1)
        c.add(o)
    return c


def crowded(c, i):
    """Fields of a message that are easily confused: the same modulo 8, 32, 64 and 256."""
    r, s = c.ctx.rng, c.crowd
    m = s.msgs[i]
    for _ in range(c.ctx.scale(12, 200)):
        o = c.ops(s, [m, m])
        a = r.randint(0, 43)
        near = sorted({x for d in (0, 8, 32, 64, 128, 255, 256) for x in (a + d, a + d + 1) if x < 300})
        hot = [m.fields[x] for x in near]
        for _ in range(r.randint(4, 10)):
            fill(c, o, r.choice([1, 1, 2]), 1, lambda f: f in hot)
            if r.random() < .2:
                o.plain(r.choice(["cpy", "mov", "asg", "masg", "clear"]), 2, 1)
            if r.random() < .2:
                o.roundtrip(2, 1)
        o.ser(1)
        c.add(o)


def c10(ctx):
    sel = lambda f: f.lab == "rep"
    c = field_campaign(ctx, {"Rep", "Cap1", "Tpl", "Outer", "Tpl2"}, sel, kinds_schema(sel), 560, huge=True)
    wide(c, {"index"})
    walk(c, (["RepU", "RepU"], (1, 2)), (["RepS", "RepS"], (1, 2)), (["RepB"], (1,)),
         (["RepM", "Leaf"], (1, 2) if ctx.thorough else (1,)), *([(["RepM", "RepM"], (1, 2))] if ctx.thorough else []))
    c.finish(ALL - {"alloc", "des.reject", "des.code"})


def c11(ctx):
    sel = lambda f: f.k in ("string", "bytes")
    c = field_campaign(ctx, {"Sca", "Opt", "One", "Tpl", "Cap1", "Inner", "Rep", "TwoOne"}, sel, kinds_schema(sel), 560, huge=True)
    wide(c, {"string"})
    nv = dict(nv=ctx.scale(2, 3))
    walk(c, (["Str", "Str"], (1, 2), nv), (["Byt", "Byt"], (1, 2), nv), (["RepS"], (1,)), (["Opt"], (1,), dict(only={"s"})), (["OneX"], (1,), dict(only={"s", "a"})))
    c.finish(ALL - {"alloc", "des.reject", "des.code"})


def c12(ctx):
    sel = lambda f: f.lab == "opt"
    c = field_campaign(ctx, {"Opt", "Many", "Tpl", "TwoOne"}, sel, kinds_schema(sel), 420, crowd=True)
    crowded(c, 0)
    walk(c, (["Opt", "Leaf"], (1, 2) if ctx.thorough else (1,)), (["Byt"], (1,)), (["Opt", "Opt"], (1, 2), dict(only={"a", "s"}, des=ctx.thorough)))
    c.finish(ALL - {"alloc", "des.reject", "des.code"})


def c13(ctx):
    sel = lambda f: f.oo is not None
    c = field_campaign(ctx, {"One", "TwoOne", "Top", "Tpl"}, sel, kinds_schema(sel), 480, crowd=True)
    crowded(c, 1)
    walk(c, (["One", "Leaf"], (1,)), (["OneX", "OneX"], (1, 2), {} if ctx.thorough else dict(only={"s", "a"}, des=3)), *([(["Nest", "OneX"], (1,))] if ctx.thorough else []))
    c.finish(ALL - {"alloc", "des.reject", "des.code"})


def c14(ctx):
    c = Camp(ctx, small=True, huge=True)
    r, g = ctx.rng, c.g
    wide(c, {"copy"})
    for s in each(c, ctx.scale(500)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        populate(c, o, 3)
        for _ in range(r.randint(1, 3)):
            populate(c, o, 1)
            if r.random() < .5:
                populate(c, o, 2)
            if r.random() < .25:
                o.des(1, damaged(c, m))
            x = r.random()
            if x < .6:
                o.plain(r.choice(["cpy", "mov", "asg", "masg"]), 2, 1)
            elif x < .75:
                o.plain(r.choice(["asg", "asg", "masg"]), 1, 1)
            else:
                o.plain(r.choice(["clear", "new"]), 1)
            # what follows shows remains and shared state
            for _ in range(r.randint(1, 4)):
                y = r.random()
                if y < .5:
                    fill(c, o, r.choice([1, 2]), 1)
                elif y < .8:
                    o.des(r.choice([1, 2]), g.encode(m, True, dens=r.choice([.3, .8])))
                else:
                    o.ser(r.choice([1, 2]))
            if r.random() < .5:
                o.roundtrip(1, 2)
        c.add(o)
    walk(c, (["RepU", "RepU"], (1, 2), dict(des=False)), (["Byt", "Byt"], (1, 2)), (["OneX", "OneX"], (1, 2), {} if ctx.thorough else dict(only={"s"}, des=4)),
         (["RepM", "RepM"], (1, 2), dict(only={"none"}, des=3)), (["Nest", "Nest"], (1, 2), dict(only={"none"}, des=ctx.scale(5, 9))))
    c.finish(ALL - {"alloc", "des.reject", "des.code"})


def c18(ctx):
    c = Camp(ctx, huge=True, small=True)
    r, g = ctx.rng, c.g
    for s in each(c, ctx.scale(420)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        populate(c, o, 3)
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < .45:
                fill(c, o, 1, 1)
            elif x < .55:
                o.des(1, g.encode(m, True, .1))
            elif x < .62:
                o.des(1, damaged(c, m))
            elif x < .7:
                o.plain(r.choice(["cpy", "mov", "asg", "masg"]), 2, 1)
            elif x < .75:
                o.plain(r.choice(["new", "clear"]), r.choice([1, 2]))
            else:
                o.ser(r.choice([1, 2]), cap="@%d" % r.choice([0, 0, -1, -4, 7]), kind=r.choice([0, 1, 2]))
        c.add(o)
    huge(c, "ser")
    walk(c, (["One", "Leaf"], (1,)), (["RepS"], (1,)), (["Str"], (1,)))
    values(c, lambda t, enc, cuts: t.ser(1, cap="@%d" % r.choice([0, -1]), kind=r.choice([0, 1, 2])))
    c.finish({"alloc", "ser.pure"})


def c20(ctx):
    c = Camp(ctx, small=True)
    r, g = ctx.rng, c.g
    for s in each(c, ctx.scale(420)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        populate(c, o, 3)
        populate(c, o, 1)
        x = r.random()
        if x < .6:
            # a refusal at every push in turn (calls beyond the last one do not refuse)
            n = r.choice([3, 6, 12, 20])
            first = 0 if r.random() < .7 else r.randint(0, 15)
            for k in range(first, first + n):
                o.ser(1, cap=4096, kind=2, refuse=k, pers=r.randint(0, 1))
            o.ser(1, cap="@%d" % r.choice([0, -1, -2, 3]), kind=2)
        else:
            d = g.encode(m, True, .1) if r.random() < .6 else damaged(c, m)
            for k in r.sample(range(6), 4):
                o.plain("clear", 1)
                o.des(1, d, kind=k)
            if d:
                # the buffer runs dry
                cut = d[:r.randint(0, len(d))]
                for k in r.sample(range(6), 3):
                    o.plain("clear", 1)
                    o.des(1, cut, kind=k)
        c.add(o)
    # every push of a value with many fields refused in turn
    for s in c.main:
        for m in r.sample([m for m in s.msgs if m.fields], min(5, len(s.msgs) - 1)):
            o = c.ops(s, c.slots(s, m))
            o.des(1, g.encode(m, True, dens=.8))
            for k in range(ctx.scale(40, 150)):
                o.ser(1, cap=4096, kind=2, refuse=k, pers=k % 2)
            c.add(o)

    def val(t, enc, cuts):
        # every single push refused, once and for good
        for k in range(len(enc) + 1) if ctx.thorough else r.sample(range(len(enc) + 1), min(len(enc) + 1, 5)):
            t.ser(1, cap=4096, kind=2, refuse=k, pers=k % 2)
    values(c, val)
    for gr in mini.graphs(c, VALUES):
        m = gr.o.types[0]
        todo = sorted({e[0][0] for e in gr.enc.values()})
        for d in r.sample(todo, min(len(todo), ctx.scale(25, 2000))):
            o = c.ops(c.mini, [m])
            for k in range(6):
                o.plain("clear", 1)
                o.des(1, d[:r.choice([len(d), len(d), r.randint(0, len(d))])], kind=k)
            c.add(o)
    c.finish({"ser.refused", "ser.cap", "ser.bytes", "ser.prefix", "des.accept", "des.value", "des.reject", "des.code", "des.others"})


def c17(ctx):
    """Text output: small messages in any state, written into a large view and views of critical sizes."""
    c = Camp(ctx, nrandom=2, small=True, huge=True, std="c++17", defs=["-DMSG_TO_STRING"])
    r = ctx.rng
    wide(c, {"text"})

    def views():
        end = 2000000
        return r.sample([0, 1, 2, 3, 5, 8], 3) + [r.randint(4, 60), r.randint(20, 300)] + r.sample([end - 3, end - 2, end - 1, end, end + 1, end + 2, end + 9], 4) + [end - r.randint(3, 60)]
    for s in each(c, ctx.scale(260)):
        m = pick(c, s)
        o = c.ops(s, c.slots(s, m))
        o.txt(1, views() if r.random() < .2 else [])
        for _ in range(r.randint(1, 3)):
            populate(c, o, 1)
            fill(c, o, 1, r.randint(1, 4))
            o.txt(1, views() if r.random() < .6 else [])
        o.ser(1)
        c.add(o)
    # Every kind of field on its own with its boundary values.
    for s in c.main:
        for m in s.msgs:
            for i, f in enumerate(m.fields):
                if f.k not in sch.WIDTH:
                    continue
                vs = list(scalar_values(f.k))
                for v in r.sample(vs, min(len(vs), ctx.scale(3, 40))):
                    o = c.ops(s, [m])
                    o.fop("add" if f.lab == "rep" else "set", 1, [], i + 1, vals=[bytes(v)])
                    o.txt(1, [])
                    c.add(o)
    # all values of the small models
    values(c, lambda t, enc, cuts: t.txt(1, views() if r.random() < .1 or ctx.thorough else []), most=ctx.scale(60, 100000))
    c.finish({"txt.text", "txt.rest", "txt.view", "ser.pure", "alloc"})
