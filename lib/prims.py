"""The primitive wire functions and scalar wrappers (C21, C22), decided by spec/TracePrim.tla."""
import json, os, re, subprocess, concurrent.futures as cf
import build, gen, run
import schema as sch
from build import VERIF
from objects import scalar_values

KINDS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bool", "enum"]
VARKINDS = [k for k in KINDS if k in ("int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum")]
SIGNED = ["int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64"]
UNSIGNED = ["uint32", "uint64", "fixed32", "fixed64"]
NUMS = [1, 2, 15, 16, 17, 127, 128, 2047, 2048, 16383, 16384, 18999, 262143, 262144, 33554431, 33554432, (1 << 28), (1 << 29) - 1]


def hx(b):
    return b.hex() if b else "-"


class Prims:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = build.compile_all([os.path.join(VERIF, "cpp", "primdrv.cpp")], ctx.work.path("primdrv"), build.SAN, [], opt="-O1")
        self.calls = []          # (line, event)

    def values(self, k, n):
        r, w = self.ctx.rng, sch.WIDTH[k]
        vs = [bytes(v) for v in scalar_values(k)]
        if k != "bool":
            for _ in range(n):
                x = bytes(r.randrange(256) for _ in range(w))
                if r.random() < .6:
                    j = r.randrange(w)
                    x = x[:j] + bytes([r.choice([0, 255])]) * (w - j)
                vs.append(x)
        return vs

    def write(self, fn, k, num, v, cap):
        self.calls.append(("%s %s %d %s %d" % (fn, k, num, v.hex(), cap), dict(fn=fn, k=k, num=num, v=list(v), cap=cap)))

    def read(self, fn, k, wt, d, old):
        self.calls.append(("%s %s %d %s %s" % (fn, k, wt, hx(d), old.hex()), dict(fn=fn, k=k, wt=wt, d=list(d), v=list(old))))

    def finish(self):
        ctx, calls = self.ctx, self.calls
        n = 8

        def execute(ids):
            todo = list(ids)
            while todo:
                r = subprocess.run([self.exe], input="".join(calls[i][0] + "\n" for i in todo), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=build.ENV, timeout=800)
                got = [l for l in r.stdout.split("\n") if l.endswith("}")]
                for i, l in zip(todo, got):
                    o = json.loads(l)
                    if calls[i][1]["k"] == "tag" and "wt" in o:
                        o["wtgot"] = o.pop("wt")
                    calls[i][1].update(o)
                    calls[i][1]["ran"] = True
                if len(got) < len(todo):
                    if r.returncode in (0, 97):
                        raise run.Inconclusive("primitive driver: %s at %s" % (r.stderr[-500:], calls[todo[len(got)]][0]))
                    ctx.violate("the code under test died: exit %d in %s: %s" % (r.returncode, calls[todo[len(got)]][0], " ".join(r.stderr.split("\n")[:8])[:800]), calls[todo[len(got)]][0])
                todo = todo[len(got) + 1:]
        with cf.ThreadPoolExecutor(n) as ex:
            list(ex.map(execute, [range(i, len(calls), n) for i in range(n)]))
        ran = [c for c in calls if c[1].get("ran")]
        size = max(2000, min(40000, len(ran) // 8 + 1))

        def judge(j):
            part = ran[j * size:(j + 1) * size]
            tf = ctx.work.path("p_%d.ndjson" % j)
            with open(tf, "w") as f:
                for _, e in part:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
            rc, out = run.tlc("TracePrim.tla", "TracePrim.cfg", dict(VP_TRACES=tf), workers=1, heap="3g")
            if "Model checking completed. No error has been found." not in out:
                raise run.Inconclusive("TLC: " + out[-2000:])
            if len(run.records(out, "DONE")) != (len(part) + 49) // 50:
                raise run.Inconclusive("TLC did not judge all calls")
            os.unlink(tf)
            return run.tlc_counts(out), [part[int(re.search(r"(\d+)", x).group(1)) - 1] for x in run.records(out, "REJECT")], len(part)
        with cf.ThreadPoolExecutor(8) as ex:
            for (st, tr), rej, m in ex.map(judge, range((len(ran) + size - 1) // size)):
                ctx.states += st
                ctx.transitions += tr
                ctx.traces += m
                for line, e in rej:
                    ctx.violate("call '%s' gave %s" % (line, {k: v for k, v in e.items() if k not in ("fn", "k", "ran")}), dict(call=line, event=e))
        ctx.count("calls", len(calls))
        for line, e in ctx.rng.sample(ran, 3):
            ctx.sample(dict(call=line, event={k: v for k, v in e.items() if k != "ran"}))


def model(ctx, cfg, module, env=None):
    rc, out = run.tlc(module, cfg, env or {}, workers=4, timeout=800)
    if "Model checking completed. No error has been found." not in out:
        raise run.Inconclusive("model check of %s failed: %s" % (module, out[-2500:]))
    st, tr = run.tlc_counts(out)
    ctx.states += st
    ctx.transitions += tr
    ctx.count("model_states", st)


def c21(ctx):
    model(ctx, "MCWire.cfg", "MCWire.tla")
    p, r = Prims(ctx), ctx.rng
    nv = ctx.scale(120, 4000)
    for k in KINDS:
        for v in p.values(k, nv):
            full = len(v) + 8
            p.write("wraw", k, 1, v, 20)
            p.write("wtag", k, r.choice(NUMS), v, 20)
            p.write(r.choice(["wfld", "wfid", "wfin"]), k, r.choice(NUMS), v, r.choice([20, 20, r.randint(0, full)]))
            if r.random() < .5:
                p.write(r.choice(["wraw", "wtag"]), k, r.choice(NUMS), v, r.randint(0, full))
        for n in NUMS:
            p.write("wtag", k, n, p.values(k, 0)[-1], 20)
            p.write("wfid", k, n, p.values(k, 0)[-1], 20)
    # Byte strings: all over the critical bytes up to a length, then random ones around the longest varints.
    alpha = [0, 1, 0x7f, 0x80, 0xff]
    strings = [b""]
    layer = [b""]
    for _ in range(ctx.scale(4, 6)):
        layer = [x + bytes([a]) for x in layer for a in alpha]
        strings += layer
    for k in VARKINDS:
        for d in strings:
            p.read("rraw", k, 0, d, r.choice(p_old(k)))
    for d in strings:
        p.calls.append(("read varint32 %s deadbeef" % hx(d), dict(fn="read", k="varint32", d=list(d), v=[0xde, 0xad, 0xbe, 0xef])))
        p.calls.append(("read varint64 %s deadbeef01020304" % hx(d), dict(fn="read", k="varint64", d=list(d), v=[0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4])))
        p.calls.append(("read tag %s" % hx(d), dict(fn="read", k="tag", d=list(d))))
    for k in KINDS:
        for _ in range(ctx.scale(250, 6000)):
            if k in VARKINDS:
                n = r.choice([1, 2, 4, 5, 6, 8, 9, 10, 11, 12])
                body = [r.choice([0x80, 0xff, 0x81, 0x80 | r.randrange(128)]) for _ in range(n)]
                if r.random() < .9:
                    body[-1] &= 0x7f
                d = bytes(body) + bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 3])))
                if r.random() < .1:
                    d = d[:r.randrange(len(d) + 1)]
            else:
                d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 4, 5, 7, 8, 9, 12])))
            fn = r.choice(["rraw", "rfld", "rchk"])
            right = {"fixed32": 5, "sfixed32": 5, "float": 5, "fixed64": 1, "sfixed64": 1, "double": 1}.get(k, 0)
            p.read(fn, k, right if r.random() < .8 else r.randrange(6), d, r.choice(p_old(k)))
            if k in VARKINDS and r.random() < .3:
                p.calls.append(("read varint64 %s deadbeef01020304" % hx(d), dict(fn="read", k="varint64", d=list(d), v=[0xde, 0xad, 0xbe, 0xef, 1, 2, 3, 4])))
                p.calls.append(("read varint32 %s deadbeef" % hx(d), dict(fn="read", k="varint32", d=list(d), v=[0xde, 0xad, 0xbe, 0xef])))
                p.calls.append(("read tag %s" % hx(d), dict(fn="read", k="tag", d=list(d))))
    for num in NUMS:
        for wt in range(6):
            p.calls.append(("make tag %d %d" % (num, wt), dict(fn="make", k="tag", num=num, wt=wt)))
    for w, t in ((4, "32"), (8, "64")):
        for v in p.values("int" + t, nv):
            p.calls.append(("enc zz%s %s" % (t, v.hex()), dict(fn="enc", k="zz" + t, v=list(v))))
            p.calls.append(("dec zz%s %s" % (t, v.hex()), dict(fn="dec", k="zz" + t, v=list(v))))
    p.finish()


def p_old(k):
    w = sch.WIDTH[k]
    return [b"\0", b"\1"] if k == "bool" else [b"\0" * w, bytes(range(1, w + 1)), b"\xfe" * (w - 1) + b"\x41"]


def c22(ctx):
    p, r = Prims(ctx), ctx.rng
    for k in KINDS:
        vs = p.values(k, ctx.scale(60, 1500))
        for _ in range(ctx.scale(700, 15000)):
            a = r.choice(vs)
            x = r.random()
            b = a if x < .25 else r.choice(vs)
            if k != "bool" and .25 < x < .6:
                i = r.randrange(len(a))
                b = a[:i] + bytes([(a[i] + r.choice([1, 128, 255])) % 256]) + a[i + 1:]
            p.calls.append(("cmp %s %s %s" % (k, a.hex(), b.hex()), dict(fn="cmp", k=k, v=list(a), w=list(b))))
        fam = next((f for f in (SIGNED, UNSIGNED) if k in f), [])
        for k2 in fam:
            for _ in range(ctx.scale(60, 1500)):
                a = r.choice(vs)
                w2 = sch.WIDTH[k2]
                x = r.random()
                b = bytes(r.choice(p.values(k2, 3)))
                if x < .6:
                    n = int.from_bytes(a, "little", signed=fam is SIGNED) + r.choice([0, 0, 1, -1, 1 << 32, 1 << 31])
                    b = (n % (1 << 8 * w2)).to_bytes(w2, "little")
                p.calls.append(("xcmp %s %s %s %s" % (k, k2, a.hex(), b.hex()), dict(fn="xcmp", k=k, k2=k2, v=list(a), w=list(b))))
        for how in range(11):
            for _ in range(ctx.scale(25, 300)):
                a, b = r.choice(vs), r.choice(vs)
                p.calls.append(("wrap %s %d %s %s" % (k, how, a.hex(), b.hex()), dict(fn="wrap", k=k, how=how, v=list(a), w=list(b))))
        for v in vs:
            p.write("wfld", k, 1, v, 20)
    p.finish()
