"""Complete exploration of the object machine on small schemas (spec/MCObjects.tla): TLC checks the laws in every state and
prints every transition; tours over all of them are executed in the generated code and validated like any other trace."""
import collections, json, re, concurrent.futures as cf
import gen, run, schema as sch
from schema import F, M, Schema, E
from gen import varint

HUGE = 4294967295


def mini_schema():
    leaf = M("Leaf", [F("a", 1, "uint32"), F("o", 2, "bool", "opt")])
    en = E("En", [("Z", 0), ("A", 1), ("B", 2147483647)])
    ms = [leaf,
          M("RepU", [F("r", 1, "uint32", "rep", rcap=2)]),
          M("RepS", [F("r", 16, "string", "rep", rcap=2)]),
          M("RepM", [F("r", 3, "msg", "rep", msg=leaf, rcap=2)]),
          M("RepB", [F("r", 1, "bool", "rep", rcap=3), F("f", 2, "float", "rep", rcap=1)]),
          M("Str", [F("s", 1, "string", cap=2)]),
          M("Byt", [F("b", 1, "bytes", "opt", cap=2)]),
          M("Opt", [F("a", 1, "uint32", "opt"), F("s", 2, "string", "opt", cap=1), F("m", 3, "msg", "opt", msg=leaf)]),
          M("One", [F("a", 1, "uint32", oo="x"), F("s", 2, "string", oo="x", cap=1), F("m", 3, "msg", oo="x", msg=leaf),
                    F("c", 4, "bool", oo="y"), F("d", 5, "msg", oo="y", msg=leaf)]),
          M("OneX", [F("p", 9, "bool"), F("a", 1, "enum", oo="x", enum=en), F("s", 2, "bytes", oo="x", cap=1), F("m", 3, "msg", oo="x", msg=leaf)])]
    sub = M("Sub", [F("x", 1, "bool"), F("y", 2, "uint32", oo="z")])
    mix = M("Mix", [F("a", 1, "int32"), F("b", 2, "sint32", "opt"), F("r", 3, "uint32", "rep", rcap=2), F("s", 4, "string", cap=2),
                    F("m", 5, "msg", msg=sub), F("f", 6, "fixed32", oo="w"), F("n", 7, "msg", oo="w", msg=sub), F("rm", 9, "msg", "rep", msg=sub, rcap=1)])
    by = {m.name: m for m in ms}
    ms += [sub, mix]
    ms.append(M("Nest", [F("o", 1, "msg", msg=by["OneX"]), F("q", 2, "msg", "opt", msg=by["RepU"])]))
    return Schema("vp.mini", ms, [en])


def u32(x):
    return x.to_bytes(4, "little")


class Recorder(gen.Ops):
    """Collects single operations."""
    def take(self):
        res = list(zip(self.cmds, self.evs))
        self.cmds, self.evs = [], []
        return res


def val(f, x):
    """Two or three values of a field."""
    return {"uint32": lambda: u32([0, 5, 300][x]), "bool": lambda: bytes([x % 2]), "enum": lambda: u32([0, 1, 2147483647][x]),
            "float": lambda: [b"\0\0\0\0", b"\0\0\0\x80", b"\0\0\x80?"][x], "string": lambda: [b"", b"A", b"\0A"][x][-f.cap:] if x else b"",
            "bytes": lambda: [b"", b"\0", b"A\0"][x][:f.cap] if x else b""}[f.k]()


def enc(f, x):
    if f.k in ("string", "bytes"):
        return varint(f.num << 3 | 2) + varint(len(x)) + x
    if f.k == "float":
        p, wt = x, 5
    else:
        p, wt = varint(int.from_bytes(x, "little")), 0
    if f.lab == "rep":
        return varint(f.num << 3 | 2) + varint(len(p)) + p
    return varint(f.num << 3 | wt) + p


def field_ops(o, s, path, m, nv, other=None, only=None):
    """All operations on the fields of message m at path of slot s. other: a slot of the same type."""
    for i, f in enumerate(m.fields):
        i += 1
        if only and f.name not in only:
            continue
        o.fop("clr", s, path, i)
        for var in (0, 1)[:2 if f.lab == "rep" or f.k in ("msg", "string", "bytes") else 1]:
            o.fop("self", s, path, i, var=var)
        if f.lab == "rep":
            o.fop("rclr", s, path, i)
            o.fop("mut", s, path, i)
            if other and not path:
                o.fop("asgf", s, path, i, src=other)
                o.fop("asgf", s, path, i, src=s)
            for idx in list(range(f.rcap + 1)) + [HUGE]:
                o.fop("getc", s, path, i, idx=idx)
            if f.k == "msg":
                for idx in list(range(f.rcap + 1)) + [HUGE]:
                    field_ops(o, s, path + [[i, idx]], f.msg, nv)
                src = next((j + 1 for j, t in enumerate(o.types) if t is f.msg), None)
                if src:
                    for idx in list(range(f.rcap + 1)) + [HUGE]:
                        o.fop("seti", s, path, i, src=src, idx=idx)
                        o.fop("muti", s, path, i, src=src, idx=idx)
                    for var in (0, 1):
                        o.fop("add", s, path, i, src=src, var=var)
                        if f.rcap > 1:
                            o.fop("xcpy", s, path, i, src=src, var=var, idx=f.rcap - 1)
                continue
            for x in range(nv):
                v = val(f, x)
                for var in (0, 1):
                    o.fop("add", s, path, i, vals=[v], var=var)
                o.fop("radd", s, path, i, vals=[v], var=1)
                for idx in list(range(f.rcap + 1)) + [HUGE]:
                    for op in ("seti", "muti", "rset", "rget"):
                        o.fop(op, s, path, i, vals=[v], idx=idx, var=x % 2)
                for n in range(f.rcap + 2):
                    o.fop("sdata", s, path, i, vals=[val(f, (x + j) % nv) for j in range(n)], idx=n)
                    if 0 < n < f.rcap:
                        o.fop("xcpy", s, path, i, vals=[val(f, (x + j) % nv) for j in range(n)], var=x % 2, idx=n)
        elif f.k == "msg":
            o.fop("mut", s, path, i)
            o.fop("mclr", s, path, i)
            src = next((j + 1 for j, t in enumerate(o.types) if t is f.msg and j + 1 != s), None)
            if src:
                o.fop("set", s, path, i, src=src)
                o.fop("set", s, path, i, src=src, var=1)
                o.fop("mset", s, path, i, src=src)
            field_ops(o, s, path + [[i]], f.msg, nv)
        elif f.k in ("string", "bytes"):
            o.fop("mut", s, path, i)
            o.fop("sclr", s, path, i)
            for x in range(nv):
                v = val(f, x)
                o.fop("set", s, path, i, vals=[v])
                o.fop("sset", s, path, i, vals=[v])
                o.fop("sasg", s, path, i, vals=[v], var=1)
                if f.k == "string" and b"\0" not in v:
                    o.fop("scstr", s, path, i, vals=[v], var=x % 2)
            o.fop("sset", s, path, i, vals=[b"B" * (f.cap + 1)])
            o.fop("sasg", s, path, i, vals=[b"A" * (f.cap + 1)], var=1)
            if f.k == "string":
                o.fop("scstr", s, path, i, vals=[b"A" * (f.cap + 2)], var=0)
                o.fop("snull", s, path, i, var=0)
                o.fop("snull", s, path, i, var=1)
            for idx in list(range(f.cap + 1)) + [HUGE]:
                for c in (b"A", b"\0"):
                    o.fop("sidx", s, path, i, vals=[c], idx=idx, var=len(path) % 2)
        else:
            for x in range(nv):
                o.fop("set", s, path, i, vals=[val(f, x)], var=0)
                if not f.oo and f.k != "enum":
                    o.fop("mset", s, path, i, vals=[val(f, x)])
            if not f.oo and f.k != "enum":
                o.fop("mut", s, path, i)


def encodings(m, nv, depth=0):
    """One record per field and value; sub-messages empty, with one and two records."""
    res = []
    for f in m.fields:
        if f.k == "msg":
            subs = encodings(f.msg, nv, depth + 1)
            res += [varint(f.num << 3 | 2) + varint(len(p)) + p for p in [b""] + subs[:6] + [a + b for a, b in zip(subs, subs[1:])][:2]]
        else:
            res += [enc(f, val(f, x)) for x in range(nv)]
            if f.lab == "rep" and f.k in sch.WIDTH:
                one = val(f, 1)
                p = (one if f.k == "float" else varint(int.from_bytes(one, "little")))
                res += [varint(f.num << 3 | 2) + varint(len(p) * n) + p * n for n in (0, 2)]
    return res


class Graph:
    """The reachable states of the machine for slots of the given types (by name) under all operations on some of them.
    only: names of the fields operated on, des: decode all single records or that many of them."""
    def __init__(self, c, types, slots=(1,), nv=2, only=None, whole=True, des=True):
        ctx, s = c.ctx, c.mini
        self.c, self.slots = c, slots
        by = {m.name: m for m in s.msgs}
        ts = [by[t] for t in types]
        self.o = o = Recorder(c.g, s, c.drv.base(s), ts)
        for sl in slots:
            m = ts[sl - 1]
            other = next((j + 1 for j, t in enumerate(ts) if t is m and j + 1 != sl), None)
            field_ops(o, sl, [], m, nv, other, only)
            if whole:
                o.plain("new", sl)
                o.plain("clear", sl)
                o.plain("asg", sl, sl)
                if other:
                    for op in ("cpy", "mov", "asg", "masg"):
                        o.plain(op, sl, other)
            if des:
                ds = encodings(m, nv)
                for i, d in enumerate(ds if des is True else [ds[k * len(ds) // des] for k in range(min(des, len(ds)))]):
                    o.des(sl, d, kind=i % 6)
        self.ops = o.take()
        sf = ctx.work.write("mini_schema.json", json.dumps(s.tla()))
        mf = ctx.work.write("mc_%s.json" % "_".join(types), json.dumps(dict(types=[t.idx for t in ts], ops=[e for _, e in self.ops], print=True, show=True)))
        rc, out = run.tlc("MCObjects.tla", "MCObjects.cfg", dict(VP_MC=mf, VP_SCHEMA=sf), workers=1, heap="4g")
        if "Model checking completed. No error has been found." not in out:
            raise run.Inconclusive("model check of the object specification failed: " + out[-2500:])
        st, tr = run.tlc_counts(out)
        ctx.states += st
        ctx.transitions += tr
        out = re.sub(r"\n\s*", " ", out)
        self.edges, self.init, found = collections.defaultdict(dict), None, 0
        for m in re.finditer(r'<<\s*"EDGE", "([^"]*)", (\d+), "([^"]*)"\s*>>', out):
            a, k, b = m.group(1), int(m.group(2)) - 1, m.group(3)
            self.init = a if self.init is None else self.init
            self.edges[a][k] = b
            found += 1
        self.enc = {}
        for m in re.finditer(r'<<\s*"STATE", "([^"]*)", "([^"]*)", "([^"]*)"\s*>>', out):
            self.enc[m.group(1)] = ([bytes(x) for x in json.loads(m.group(2))], [sorted(x) for x in json.loads(m.group(3))])
        if found != out.count('"EDGE"') or not set(self.edges) <= set(self.enc):
            raise run.Inconclusive("model output not understood")
        for a in self.enc:
            self.edges[a]
        ctx.count("model_states_walked", len(self.edges))
        r = ctx.rng
        self.par, q = {self.init: None}, collections.deque([self.init])
        while q:
            a = q.popleft()
            for k in r.sample(sorted(self.edges[a]), len(self.edges[a])):
                b = self.edges[a][k]
                if b not in self.par:
                    self.par[b] = (a, k)
                    q.append(b)
        assert set(self.par) == set(self.edges)

    def path(self, b):
        p = []
        while self.par[b]:
            b, k = self.par[b]
            p.append(k)
        return p[::-1]

    def trace(self, more=()):
        """A new trace, possibly with more slots."""
        return Recorder(self.c.g, self.o.s, self.o.base, self.o.types + list(more))

    def put(self, t, k):
        t.cmds.append(self.ops[k][0])
        t.evs.append(self.ops[k][1])

    def states(self, fn, more=(), most=None):
        """fn(trace, encodings, boundaries) in every state (or most of them), each reached by a shortest way from a new message."""
        sts = list(self.par)
        if most and len(sts) > most:
            sts = self.c.ctx.rng.sample(sts, most)
        for a in sts:
            t = self.trace(more)
            for k in self.path(a):
                self.put(t, k)
            fn(t, *self.enc[a])
            self.c.add(t)

    def tour(self, per=40):
        """Traces that together take every transition."""
        c, edges, r = self.c, self.edges, self.c.ctx.rng
        c.ctx.count("model_transitions_walked", sum(len(e) for e in edges.values()))
        left = {a: r.sample(sorted(e), len(e)) for a, e in edges.items()}

        def near(x):
            """The shortest way to a state with open work."""
            seen, q = {x: ()}, collections.deque([x])
            while q:
                a = q.popleft()
                if left[a]:
                    return seen[a], a
                if len(seen[a]) >= 2:
                    continue
                for k, b in edges[a].items():
                    if b not in seen:
                        seen[b] = seen[a] + (k,)
                        q.append(b)
            return None
        shown = set()
        for a in self.par:
            while left[a]:
                t = self.trace()
                for k in self.path(a):
                    self.put(t, k)
                x, end = a, len(t.cmds) + per
                while len(t.cmds) < end:
                    if not left[x]:
                        w = near(x)
                        if not w:
                            break
                        for k in w[0]:
                            self.put(t, k)
                        x = w[1]
                    if x not in shown:
                        shown.add(x)
                        for sl in self.slots:
                            t.ser(sl, cap="@%d" % r.choice([0, 1, -1, -2]), kind=r.choice([0, 1, 2]))
                    k = left[x].pop()
                    self.put(t, k)
                    x = edges[x][k]
                c.add(t)
        assert not any(left.values()), "tour incomplete"


def graphs(c, cfgs):
    """Several graphs, model checked in parallel. cfgs: [(types, slots, keyword arguments)]"""
    with cf.ThreadPoolExecutor(6) as ex:
        return list(ex.map(lambda a: Graph(c, a[0], a[1], **(a[2] if len(a) > 2 else {})), cfgs))


ALPHABET = {"Leaf": [0x08, 0x10, 0x00, 0x01, 0x80, 0x1a, 0x02, 0x7f],
            "Mix": [0x08, 0x10, 0x1a, 0x22, 0x2a, 0x35, 0x00, 0x01, 0x02, 0x80, 0x42, 0x41]}


def strings(c, name, alphabet, length, fn, most=None, per=60):
    """All byte strings over the alphabet that are not rejected before their last byte, enumerated by TLC (MCBytes). fn(trace, bytes)."""
    ctx, s = c.ctx, c.mini
    m = next(m for m in s.msgs if m.name == name)
    sf = ctx.work.write("mini_schema.json", json.dumps(s.tla()))
    mf = ctx.work.write("mcb_%s.json" % name, json.dumps(dict(m=m.idx, alphabet=alphabet, len=length)))
    rc, out = run.tlc("MCBytes.tla", "MCBytes.cfg", dict(VP_MC=mf, VP_SCHEMA=sf), workers=4, heap="6g")
    if "Model checking completed. No error has been found." not in out:
        raise run.Inconclusive("model check of decoding failed: " + out[-2500:])
    st, tr = run.tlc_counts(out)
    ctx.states += st
    ctx.transitions += tr
    ds = [bytes(json.loads(x)) for x in re.findall(r'"STR:([^"]*)"', out)]
    if len(set(ds)) != st:
        raise run.Inconclusive("model output not understood")
    ctx.count("model_byte_strings", len(ds))
    if most and len(ds) > most:
        short = [d for d in ds if len(d) < length]
        ds = short[:most] + ctx.rng.sample([d for d in ds if len(d) == length], max(0, most - len(short)))
    ctx.rng.shuffle(ds)
    for i in range(0, len(ds), per):
        t = Recorder(c.g, s, c.drv.base(s), [m, m])
        for d in ds[i:i + per]:
            fn(t, d)
        c.add(t)
