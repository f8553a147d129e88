"""The buffers (C08, C09): TLC explores the machines of spec/Buffers.tla with small capacities completely, every transition is
walked in the real classes, and these as well as long random histories are validated by TLC against the specification."""
import collections, json, os, re, subprocess, concurrent.futures as cf
import build, run
from build import VERIF

HUGE = 1000000000
CAPS = [1, 2, 3, 4, 5, 7, 8, 13, 33, 255, 256, 300, 70000]
SENTINEL = 0xA5


def clip(n):
    return min(n, HUGE)


class BTrace:
    def __init__(self, kind, cap, mem=None):
        self.kind, self.cap, self.mem = kind, cap, mem or []
        self.ops, self.out, self.crash = [], None, None

    def add(self, o):
        """o: dict as in the specification, with n unclipped."""
        self.ops.append(o)

    def text(self):
        l = ["T %s %d%s" % (self.kind, self.cap, "".join(" %d" % b for b in self.mem))]
        for o in self.ops:
            l.append(" ".join([o["op"]] + [str(o[k]) for k in ("l", "n", "b") if k in o] + [str(b) for b in o.get("a", [])]))
        return "\n".join(l) + "\n"

    def json(self, tid):
        evs = []
        for o, r in zip(self.ops, self.out):
            o = dict(o)
            if "n" in o:
                o["n"] = clip(o["n"])
            evs.append(dict(o=o, **r))
        k = "read" if self.kind == "stream" else self.kind
        return json.dumps(dict(id=tid, k=k, cap=self.cap, total=self.kind == "read", mem=self.mem or [0] * self.cap, w=len(self.mem), ev=evs), separators=(",", ":"))


class Bufs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = build.compile_all([os.path.join(VERIF, "cpp", "bufdrv.cpp")], ctx.work.path("bufdrv"), build.SAN, [], opt="-O1")
        self.traces = []

    def execute(self, trs):
        todo = list(trs)
        while todo:
            r = subprocess.run([self.exe], input="".join(t.text() for t in todo), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=build.ENV, timeout=600)
            lines, k, done = r.stdout.split("\n"), 0, 0
            for t in todo:
                got = [x for x in lines[k:k + len(t.ops)] if x.endswith("}}") or x.endswith("}")]
                k += len(t.ops)
                t.out = [json.loads(x) for x in got]
                done += 1
                if len(got) < len(t.ops):
                    if r.returncode in (0, 97):
                        raise run.Inconclusive("buffer driver: " + r.stderr[-500:])
                    t.crash = "exit %d in operation %d (%s): %s" % (r.returncode, len(got) + 1, t.ops[len(got)], " ".join(r.stderr.split("\n")[:10])[:900])
                    break
            todo = todo[done:]

    def finish(self):
        ctx, trs = self.ctx, [t for t in self.traces if t.ops]
        n = 8
        with cf.ThreadPoolExecutor(n) as ex:
            list(ex.map(self.execute, [trs[i::n] for i in range(n)]))
        for t in trs:
            if t.crash:
                ctx.violate("the code under test died: " + t.crash, dict(driver_input=t.text()))
        size = 4000

        def one(a):
            j, ids = a
            tf = ctx.work.path("b_%d.ndjson" % j)
            with open(tf, "w") as f:
                for i in ids:
                    f.write(trs[i].json(i) + "\n")
            rc, out = run.tlc("TraceBuffers.tla", "TraceBuffers.cfg", dict(VP_TRACES=tf), workers=1, heap="3g")
            if "Model checking completed. No error has been found." not in out:
                raise run.Inconclusive("TLC: " + out[-2000:])
            done = {int(re.match(r'<<"DONE", (\d+)', x).group(1)) for x in run.records(out, "DONE")}
            rej = []
            for x in run.records(out, "REJECT"):
                m = re.match(r'<<"REJECT", (\d+), (\d+), (.*)>>$', x)
                rej.append((int(m.group(1)), int(m.group(2)), m.group(3)))
            miss = set(ids) - done - {r[0] for r in rej}
            if miss:
                raise run.Inconclusive("TLC did not finish traces %s" % sorted(miss)[:4])
            return run.tlc_counts(out), rej, len(done)
        ids = [i for i, t in enumerate(trs) if t.out]
        ids.sort(key=lambda i: -len(trs[i].ops))
        nch = max(8, (len(ids) + size - 1) // size)
        chunks = [(j, ids[j::nch]) for j in range(nch) if ids[j::nch]]
        with cf.ThreadPoolExecutor(8) as ex:
            for (st, tr), rej, done in ex.map(one, chunks):
                ctx.states += st
                ctx.transitions += tr
                ctx.traces += done
                for i, l, why in rej:
                    t = trs[i]
                    ctx.violate("%s buffer of %d: operation %d %s observed %s; specification in state and outcomes: %s" % (
                        t.kind, t.cap, l, t.ops[l - 1], t.out[l - 1], why[:500]), dict(driver_input=t.text(), event=l, observed=t.out[l - 1], expected=why))
        ctx.count("operations_executed", sum(len(t.ops) for t in trs))
        for t in ctx.rng.sample(trs, min(2, len(trs))):
            ctx.sample(dict(kind=t.kind, cap=t.cap, ops=t.ops[:6], observed=t.out[:3]))

    # ---------------------------------------------------------------------------------------- complete small models
    def explore(self, cfg):
        """Model check the machine and walk every transition."""
        ctx = self.ctx
        f = ctx.work.write("mc_%s_%d.json" % (cfg["k"], cfg["cap"]), json.dumps(dict(cfg, print=True)))
        rc, out = run.tlc("MCBuffers.tla", "MCBuffers.cfg", dict(VP_MC=f), workers=1, heap="3g")
        if "Model checking completed. No error has been found." not in out:
            raise run.Inconclusive("model check of the buffer specification failed: " + out[-2500:])
        st, tr = run.tlc_counts(out)
        ctx.states += st
        ctx.transitions += tr
        edges, found = collections.defaultdict(dict), 0
        for m in re.finditer(r'<<\s*"EDGE", "((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)"\s*>>', re.sub(r"\n\s*", " ", out)):
            a, o, b = (x.replace('\\"', '"') for x in m.groups())
            edges[a][o, b] = True
            found += 1
        if found != out.count('"EDGE"'):
            raise run.Inconclusive("transitions not understood")
        allst = set(edges) | {b for e in edges.values() for _, b in e}
        init = next(iter(edges))
        n = sum(len({o for o, _ in e}) for e in edges.values())
        ctx.count("model_transitions_walked", n)
        ctx.count("model_states_walked", len(allst))
        self.tour(cfg, edges, init)

    def tour(self, cfg, edges, init):
        left = {a: {o for o, _ in e} for a, e in edges.items()}
        succ = {a: {o: b for o, b in e} for a, e in edges.items()}
        total = sum(len(x) for x in left.values())
        par = {init: None}
        q = collections.deque([init])
        while q:
            a = q.popleft()
            for o, b in edges.get(a, {}):
                if b not in par:
                    par[b] = (a, o)
                    q.append(b)

        def path(b):
            p = []
            while par[b]:
                b, o = par[b]
                p.append(o)
            return p[::-1]
        # One start per state with open work; walk on greedily from there.
        for a in list(par):
            while left.get(a):
                t = BTrace("stream" if cfg["k"] == "read" and not cfg["total"] else cfg["k"], cfg["cap"],
                           None if cfg["total"] or cfg["k"] != "read" else list(range(1, cfg["cap"] + 1)))
                for o in path(a):
                    t.add(self.real(o))
                x, n = a, 0
                while n < 60 and left.get(x):
                    o = min(left[x])
                    left[x].discard(o)
                    t.add(self.real(o))
                    x = succ[x][o]
                    n += 1
                self.traces.append(t)
        assert not any(left.values()), "tour incomplete"

    def real(self, o):
        """An operation of the model; Huge stands for any length that does not fit, pick one."""
        o = json.loads(o)
        if o.get("n") == HUGE:
            o["n"] = self.ctx.rng.choice([HUGE, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, (1 << 32) - 2, (1 << 32) - 3, (1 << 32) - 4])
        return o

    # ---------------------------------------------------------------------------------------- random histories
    def byte(self):
        b = self.ctx.rng.randrange(256)
        return b if b != SENTINEL else 0

    def length(self, cap, at=0):
        r = self.ctx.rng
        x = r.random()
        if x < .45:
            return r.randint(0, min(cap + 2, 12))
        if x < .7:
            return max(0, r.choice([cap, cap - at, cap - at + 1, cap - at - 1, cap + 1, cap - 1]))
        if x < .85:
            return r.randint(0, cap + 2)
        big = r.choice([1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32])
        return max(0, min((1 << 32) - 1, big + r.choice([0, -1, 1, -at, cap - at, -cap, 1 - at])))

    def random_write(self, n):
        r = self.ctx.rng
        for _ in range(n):
            kind = "write" if r.random() < .85 else "count"
            cap = r.choice(CAPS) if r.random() < .9 else 3
            if cap == 70000 and r.random() < .8:
                cap = 300
            t, size, total = BTrace(kind, cap), 0, 0
            for _ in range(r.choice([6, 15, 40])):
                x = r.random()
                if x < .4:
                    t.add(dict(op="push", b=self.byte()))
                    size = min(cap, size + 1)
                elif x < .93:
                    m = self.length(cap, size)
                    if kind == "count":
                        total += m
                        if m > 80000 and total > 500000000:
                            m = 3
                    ok = kind == "count" or m <= cap - size
                    t.add(dict(op="pusha", n=m, a=[self.byte() for _ in range(m)] if kind == "write" and m <= cap - size
                               else [self.byte() for _ in range(min(m, 40))]))
                    if ok and kind == "write":
                        size += m
                else:
                    t.add(dict(op="clear"))
                    size = 0
            self.traces.append(t)

    def random_read(self, n):
        r = self.ctx.rng
        for _ in range(n):
            kind = r.choice(["read", "read", "stream"])
            cap = r.choice(CAPS[:-1])
            t = BTrace(kind, cap, [self.byte() for _ in range(cap)] if kind == "stream" else None)
            depth, at, w = 0, 0, 0
            if kind == "read" and r.random() < .9:
                if r.random() < .5:
                    for _ in range(r.randint(1, min(cap + 1, 20))):
                        t.add(dict(op="push", b=self.byte()))
                        w = min(cap, w + 1)
                else:
                    for i in range(min(cap, 12)):
                        t.add(dict(op="poke", n=i if r.random() < .7 else r.randrange(cap), b=self.byte()))
                    t.add(dict(op="setw", n=r.choice([cap, cap, max(1, cap // 2), self.length(cap)])))
                    w = cap
            # Sections usually are used one inside the other, but any layer may be read at any time.
            top = r.random() < .6
            for _ in range(r.choice([8, 20, 50])):
                l = depth if top and r.random() < .9 else r.randint(0, depth)
                x = r.random()
                if x < .13:
                    t.add(dict(op="peek", l=l))
                elif x < .4:
                    t.add(dict(op="pop", l=l))
                    at += 1
                elif x < .55:
                    t.add(dict(op="adv", l=l))
                    at += 1
                elif x < .72:
                    t.add(dict(op="advn", l=l, n=self.length(cap, min(at, cap)) if r.random() < .5 else r.randint(0, 3)))
                    at += 1
                elif x < .83 and depth < 4:
                    t.add(dict(op="open", n=self.length(cap, min(at, cap))))
                    depth += 1
                elif x < .92 and depth:
                    t.add(dict(op="close"))
                    depth -= 1
                elif kind == "read":
                    y = r.random()
                    if y < .6:
                        t.add(dict(op="push", b=self.byte()))
                    elif y < .75:
                        t.add(dict(op="poke", n=r.randrange(cap), b=self.byte()))
                    elif y < .9:
                        t.add(dict(op="setw", n=self.length(cap, min(at, cap))))
                    else:
                        t.add(dict(op="clear"))
                        at = 0
            self.traces.append(t)


    def large_read(self, n):
        """Positions and lengths beyond 16 bits."""
        r, edge = self.ctx.rng, [255, 256, 257, 65535, 65536, 65537, 69999, 70000]
        for i in range(n):
            kind = "read" if i % 2 else "stream"
            t = BTrace(kind, 70000, [self.byte() for _ in range(70000)] if kind == "stream" else None)
            if kind == "read":
                for k in edge[:-1]:
                    t.add(dict(op="poke", n=k, b=self.byte()))
                t.add(dict(op="setw", n=r.choice([65535, 65536, 65537, 69999, 70000])))
            depth, at = 0, 0
            for _ in range(r.choice([6, 12])):
                l = depth if r.random() < .7 else r.randint(0, depth)
                x = r.random()
                m = max(0, r.choice(edge) - r.choice([0, 0, 1, at]))
                if x < .35:
                    t.add(dict(op="advn", l=l, n=m))
                    at = min(70000, at + m)
                elif x < .6:
                    t.add(dict(op=r.choice(["pop", "adv"]), l=l))
                    at += 1
                elif x < .8 and depth < 2:
                    t.add(dict(op="open", n=m))
                    depth += 1
                elif x < .9 and depth:
                    t.add(dict(op="close"))
                    depth -= 1
                elif kind == "read":
                    t.add(dict(op="push", b=self.byte()))
                else:
                    t.add(dict(op="peek", l=l))
            self.traces.append(t)


def c08(ctx):
    b = Bufs(ctx)
    for cap in ([1, 2, 3, 4] if not ctx.thorough else [1, 2, 3, 4, 5]):
        b.explore(dict(k="write", cap=cap, total=False, depth=0, ns=list(range(0, cap + 2)) + [HUGE]))
    b.explore(dict(k="count", cap=1, total=False, depth=0, ns=[0, 1, 2, 5]))
    b.random_write(ctx.scale(1500, 30000))
    b.finish()


def c09(ctx):
    b = Bufs(ctx)
    caps = [(1, 2), (2, 2), (3, 1)] if not ctx.thorough else [(1, 3), (2, 3), (3, 2), (4, 1), (5, 1)]
    for cap, depth in caps:
        for total in (True, False):
            b.explore(dict(k="read", cap=cap, total=total, depth=depth, ns=list(range(0, cap + 2)) + [HUGE]))
    b.random_read(ctx.scale(2500, 40000))
    b.large_read(ctx.scale(16, 200))
    b.finish()
