"""Runs traces in the driver, validates the recorded executions with TLC."""
import json, os, re, subprocess, time, concurrent.futures as cf
import schema as sch, glue, build
from build import VERIF

JAVA = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx6g", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class Inconclusive(Exception):
    """The machinery could not decide: exit 2."""


class Trace:
    def __init__(self, tid, ops, note=""):
        self.id, self.note = tid, note
        self.schema, self.types = ops.s, ops.types
        self.head, self.cmds, self.evs = ops.head(), ops.cmds, ops.evs
        self.out = None             # recorded observations
        self.crash = None

    def text(self):
        return "\n".join([self.head] + self.cmds) + "\n"


def tlc(module, cfg, env, workers=4, timeout=800, extra=(), heap=None):
    """Run TLC in a metadata directory of its own; returns stdout."""
    import tempfile, shutil
    md = tempfile.mkdtemp(prefix="vp_tlc_")
    try:
        java = [("-Xmx" + heap) if a == "-Xmx6g" and heap else a for a in JAVA]
        try:
            r = subprocess.run(java[:1] + ["-Djava.io.tmpdir=" + md] + java[1:] + ["-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module],
                               cwd=os.path.join(VERIF, "spec"), env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("TLC did not finish in %d s" % timeout)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ",").replace("\u00a0", ""))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(b.replace(",", "")), int(a.replace(",", ""))


def records(out, head):
    """The printed tuples <<"head", ...>>, possibly over several lines, as raw text."""
    out = re.sub(r'<<\s+', '<<', re.sub(r'\s+>>', '>>', out))
    res = []
    i = 0
    key = '<<"%s"' % head
    while True:
        i = out.find(key, i)
        if i < 0:
            return res
        depth, j = 0, i
        while j < len(out):
            if out.startswith("<<", j):
                depth += 1
                j += 2
            elif out.startswith(">>", j):
                depth -= 1
                j += 2
                if depth == 0:
                    break
            else:
                j += 1
        res.append(re.sub(r"\s+", " ", out[i:j]))
        i = j


class Driver:
    """The compiled driver for a list of schemas."""
    def __init__(self, work, schemas, opt="-O0", nunits=8, std="c++14", defs=()):
        self.w, self.schemas = work, schemas
        self.bases, b = [], 0
        for s in schemas:
            self.bases.append(b)
            b += len(s.msgs)
        ss = [(chr(65 + i), s) for i, s in enumerate(schemas)]
        names = []
        for pre, s in ss:
            n = s.name.replace(".", "_") + ".proto"
            work.write("proto/" + n, s.proto())
            names.append(n)
        rc, err = work.generate(names, work.path("gen"), work.path("proto"))
        if rc:
            raise build.GeneratorError(err)
        work.write("gen/types.h", glue.header(ss))
        us = [work.write("u%d.cpp" % i, x) for i, x in enumerate(glue.units(ss, nunits))]
        us += [work.write("table.cpp", glue.table(ss)), os.path.join(VERIF, "cpp", "driver.cpp")]
        self.exe = build.compile_all(us, work.path("driver"), build.SAN + list(defs), [work.path("gen"), os.path.join(VERIF, "cpp")], opt=opt, std=std)

    def base(self, s):
        return self.bases[self.schemas.index(s)]

    def _run(self, traces):
        """Execute traces in one process; on a crash restart behind the crashing trace."""
        todo = list(traces)
        while todo:
            inp = "".join(t.text() for t in todo)
            try:
                r = subprocess.run([self.exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=build.ENV, timeout=600)
            except subprocess.TimeoutExpired:
                raise Inconclusive("driver did not finish")
            lines = r.stdout.split("\n")
            k, done = 0, 0
            for t in todo:
                got = [x for x in lines[k:k + len(t.cmds)] if x.startswith("{") and x.endswith("}")]
                k += len(t.cmds)
                if len(got) == len(t.cmds):
                    t.out = [json.loads(x) for x in got]
                    done += 1
                    continue
                if r.returncode == 97:
                    raise Inconclusive("driver: " + r.stderr[-500:])
                t.out = [json.loads(x) for x in got]
                t.crash = "exit %s in operation %d (%s): %s" % (r.returncode, len(got) + 1, t.cmds[min(len(got), len(t.cmds) - 1)][:200],
                                                              " ".join(r.stderr.split("\n")[:12])[:900])
                done += 1
                break
            if r.returncode == 0 and done != len(todo):
                raise Inconclusive("driver lost output")
            todo = todo[done:]

    def run(self, traces, jobs=8):
        n = max(1, min(jobs, len(traces)))
        with cf.ThreadPoolExecutor(n) as ex:
            list(ex.map(self._run, [traces[i::n] for i in range(n)]))


def weight(t):
    """What a trace costs TLC, roughly."""
    return sum(60 + len(t.cmds[i]) // 4 + len(str(o)) for i, o in enumerate(t.out))


def validate_all(work, jobs, judge, procs=8, timeout=800):
    """Let TLC decide which recorded traces the specification allows. jobs: [(schema, traces)].
    Yields for each part (schema, dict(rejects=[(trace, event, clauses, why)], findings, states, transitions, done))."""
    jf = work.write("judge.json", json.dumps(sorted(judge)))
    todo = []
    total = sum(weight(t) for _, ts in jobs for t in ts if t.out) or 1
    for n, (schema, traces) in enumerate(jobs):
        sf = work.write("%d_schema.json" % n, json.dumps(schema.tla()))
        ts = sorted((t for t in traces if t.out), key=weight, reverse=True)
        w = sum(weight(t) for t in ts)
        # as many parts as the share of the work deserves, none too large
        k = max(1, round(1.5 * procs * w / total), sum(len(t.cmds) for t in ts) // 12000)
        k = min(k, len(ts))
        todo += [(w / k, schema, sf, ts[i::k], "%d_%d" % (n, i)) for i in range(k)]
    todo.sort(key=lambda x: -x[0])

    def one(a):
        _, schema, sf, ch, tag = a
        byid = {t.id: t for t in ch}
        tf = work.path("t_%s.ndjson" % tag)
        with open(tf, "w") as f:
            for t in ch:
                evs = []
                for e, o in zip(t.evs, t.out):
                    x = dict(e)
                    x.update(o)
                    evs.append(x)
                f.write(json.dumps(dict(id=t.id, m=[m.idx for m in t.types], ev=evs), separators=(",", ":")) + "\n")
        t0 = time.time()
        rc, out = tlc("TraceObjects.tla", "TraceObjects.cfg", dict(VP_SCHEMA=sf, VP_TRACES=tf, VP_JUDGE=jf), workers=1, timeout=timeout, heap="3g")
        if os.environ.get("VP_TIME"):
            print("  tlc %-6s %5d traces %6d events %5.1f s %s" % (tag, len(ch), sum(len(t.cmds) for t in ch), time.time() - t0, schema.name), flush=True)
        if "Model checking completed. No error has been found." not in out:
            raise Inconclusive("TLC: " + out[-3000:])
        rej = []
        for x in records(out, "REJECT"):
            m = re.match(r'<<"REJECT", (\d+), (\d+), (\{[^}]*\}), (.*)>>$', x)
            rej.append((byid[int(m.group(1))], int(m.group(2)), m.group(3), m.group(4)))
        done = {int(re.match(r'<<"DONE", (\d+)', x).group(1)) for x in records(out, "DONE")}
        missing = set(byid) - done - {r[0].id for r in rej}
        if missing:
            raise Inconclusive("TLC did not finish traces %s" % sorted(missing)[:5])
        st, tr = tlc_counts(out)
        os.unlink(tf)
        return schema, dict(rejects=rej, findings=records(out, "FINDING"), states=st, transitions=tr, done=len(done), other=len(records(out, "OTHER")))

    with cf.ThreadPoolExecutor(procs) as ex:
        yield from ex.map(one, todo)
