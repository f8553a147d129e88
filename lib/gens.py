"""Checks of the code generator: C15 (translation), C16 (refusal, determinism), C19 (identifiers).

Programs (sets of proto files) are made here; the specification Gen.tla decides with TLC which must be accepted and what
the generated classes must look like, and judges what was observed of the generated code (TraceGen.tla)."""
import json, os, random, subprocess, sys, concurrent.futures as cf
import build, run
from build import VERIF, REPO

SCALARS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "float", "double"]
CPP = dict(int32="int32_t", int64="int64_t", uint32="uint32_t", uint64="uint64_t", sint32="int32_t", sint64="int64_t", fixed32="uint32_t",
           fixed64="uint64_t", sfixed32="int32_t", sfixed64="int64_t", bool="bool", float="float", double="double")
MSGNAMES = ["A", "B", "AB", "A_B", "Ab", "B_A", "Msg", "Msg1", "Msg12", "C", "Cc", "CA", "Inner", "InnerA"]
ENUMNAMES = ["E", "E1", "EA", "Kind", "KindB", "En"]
FIELDNAMES = ["a", "b", "c", "ab", "a_b", "x1", "x12", "x_1", "value", "camelCase", "CamelBig", "UP", "id", "name_of", "f", "g", "h", "data", "size", "k9",
              # what the generated functions call their parameters and variables
              "rhs", "buffer", "str", "index", "result", "return_value", "name", "field", "mask", "fields", "length", "type", "number", "tag", "error",
              "wire_type", "id_tag", "left_chars", "n_chars_used", "first_field", "indent_level", "field_id"]
ONEOFNAMES = ["o1", "pick", "which", "o_2", "choice", "payload", "message", "element", "kind"]


def pick_num(rng, used):
    while True:
        n = rng.choice([rng.randint(1, 15), rng.randint(1, 20), rng.randint(16, 2047), rng.randint(2048, 536870911), 536870911, 18999, 20000])
        if n not in used and not 19000 <= n <= 19999:
            return n


class Namer:
    """Names of one program; tag is part of what is global to keep programs apart."""
    def __init__(self, rng, tag):
        self.rng, self.tag = rng, tag

    def pick(self, pool, used, suffix=""):
        c = [n + suffix for n in pool if n + suffix not in used]
        if c:
            return self.rng.choice(c)
        i = 0
        while "%s%d%s" % (pool[0], i, suffix) in used:
            i += 1
        return "%s%d%s" % (pool[0], i, suffix)


def name_program(rng, tag, p):
    """Gives names and numbers to the files, messages, enums, fields of p (see Gen.tla), in place."""
    nm = Namer(rng, tag)
    paths = set()
    nfiles = len(p["files"])
    for i, f in enumerate(p["files"]):
        if "path" not in f:
            while True:
                base = rng.choice(["f", "f_a", "f-a", "f.a", "F", "sub/f", "sub_f", "sub/f_a", "sub/a/f", "sub_a/f", "g%d" % i])
                path = "%s/%s.proto" % (tag, base)
                if path not in paths:
                    break
            paths.add(path)
            f["path"] = path
        if "package" not in f:
            f["package"] = rng.choice([tag, tag, tag + ".a", tag + ".a.b", tag + ".b.a", tag + ".a.a", tag + ".ab", "" if rng.random() < 0.5 else tag])
    scope = {}
    for i, m in enumerate(p["msgs"], 1):
        f = p["files"][m["file"] - 1]
        key = ("m", m["parent"]) if m["parent"] else ("f", f["package"])
        used = scope.setdefault(key, set())
        anc = set()
        q = m["parent"]
        while q:
            anc.add(p["msgs"][q - 1]["name"])
            q = p["msgs"][q - 1]["parent"]
        suffix = "" if m["parent"] or f["package"] else "_" + tag
        if m.get("entry"):
            m["name"] = ""          # follows from the name of the field
            continue
        m["name"] = nm.pick(MSGNAMES, used | anc, suffix)
        used.add(m["name"])
    for e in p["enums"]:
        f = p["files"][e["file"] - 1]
        key = ("m", e["parent"]) if e["parent"] else ("f", f["package"])
        used = scope.setdefault(key, set())
        suffix = "" if e["parent"] or f["package"] else "_" + tag
        e["name"] = nm.pick(ENUMNAMES, used, suffix)
        used.add(e["name"])
        if "values" not in e:
            # The names of enum values are siblings of the enum.
            e["values"] = [["%s_%s" % (e["name"].upper() + ("Q" if rng.random() < 0.3 else ""), "ZERO"), 0]]
            for j in range(rng.randint(0, 4)):
                v = rng.choice([rng.randint(1, 20), rng.randint(1, 300), 2147483647, 127, 128, 16384, 65536])
                if v not in [x[1] for x in e["values"]] or rng.random() < 0.3:
                    e["values"].append(["%s_V%d" % (e["name"], j), v])
            for v in e["values"]:
                v[0] = "%s_%d" % (v[0], p["enums"].index(e))
    for m in p["msgs"]:
        used, nums = set(), set()
        nests = {x["name"].upper() for x in p["msgs"] + p["enums"] if x["parent"] and p["msgs"][x["parent"] - 1] is m}
        onames = set()
        nones = max([f["oo"] for f in m["fields"]] or [0])
        m["oneofs"] = []
        for _ in range(nones):
            n = nm.pick(ONEOFNAMES, onames)
            onames.add(n)
            m["oneofs"].append(n)
        for f in m["fields"]:
            # Names must also differ in their JSON form.
            key = lambda x: x.upper().replace("_", "")
            n = nm.pick([x for x in FIELDNAMES if key(x) not in used and x.upper() not in nests] or ["z%d" % len(used)], set())
            used.add(key(n))
            f["name"] = n
            f["num"] = pick_num(rng, nums)
            nums.add(f["num"])
    for m in p["msgs"]:
        if m.get("entry"):
            owner = p["msgs"][m["parent"] - 1]
            f = next(f for f in owner["fields"] if f["k"] == "msg" and p["msgs"][f["ref"] - 1] is m)
            m["name"] = "".join(w[:1].upper() + w[1:] for w in f["name"].split("_")) + "Entry"
            for f, n, k in zip(m["fields"], ("key", "value"), (1, 2)):
                f["name"], f["num"] = n, k


def fq(p, x):
    """Fully qualified name of a message or enum record."""
    n = x["name"]
    q = x["parent"]
    while q:
        n = p["msgs"][q - 1]["name"] + "." + n
        q = p["msgs"][q - 1]["parent"]
    pk = p["files"][x["file"] - 1]["package"]
    return "." + (pk + "." if pk else "") + n


def render(rng, p):
    """path -> proto text."""
    out = {}
    for fi, f in enumerate(p["files"], 1):
        noise = rng.random() < .4
        L = ["// A comment."] * noise + ['syntax = "%s";' % f["syntax"]]
        if noise and rng.random() < .5:
            L.append('option java_package = "vp.java";')
        if f["package"]:
            L.append("package %s;" % f["package"])
        if any(x["max"] for m in p["msgs"] if m["file"] == fi for x in m["fields"]):
            L.append('import "embedded_proto_options.proto";')
        for d, pub in zip(f["deps"], f.get("public", [0] * len(f["deps"]))):
            L.append('import %s"%s";' % ("public " if pub else "", p["files"][d - 1]["path"]))

        def fld(x, ind):
            t = x["k"] if x["k"] not in ("msg", "enum") else fq(p, p["msgs" if x["k"] == "msg" else "enums"][x["ref"] - 1])
            lab = {"one": "", "opt": "optional ", "rep": "repeated "}[x["lab"]]
            if f["syntax"] == "proto2" and not lab and not x["oo"]:
                lab = "optional "
            opts = ["(EmbeddedProto.options).maxLength = %d" % x["max"]] if x["max"] else []
            # What has no meaning for the generated code.
            if noise and rng.random() < .2:
                opts.insert(rng.randint(0, len(opts)), "deprecated = true")
            if noise and rng.random() < .1:
                opts.insert(rng.randint(0, len(opts)), 'json_name = "j%d"' % x["num"])
            if noise and lab == "repeated " and x["k"] not in ("msg", "string", "bytes") and rng.random() < .3:
                opts.insert(rng.randint(0, len(opts)), "packed = true")
            opt = " [%s]" % ", ".join(opts) if opts else ""
            if x["k"] == "msg" and p["msgs"][x["ref"] - 1].get("entry"):
                v = p["msgs"][x["ref"] - 1]["fields"][1]
                vt = v["k"] if v["k"] not in ("msg", "enum") else fq(p, p["msgs" if v["k"] == "msg" else "enums"][v["ref"] - 1])
                return "%smap<%s, %s> %s = %d%s;" % (ind, p["msgs"][x["ref"] - 1]["fields"][0]["k"], vt, x["name"], x["num"], opt)
            return "%s%s%s %s = %d%s;" % (ind, lab, t, x["name"], x["num"], opt)

        def enum(e, ind):
            L.append("%senum %s {" % (ind, e["name"]))
            if len({v for _, v in e["values"]}) < len(e["values"]):
                L.append("%s  option allow_alias = true;" % ind)
            for n, v in e["values"]:
                L.append("%s  %s = %d;" % (ind, n, v))
            L.append("%s}" % ind)

        def msg(i, ind):
            m = p["msgs"][i - 1]
            L.append("%smessage %s {" % (ind, m["name"]))
            if noise and rng.random() < .5:
                free = [n for n in (777777, 20, 536870909) if all(x["num"] != n for x in m["fields"])]
                L.append("%s  reserved %s; /* %s */" % (ind, ", ".join(map(str, free)), m["name"]) if free else "")
                L.append('%s  reserved "gone_%d";' % (ind, i))
                if rng.random() < .4:
                    L.append("%s  option deprecated = true;" % ind)
            # Nested definitions and fields in any order; the order of the fields and of the oneofs is kept.
            items = [("e", e) for e in p["enums"] if e["parent"] == i and e["file"] == fi]
            items += [("m", j) for j, n in enumerate(p["msgs"], 1) if n["parent"] == i and not n.get("entry")]
            rng.shuffle(items)
            fields, seen = [], 0
            for x in m["fields"]:
                if not x["oo"]:
                    fields.append(("f", x))
            pos = 0
            # Oneofs in order between the fields.
            for o in range(1, len(m["oneofs"]) + 1):
                pos = rng.randint(pos, len(fields))
                fields.insert(pos, ("o", o))
                pos += 1
            mixed = []
            while items or fields:
                src = items if items and (not fields or rng.random() < 0.5) else fields
                mixed.append(src.pop(0))
            for k, x in mixed:
                if k == "e":
                    enum(x, ind + "  ")
                elif k == "m":
                    msg(x, ind + "  ")
                elif k == "f":
                    L.append(fld(x, ind + "  "))
                else:
                    L.append("%s  oneof %s {" % (ind, m["oneofs"][x - 1]))
                    for y in m["fields"]:
                        if y["oo"] == x:
                            L.append(fld(y, ind + "    "))
                    L.append("%s  }" % ind)
            L.append("%s}" % ind)
        top = [("e", e) for e in p["enums"] if not e["parent"] and e["file"] == fi]
        top += [("m", j) for j, n in enumerate(p["msgs"], 1) if not n["parent"] and n["file"] == fi]
        rng.shuffle(top)
        for k, x in top:
            if k == "e":
                enum(x, "")
            else:
                msg(x, "")
        own = [n for n in p["msgs"] if not n["parent"] and n["file"] == fi]
        if noise and own and rng.random() < .5:
            L.append("service Vp%d { rpc Go(%s) returns (%s); }" % (rng.getrandbits(60), fq(p, own[0]), fq(p, own[-1])))
        out[f["path"]] = "\n".join(L) + "\n"
    return out


def random_program(rng, big=False, deep=False):
    nf = 1 if deep else rng.choice([1, 1, 2, 3] if not big else [1, 2, 3, 4])
    files = []
    for i in range(nf):
        deps = [d for d in range(1, i + 1) if rng.random() < 0.6]
        if i == nf - 1 and i and not deps:
            deps = [i]
        files.append(dict(syntax="proto3", deps=deps, public=[int(rng.random() < 0.25) for _ in deps]))
    if rng.random() < 0.04:
        files[-1]["syntax"] = "proto2"        # not used by the other files
    nm = rng.randint(5, 9) if deep else rng.randint(1, 6 if not big else 10)
    msgs, enums = [], []
    for i in range(nm):
        f = rng.randint(1, nf)
        par = [j for j, m in enumerate(msgs, 1) if m["file"] == f]
        parent = rng.choice(par) if par and rng.random() < 0.4 else 0
        if deep and par:
            # chains of nesting with several messages at the bottom
            parent = rng.choice([par[-1], par[-1], msgs[par[-1] - 1]["parent"], msgs[par[-1] - 1]["parent"], msgs[par[-1] - 1]["parent"], rng.choice(par)])
        msgs.append(dict(parent=parent, file=f, fields=[]))
    for i in range(rng.randint(0, 3)):
        f = rng.randint(1, nf)
        par = [j for j, m in enumerate(msgs, 1) if m["file"] == f]
        enums.append(dict(parent=rng.choice(par) if par and rng.random() < 0.5 else 0, file=f))
    vis = []
    for i, f in enumerate(files, 1):
        v = {i}
        todo = list(f["deps"])
        while todo:
            d = todo.pop()
            if d not in v:
                v.add(d)
                todo += [e for e, pub in zip(files[d - 1]["deps"], files[d - 1]["public"]) if pub]
        vis.append(v)
    rank = list(range(nm))
    rng.shuffle(rank)
    # A message is ranked after the ones inside it.
    wild = rng.random() < 0.2
    plain = rng.random() < 0.35          # few capacities as parameters
    for i, m in enumerate(msgs, 1):
        def inside(j, a):
            while j:
                if j == a:
                    return True
                j = msgs[j - 1]["parent"]
            return False
        cand = []
        for j, n in enumerate(msgs, 1):
            if j == i or n["file"] not in vis[m["file"] - 1]:
                continue
            if not wild and inside(i, j):
                continue
            if not wild and not inside(j, i) and n["file"] == m["file"] and rank[j - 1] >= rank[i - 1]:
                continue
            cand.append(j)
        ecand = [j for j, n in enumerate(enums, 1) if n["file"] in vis[m["file"] - 1]]
        noo = rng.choice([0, 0, 0, 1, 2])
        for _ in range(rng.randint(0, 3 if deep else 5 if not big else 8)):
            k = rng.choice(["msg", "msg", "msg", "enum", "uint32"] if deep else ["msg", "msg", "enum", "string", "bytes", "s", "s"])
            ref = 0
            if k == "msg":
                if not cand:
                    continue
                ref = rng.choice(cand)
            elif k == "enum":
                if not ecand:
                    continue
                ref = rng.choice(ecand)
            elif k == "s":
                k = rng.choice(SCALARS)
            oo = rng.randint(1, noo) if noo and rng.random() < 0.5 else 0
            lab = "one" if oo else rng.choice(["one", "one", "opt", "rep"])
            mx = 0
            if (k in ("string", "bytes") or lab == "rep") and rng.random() < (0.9 if plain else 0.3):
                mx = rng.randint(1, 9)
            m["fields"].append(dict(lab=lab, k=k, ref=ref, oo=oo, max=mx))
        # Oneofs are numbered without holes, in order of their position.
        used = sorted({f["oo"] for f in m["fields"]} - {0})
        for f in m["fields"]:
            if f["oo"]:
                f["oo"] = used.index(f["oo"]) + 1
    if files[-1]["syntax"] == "proto3" and rng.random() < 0.35:
        add_maps(rng, msgs)
    return dict(files=files, msgs=msgs, enums=enums)


def add_maps(rng, msgs):
    """Map fields: repeated messages of key and value inside the message."""
    for i in range(1, len(msgs) + 1):
        m = msgs[i - 1]
        if rng.random() < 0.5:
            refs = [f for f in m["fields"] if f["k"] in ("msg", "enum") and not msgs[f["ref"] - 1 if f["k"] == "msg" else 0].get("entry")]
            v = dict(lab="one", k=rng.choice(SCALARS + ["string", "bytes", "string"]), ref=0, oo=0, max=0)
            if refs and rng.random() < 0.5:
                x = rng.choice(refs)
                v.update(k=x["k"], ref=x["ref"])
            key = rng.choice(["int32", "uint64", "sint32", "bool", "string", "fixed32", "sfixed64"])
            msgs.append(dict(parent=i, file=m["file"], entry=True, fields=[dict(lab="one", k=key, ref=0, oo=0, max=0), v]))
            m["fields"].insert(rng.randint(0, len(m["fields"])), dict(lab="rep", k="msg", ref=len(msgs), oo=0, max=rng.choice([0, 0, 4])))


class Case:
    def __init__(self, i, prog, note=""):
        self.i, self.p, self.note = i, prog, note
        self.tag = "p%d" % i
        self.expect = self.result = None


def model_program(p):
    return dict(files=[dict(syntax=f["syntax"], deps=f["deps"]) for f in p["files"]],
                msgs=[dict(parent=m["parent"], file=m["file"], fields=[dict(lab=f["lab"], k=f["k"], ref=f["ref"], oo=f["oo"], max=f["max"],
                           name=f["name"], num=f["num"]) for f in m["fields"]]) for m in p["msgs"]],
                enums=[dict(parent=e["parent"], file=e["file"], values=e["values"]) for e in p["enums"]])


class Gens:
    def __init__(self, ctx):
        self.ctx, self.w = ctx, ctx.work
        self.w.setup_generator()
        self.cases = []
        self.src = self.w.path("protos")

    def add(self, prog, note=""):
        c = Case(len(self.cases), prog, note)
        rng = random.Random("%d/%s" % (self.ctx.seed, c.tag))
        name_program(rng, c.tag, prog)
        c.texts = render(rng, prog)
        for path, t in c.texts.items():
            self.w.write(os.path.join("protos", path), t)
        self.cases.append(c)
        return c

    def expectations(self):
        f = self.w.path("programs.ndjson")
        with open(f, "w") as o:
            for c in self.cases:
                o.write(json.dumps(model_program(c.p)) + "\n")
        rc, out = run.tlc("GenOracle.tla", "GenOracle.cfg", dict(VP_PROGRAMS=f), workers=8)
        n = 0
        for line in out.splitlines():
            if line.startswith('<<"EXPECT", '):
                i, rest = line[len('<<"EXPECT", '):].split(", ", 1)
                self.cases[int(i) - 1].expect = json.loads(json.loads(rest[:-2]))
                n += 1
        if rc or n != len(self.cases):
            raise run.Inconclusive("TLC gave %d of %d expectations\n%s" % (n, len(self.cases), out[-2000:]))
        a, b = run.tlc_counts(out)
        self.ctx.states += a
        self.ctx.transitions += b

    def generate(self):
        """Run the plugin on every program (all its files together)."""
        for c, r in zip(self.cases, self.plugin([list(c.texts) for c in self.cases])):
            c.result = r

    def plugin(self, jobs, hashseed="0"):
        """Run the plugin once per job, a list of files; returns the results in order."""
        dset = self.w.path("all.dset")
        if not os.path.exists(dset):
            lst = self.w.write("files.txt", "\n".join(p for c in self.cases for p in c.texts) + "\n")
            r = subprocess.run(["protoc", "-I", self.src, "-I", self.w.gen, "--include_imports", "--descriptor_set_out=" + dset, "@" + lst],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise run.Inconclusive("protoc refuses a program:\n" + "\n".join(x for x in r.stdout.splitlines() if "warning" not in x)[-2000:])
        n = self.ctx.extra.get("generator runs", 0)
        jf = self.w.write("jobs%d.json" % n, json.dumps(jobs))
        out = self.w.path("zy%d" % n)
        os.makedirs(out, exist_ok=True)
        r = subprocess.run([REPO + "/venv/bin/python", os.path.join(VERIF, "lib", "zygote.py"), dset, jf, out, "8"],
                           env=dict(build.ENV, PYTHONPATH=self.w.gen, PYTHONHASHSEED=hashseed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode:
            raise run.Inconclusive("running the plugin failed: " + r.stdout[-2000:])
        res = [None] * len(jobs)
        for w in range(8):
            for line in open(os.path.join(out, "out%d.ndjson" % w)):
                d = json.loads(line)
                res[d["i"]] = d
        if None in res:
            raise run.Inconclusive("the plugin was not run on all programs")
        self.ctx.traces += len(jobs)
        self.ctx.count("generator runs", len(jobs))
        return res

    @staticmethod
    def accepted(c):
        return c.result["rc"] == 0 and not c.result["error"]

    def replay(self, c, **kw):
        return dict(files=c.texts, expected=c.expect["reason"], note=c.note, **kw)

    def headers(self):
        return self.w.path("headers")

    def write_headers(self, c):
        for name, content in c.result["files"]:
            self.w.write(os.path.join("headers", name), content)


# ---------------------------------------------------------------- C++ for the accepted programs

def cpp_type(c, i, args=None):
    """The class of message i, the parameters of messages around it and of itself given."""
    p, np = c.p, c.expect["np"]
    chain = []
    q = i
    while q:
        chain.insert(0, q)
        q = p["msgs"][q - 1]["parent"]
    pk = p["files"][p["msgs"][i - 1]["file"] - 1]["package"]
    s = "".join("::" + x for x in pk.split(".") if x)
    for k, j in enumerate(chain):
        n = np[j - 1]
        a = args if j == i and args is not None else list(range(11, 11 + n))
        s += "::" + ("template " if n and k and any(np[z - 1] for z in chain[:k]) and False else "") + p["msgs"][j - 1]["name"]
        if n:
            s += "<" + ", ".join(map(str, a)) + ">"
    return s


def cpp_enum(c, e):
    p = c.p
    en = p["enums"][e - 1]
    if en["parent"]:
        return cpp_type(c, en["parent"]) + "::" + en["name"]
    pk = p["files"][en["file"] - 1]["package"]
    return "".join("::" + x for x in pk.split(".") if x) + "::" + en["name"]


def unit(c, ids):
    """C++ function body observing the classes of the program."""
    p = c.p
    L = ["static void run_%s()\n{" % c.tag]
    L.append('  std::printf("BEGIN %d\\n");' % c.i)
    inst = []
    for i, m in enumerate(p["msgs"], 1):
        t = cpp_type(c, i)
        tn = "T%d" % i
        L.append("  { using %s = %s;" % (tn, t))
        if c.expect["np"][i - 1] and not m["parent"]:
            inst.append("template class %s;" % t)
        L.append("    std::unique_ptr<%s> mp(new %s()); %s& m = *mp; use(m);" % (tn, tn, tn))
        for k, f in enumerate(m["fields"]):
            x = f["name"]
            cap = c.expect["caps"][i - 1][k]
            if f["lab"] == "rep":
                L.append('    std::printf("CAP %d %d rep %%lu\\n", (unsigned long)m.mutable_%s().get_max_length());' % (i, k, x))
                el = "typename std::decay<decltype(m.mutable_%s(0))>::type" % x
                if f["k"] in ("string", "bytes"):
                    L.append('    { %s e; std::printf("CAP %d %d len %%lu\\n", (unsigned long)e.get_max_length()); }' % (el.replace("typename ", ""), i, k))
                elif f["k"] == "msg":
                    L.append("    static_assert(std::is_same<%s, %s>::value, \"element type\");" % (el.replace("typename ", ""), cpp_type_of(c, i, f, cap)))
                elif f["k"] == "enum":
                    L.append("    { %s ev = m.get_%s(0); (void)ev; }" % (cpp_enum(c, f["ref"]), x) if False else "    (void)sizeof(%s);" % cpp_enum(c, f["ref"]))
            elif f["k"] in ("string", "bytes"):
                L.append('    std::printf("CAP %d %d len %%lu\\n", (unsigned long)m.mutable_%s().get_max_length());' % (i, k, x))
            elif f["k"] == "msg":
                L.append("    static_assert(std::is_same<std::decay<decltype(m.mutable_%s())>::type, %s>::value, \"type of %s\");" % (x, cpp_type_of(c, i, f, cap), x))
            elif f["k"] == "enum":
                L.append("    { m.set_%s(static_cast<%s>(0)); %s v = m.get_%s(); (void)v; }" % (x, cpp_enum(c, f["ref"]), cpp_enum(c, f["ref"]), x))
            else:
                L.append("    { const %s v = 1; m.set_%s(v); const %s r = m.get_%s(); (void)r; }" % (CPP[f["k"]], x, CPP[f["k"]], x))
        if ids:
            for k, f in enumerate(m["fields"]):
                u = f["name"].upper()
                L.append('    std::printf("NUM %d %d %%lu\\n", (unsigned long)%s::FieldNumber::%s);' % (i, k, tn, u))
                L.append('    str("NAME %d %d ", %s::%s_NAME);' % (i, k, tn, u))
                if f["oo"]:
                    if f["k"] in ("msg", "string", "bytes"):
                        L.append("    m.mutable_%s();" % f["name"])
                    elif f["k"] == "enum":
                        L.append("    m.set_%s(static_cast<%s>(0));" % (f["name"], cpp_enum(c, f["ref"])))
                    else:
                        L.append("    m.set_%s(%s(1));" % (f["name"], CPP[f["k"]]))
                    L.append('    std::printf("WHICH %d %d %%lu\\n", (unsigned long)m.get_which_%s());' % (i, k, m["oneofs"][f["oo"] - 1]))
            for n in c.probes[i - 1]:
                L.append('    str("LOOK %d %d ", %s::field_number_to_name(static_cast<%s::FieldNumber>(%dU)));' % (i, n, tn, tn, n))
            L.append('    std::printf("UNSET %d %%lu\\n", (unsigned long)%s::FieldNumber::NOT_SET);' % (i, tn))
        L.append("  }")
    for e, en in enumerate(p["enums"], 1):
        if ids:
            for j, (n, v) in enumerate(en["values"]):
                L.append('  std::printf("ENUM %d %d %%lu\\n", (unsigned long)%s::%s);' % (e, j, cpp_enum(c, e), n))
    L.append('  std::printf("END %d\\n");' % c.i)
    L.append("}")
    return inst + L


def cpp_type_of(c, i, f, cap):
    """The class of a field of message i: types nested in the message itself are inside its class."""
    j = f["ref"]
    p = c.p
    return cpp_type(c, j, cap["args"])


PRE = """#include <cstdio>
#include <memory>
#include <type_traits>
#include <MessageInterface.h>
%s
static void str(const char* k, const char* s) { std::printf("%%s", k); for(; s && *s; ++s) std::printf("%%02x", (unsigned char)*s); std::printf("%%s\\n", s ? "" : "null"); }
template<class T> void use(T& m)
{
  // Capacities multiply: keep large objects off the stack.
  std::unique_ptr<T> c(new T(m)), d(new T()); *d = *c; *d = static_cast<T&&>(*c);
  std::unique_ptr<T> e(new T(static_cast<T&&>(*d))); e->clear(); (void)m.serialized_size();
  ::EmbeddedProto::MessageInterface& b = *e; b.clear();
}
"""


class Compiled:
    def __init__(self):
        self.error, self.out = None, ""


def try_compile(g, cases, ids, name, std="c++11"):
    """Compile and run the observers of the cases in one program; (stdout, None) or (None, error)."""
    incs = []
    body = []
    for c in cases:
        for n, _ in c.result["files"]:
            inc = '#include "%s"' % n
            if inc not in incs:
                incs.append(inc)
        body += unit(c, ids)
    main = "int main() { " + " ".join("run_%s();" % c.tag for c in cases) + " return 0; }"
    src = g.w.write(name + ".cpp", PRE % "\n".join(incs) + "\n".join(body) + "\n" + main + "\n")
    exe = g.w.path(name + ".exe")
    lib = g.lib
    r = subprocess.run([build.CXX, "-std=" + std, "-O0", "-w", "-I", g.headers(), "-I", os.path.join(REPO, "src"), src] + lib + ["-o", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build.ENV)
    if r.returncode:
        return None, r.stdout
    if not ids:
        # A second compiler; later standards, the last with the text form.
        for cc in (["clang++", "-std=" + std], ["clang++", "-std=c++17", "-DMSG_TO_STRING"], [build.CXX, "-std=c++20", "-DMSG_TO_STRING"]):
            r = subprocess.run(cc + ["-fsyntax-only", "-w", "-I", g.headers(), "-I", os.path.join(REPO, "src"), src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build.ENV)
            if r.returncode:
                return None, " ".join(cc[:2]) + ": " + r.stdout
    r = subprocess.run(["sh", "-c", "ulimit -s unlimited 2>/dev/null || ulimit -s $(ulimit -H -s); exec " + exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    os.unlink(exe)
    if r.returncode:
        return None, "running the observer failed with %d" % r.returncode
    return r.stdout, None


def compile_cases(g, cases, ids, per=25):
    """Compile all; bisect failing groups. Returns (outputs by case number, failures [(case, error)])."""
    outs, fails = {}, []
    libs = [f for f in sorted(os.listdir(os.path.join(REPO, "src"))) if f.endswith(".cpp")]
    g.lib = []
    for f in libs:
        o = g.w.path(f + ".o")
        r = subprocess.run([build.CXX, "-std=c++11", "-O0", "-w", "-c", os.path.join(REPO, "src", f), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise build.CompileError(r.stdout)
        g.lib.append(o)
    groups = [cases[i:i + per] for i in range(0, len(cases), per)]
    with cf.ThreadPoolExecutor(8) as ex:
        def work(a):
            name, grp = a
            o, e = try_compile(g, grp, ids, name)
            if o is not None:
                return [(grp, o, None)]
            if len(grp) == 1:
                return [(grp, None, e)]
            h = (len(grp) + 1) // 2
            return work((name + "a", grp[:h])) + work((name + "b", grp[h:]))
        for rs in ex.map(work, [("u%d" % i, x) for i, x in enumerate(groups)]):
            for grp, o, e in rs:
                if o is None:
                    fails.append((grp[0], e))
                else:
                    cur = None
                    for line in o.splitlines():
                        if line.startswith("BEGIN "):
                            cur = int(line.split()[1])
                            outs[cur] = []
                        elif line.startswith("END "):
                            cur = None
                        elif cur is not None:
                            outs[cur].append(line.split(" "))
    return outs, fails


def prepare_probes(rng, c):
    c.probes = []
    for m in c.p["msgs"]:
        nums = [f["num"] for f in m["fields"]]
        pr = set(nums) | {0, 1, 2, 19000, 536870911, 4294967295}
        for n in nums:
            pr |= {n - 1, n + 1, n & 0xff, (n << 8) & 0xffffffff, n | (1 << 29)}
        c.probes.append(sorted(x for x in pr if 0 <= x <= 0xffffffff))


def judge(g, cases, outs, ids):
    """TLC judges the observations; returns [(case, what)]."""
    lines, order = [], []
    for c in cases:
        if c.i not in outs:
            continue
        obs = [dict(fields=[dict(rep=0, len=0, num=0, name="", which=0) for _ in m["fields"]], look=[], unset=0) for m in c.p["msgs"]]
        enums = [[0] * len(e["values"]) for e in c.p["enums"]]
        for t in outs[c.i]:
            if t[0] == "CAP":
                obs[int(t[1]) - 1]["fields"][int(t[2])][t[3]] = int(t[4])
            elif t[0] in ("NUM", "WHICH"):
                obs[int(t[1]) - 1]["fields"][int(t[2])][t[0].lower()] = clip(t[3])
            elif t[0] == "NAME":
                obs[int(t[1]) - 1]["fields"][int(t[2])]["name"] = text(t[3])
            elif t[0] == "LOOK":
                n = int(t[2])
                obs[int(t[1]) - 1]["look"].append([n if n < 2 ** 31 else n - 2 ** 32, text(t[3])])
            elif t[0] == "UNSET":
                obs[int(t[1]) - 1]["unset"] = clip(t[2])
            elif t[0] == "ENUM":
                enums[int(t[1]) - 1][int(t[2])] = clip(t[3])
        lines.append(json.dumps(dict(p=model_program(c.p), obs=obs, enums=enums, ids=ids)))
        order.append(c)
    if not lines:
        return []
    f = g.w.write("observed.ndjson", "\n".join(lines) + "\n")
    rc, out = run.tlc("TraceGen.tla", "TraceGen.cfg", dict(VP_PROGRAMS=f), workers=8)
    bad, n = [], 0
    for line in out.splitlines():
        if line.startswith('<<"JUDGED", '):
            i, rest = line[len('<<"JUDGED", '):].split(", ", 1)
            n += 1
            w = json.loads(json.loads(rest[:-2]))
            if w:
                bad.append((order[int(i) - 1], w))
    if rc or n != len(order):
        raise run.Inconclusive("TLC judged %d of %d programs\n%s" % (n, len(order), out[-2000:]))
    a, b = run.tlc_counts(out)
    g.ctx.states += a
    g.ctx.transitions += b
    g.ctx.traces += n
    return bad


def clip(s):
    n = int(s)
    return n if n < 2 ** 31 else -1


def text(h):
    return "null" if h == "null" else bytes.fromhex(h).decode("latin1")


def describe(c):
    return " | ".join("%s: %s" % (k, " ".join(v.split())) for k, v in c.texts.items())[:1500]


def acceptance(g, mine):
    """Is what was accepted what should be? mine: reasons reported by this check."""
    for c in g.cases:
        want, got = c.expect["ok"], g.accepted(c)
        if want == got:
            continue
        if want and "ok" in mine:
            g.ctx.violate("a supported program is refused (%s): %s" % (c.result["error"].strip()[-300:], describe(c)), g.replay(c, result=c.result["error"]))
        if not want and c.expect["reason"] in mine:
            g.ctx.violate("an unsupported program (%s) is accepted: %s" % (c.expect["reason"], describe(c)), g.replay(c))


def model_programs(ctx, n, enums, part=0, parts=1):
    """Check the model of writing headers for all programs of n messages; returns the programs."""
    cfg = ctx.work.write("MCGen_%d_%d.cfg" % (n, part), """SPECIFICATION Spec
CONSTANTS
  N = %d
  Enums = %s
  PrintOn = TRUE
  Part = %d
  Parts = %d
INVARIANTS Refused Writable Printed
CHECK_DEADLOCK FALSE
""" % (n, str(enums).upper(), part, parts))
    rc, out = run.tlc("MCGen.tla", cfg, {}, workers=8)
    if rc or "No error has been found" not in out:
        raise run.Inconclusive("the model of the generator is inconsistent:\n" + out[-2000:])
    a, b = run.tlc_counts(out)
    ctx.states += a
    ctx.transitions += b
    res = []
    for line in out.splitlines():
        if line.startswith('<<"PROG", '):
            d = json.loads(json.loads(line[len('<<"PROG", '):-2]))
            fields = [[] for _ in range(n)]
            for k, u in (("msg", d["uses"]), ("enum", d["euses"])):
                for i, j in sorted(u):
                    fields[i - 1].append(dict(lab="one", k=k, ref=j, oo=0, max=0))
            refd = sorted({j for _, j in d["euses"]})
            for fl in fields:
                for f in fl:
                    if f["k"] == "enum":
                        f["ref"] = refd.index(f["ref"]) + 1
            res.append(dict(files=[dict(syntax="proto3", deps=[])], enums=[dict(parent=j, file=1) for j in refd],
                            msgs=[dict(parent=d["parent"][i], file=1, fields=fields[i]) for i in range(n)]))
    res.sort(key=lambda p: json.dumps(p, sort_keys=True))
    ctx.count("programs enumerated by TLC", len(res))
    return res


def decorate(rng, p):
    """Other forms of the same dependencies: labels, oneofs, capacities, further fields."""
    for m in p["msgs"]:
        if rng.random() < 0.3:
            m["fields"].insert(rng.randint(0, len(m["fields"])), dict(lab=rng.choice(["one", "opt", "rep"]), k=rng.choice(["string", "bytes", "uint32"]), ref=0, oo=0, max=rng.choice([0, 3])))
        oo = rng.random() < 0.3
        for f in m["fields"]:
            if oo and rng.random() < 0.5 and f["lab"] != "rep":
                f["lab"], f["oo"] = "one", 1
            elif f["lab"] == "one":
                f["lab"] = rng.choice(["one", "one", "opt", "rep"])
            f["max"] = f["max"] if f["lab"] == "rep" or f["k"] in ("string", "bytes") else 0
            if f["lab"] == "rep" and f["max"] == 0 and rng.random() < 0.6:
                f["max"] = 2
    return p


PRESENCE = """syntax = "proto3";
message VpPresence { %s = 1; optional int32 other = 2; }
"""


def presence_name(ctx, g):
    """The recorded finding: a field whose variable is called as the one with the presence of the optional fields."""
    for field, known in (("int32 absence", False), ("int32 presence", True)):
        d = g.w.path(field.split()[1])
        os.makedirs(d)
        with open(os.path.join(d, "f.proto"), "w") as f:
            f.write(PRESENCE % field)
        g.w.generate(["f.proto"], d, d)
        with open(os.path.join(d, "f.cpp"), "w") as f:
            f.write('#include "f.h"\nint main() { VpPresence a; return a.has_other(); }\n')
        r = subprocess.run([build.CXX, "-std=c++11", "-fsyntax-only", "-w", "-I", d, "-I", os.path.join(REPO, "src"), os.path.join(d, "f.cpp")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build.ENV)
        if r.returncode and known and "presence_" in r.stdout:
            ctx.finding("field_presence", "a field called 'presence' in a message with optional fields: the generated code does not compile")
        elif r.returncode:
            ctx.violate("the generated code does not compile: %s\n%s" % (r.stdout[:400], PRESENCE % field), dict(proto=PRESENCE % field, compiler=r.stdout[:2000]))


def c15(ctx):
    g = Gens(ctx)
    graph = model_programs(ctx, 3, True)
    for p in (graph if ctx.thorough else ctx.rng.sample(graph, 500)):
        g.add(decorate(ctx.rng, p), "enumerated")
    if ctx.thorough:
        for p in ctx.rng.sample(model_programs(ctx, 4, False, ctx.seed % 16, 16), 1500):
            g.add(decorate(ctx.rng, p), "enumerated")
    for i in range(ctx.scale(300, 4000)):
        g.add(random_program(ctx.rng, big=i % 4 == 3), "random")
    for i in range(ctx.scale(150, 2000)):
        g.add(random_program(ctx.rng, deep=True), "deep")
    g.expectations()
    g.generate()
    acceptance(g, {"ok"})
    good = [c for c in g.cases if c.expect["ok"] and g.accepted(c)]
    for c in good:
        g.write_headers(c)
        c.probes = [[] for _ in c.p["msgs"]]
    outs, fails = compile_cases(g, good, False)
    for c, e in fails:
        ctx.violate("the generated code does not compile: %s\n%s" % ("\n".join(x for x in e.splitlines() if "error" in x)[:400] or e[:400], describe(c)), g.replay(c, compiler=e[:3000]))
    for c, w in judge(g, good, outs, False):
        ctx.violate("wrong capacity: %s in %s" % (w, describe(c)), g.replay(c, wrong=w))
    presence_name(ctx, g)
    ctx.count("programs accepted", len(good))
    ctx.count("programs compiled", len(outs))


def c16(ctx):
    g = Gens(ctx)
    graph = model_programs(ctx, 3, True)
    if ctx.thorough:
        for part in range(16):
            graph += ctx.rng.sample(model_programs(ctx, 4, False, part, 16), 1200)
    for i, p in enumerate(graph):
        g.add(p if i % 3 else decorate(ctx.rng, p), "enumerated")
    for i in range(ctx.scale(500, 4000)):
        g.add(random_program(ctx.rng, big=i % 4 == 3), "random")
    for i in range(ctx.scale(150, 2000)):
        g.add(random_program(ctx.rng, deep=True), "deep")
    g.expectations()
    g.generate()
    acceptance(g, {"proto2", "cyclic", "template"})
    for c in g.cases:
        ctx.count("refused: " + c.expect["reason"] if not c.expect["ok"] else "accepted")
    # One header per needed file, the same bytes for every way of asking.
    jobs = []
    multi = [c for c in g.cases if c.expect["ok"] and g.accepted(c)]
    for c in multi:
        paths = [f["path"] for f in c.p["files"]]
        base = dict(c.result["files"])
        c.base = base
        check_output(g, c, list(c.texts), c.result)
        if len(paths) > 1:
            for i in range(len(paths)):
                jobs.append((c, [paths[i]]))
            jobs.append((c, paths[::-1]))
            jobs.append((c, ctx.rng.sample(paths, 2)))
        elif ctx.rng.random() < 0.2:
            jobs.append((c, paths))
    for (c, files), r in zip(jobs, g.plugin([x[1] for x in jobs], hashseed="4242")):
        check_output(g, c, files, r)
    command_line(g, multi)


def header_of(path):
    return os.path.splitext(path)[0] + ".h"


def check_output(g, c, files, r):
    """The headers made for the files are those the specification asks for, with the known content."""
    paths = [f["path"] for f in c.p["files"]]
    want = sorted({header_of(paths[k - 1]) for f in files for k in c.expect["out"][paths.index(f)]})
    got = sorted(n for n, _ in r["files"])
    if r["rc"] or r["error"]:
        g.ctx.violate("asked for %s the generator fails: %s in %s" % (files, r["error"][-300:], describe(c)), g.replay(c, asked=files))
    elif want != got:
        g.ctx.violate("asked for %s it writes %s instead of %s: %s" % (files, got, want, describe(c)), g.replay(c, asked=files, got=got, want=want))
    else:
        for n, t in r["files"]:
            if t != c.base[n]:
                g.ctx.violate("asked for %s the content of %s differs from what all files together give: %s" % (files, n, describe(c)), g.replay(c, asked=files))
                break


def command_line(g, multi):
    """The whole chain with protoc: exit status and files on disk."""
    ctx = g.ctx
    some = [c for c in multi if c.note == "random"]
    refused = [c for c in g.cases if not c.expect["ok"] and not g.accepted(c)]
    todo = [(c, True) for c in ctx.rng.sample(some, min(len(some), ctx.scale(10, 60)))]
    by = {}
    for c in refused:
        by.setdefault(c.expect["reason"], []).append(c)
    for l in by.values():
        todo += [(c, False) for c in ctx.rng.sample(l, min(len(l), ctx.scale(4, 30)))]

    def one(a):
        k, (c, ok) = a
        out = g.w.path("cli%d" % k)
        rc, err = g.w.generate(list(c.texts), out, g.src)
        files = {}
        for d, _, fs in os.walk(out):
            for f in fs:
                p = os.path.join(d, f)
                files[os.path.relpath(p, out)] = open(p).read()
        return c, ok, rc, err, files
    with cf.ThreadPoolExecutor(8) as ex:
        for c, ok, rc, err, files in ex.map(one, list(enumerate(todo))):
            ctx.count("protoc runs")
            if ok and (rc or files != c.base):
                ctx.violate("protoc with the plugin: status %d, files %s instead of %s: %s" % (rc, sorted(files), sorted(c.base), describe(c)), g.replay(c, stderr=err[-1000:]))
            if not ok and (rc == 0 or files or not err.strip()):
                ctx.violate("protoc with the plugin: status %d and files %s for an unsupported program: %s" % (rc, sorted(files), describe(c)), g.replay(c, stderr=err[-1000:]))


def c19(ctx):
    g = Gens(ctx)
    for i in range(ctx.scale(300, 4000)):
        p = random_program(ctx.rng, big=i % 4 == 3)
        p["files"][-1]["syntax"] = "proto3"
        g.add(p, "random")
    g.expectations()
    g.generate()
    good = [c for c in g.cases if c.expect["ok"] and g.accepted(c)]
    for c in good:
        g.write_headers(c)
        prepare_probes(ctx.rng, c)
    outs, fails = compile_cases(g, good, True)
    # Identifiers that do not exist: the same program compiles when they are not used.
    for c, e in fails[:8]:
        if try_compile(g, [c], False, "again%d" % c.i)[0] is not None:
            ctx.violate("identifiers of the schema are missing: %s\n%s" % ("\n".join(x for x in e.splitlines() if "error" in x)[:600], describe(c)), g.replay(c, compiler=e[:3000]))
    if len(fails) * 2 > len(good):
        raise build.CompileError(fails[0][1])
    for c, w in judge(g, good, outs, True):
        w = [x for x in w if x[0] != "capacity"]
        if w:
            ctx.violate("wrong %s: recorded %s; %s" % (w, [t for t in outs[c.i] if t[0] != "CAP"][:40], describe(c)), g.replay(c, wrong=w, recorded=outs[c.i]))
    ctx.count("programs observed", len(outs))
    ctx.count("programs not compiling", len(fails))
