"""Schemas: one description rendered as .proto text, as the TLA+ constant Schema and as C++ types."""
import random

SCALARS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum",
           "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"]
WIDTH = dict(int32=4, uint32=4, sint32=4, enum=4, fixed32=4, sfixed32=4, float=4, bool=1,
             int64=8, uint64=8, sint64=8, fixed64=8, sfixed64=8, double=8)
CTYPE = dict(int32="int32_t", uint32="uint32_t", sint32="int32_t", fixed32="uint32_t", sfixed32="int32_t",
             float="float", bool="bool", int64="int64_t", uint64="uint64_t", sint64="int64_t",
             fixed64="uint64_t", sfixed64="int64_t", double="double")
ETYPE = dict(int32="int32", uint32="uint32", sint32="sint32", fixed32="fixed32", sfixed32="sfixed32",
             float="floatfixed", bool="boolean", int64="int64", uint64="uint64", sint64="sint64",
             fixed64="fixed64", sfixed64="sfixed64", double="doublefixed")


class F:
    """A field. lab: one, opt, rep. oo: name of the oneof or None. cap: length of a string/bytes
    (element), rcap: number of elements. fix: capacities are given with the maxLength option."""
    def __init__(self, name, num, k, lab="one", oo=None, msg=None, cap=0, rcap=0, fix=True, enum=None):
        self.name, self.num, self.k, self.lab, self.oo, self.msg = name, num, k, lab, oo, msg
        self.cap, self.rcap, self.fix, self.enum = cap, rcap, fix, enum
        if lab == "rep" and k in ("string", "bytes") and fix:
            self.cap = self.rcap     # one option value serves both

    @property
    def tracked(self):
        return self.lab == "opt" or self.oo is not None

    @property
    def packed(self):
        return self.lab == "rep" and self.k in WIDTH

    @property
    def sized(self):
        return self.lab == "rep" or self.k in ("string", "bytes")


class E:
    def __init__(self, name, values, parent=None):
        self.name, self.values, self.parent = name, values, parent


class M:
    """A message type; parent: the message in which it is nested, or None."""
    def __init__(self, name, fields, parent=None):
        self.name, self.fields, self.parent = name, fields, parent
        self.entry = False          # the entries of a map field of the parent
        self.oneofs = []
        for f in fields:
            if f.oo and f.oo not in self.oneofs:
                self.oneofs.append(f.oo)

    def order(self):
        """Field indices (0 based) in serialization order."""
        o = [i for i, f in enumerate(self.fields) if not f.oo]
        for oo in self.oneofs:
            o += [i for i, f in enumerate(self.fields) if f.oo == oo]
        return o

    def params(self):
        """The template arguments, in order: [(path of field names, 'len'|'rep', value)]."""
        res = []
        for i in self.order():
            f = self.fields[i]
            if f.lab == "rep" and not f.fix:
                res.append(((f.name,), "rep", f.rcap))
            if f.k in ("string", "bytes") and not f.fix:
                res.append(((f.name,), "len", f.cap))
            if f.k == "msg":
                res += [((f.name,) + p, w, v) for p, w, v in f.msg.params()]
        return res


class Schema:
    def __init__(self, package, msgs, enums, name=None):
        self.package, self.msgs, self.enums = package, msgs, enums
        self.name = name or package
        for i, m in enumerate(msgs):
            m.idx = i + 1

    # ------------------------------------------------------------------ proto
    def scope(self, t):
        s = [t.name]
        while t.parent:
            t = t.parent
            s.insert(0, t.name)
        return s

    def proto(self, order=None, syntax="proto3"):
        out = ['syntax = "%s";' % syntax, 'import "embedded_proto_options.proto";']
        if self.package:
            out.append("package %s;" % self.package)
        for e in self.enums:
            if not e.parent:
                out += self._enum(e, "")
        for m in (order or self.msgs):
            if not m.parent:
                out += self._msg(m, "")
        return "\n".join(out) + "\n"

    def _enum(self, e, ind):
        return [ind + "enum %s {" % e.name] + [ind + "  %s = %d;" % v for v in e.values] + [ind + "}"]

    def _msg(self, m, ind):
        out = [ind + "message %s {" % m.name]
        for e in self.enums:
            if e.parent is m:
                out += self._enum(e, ind + "  ")
        for n in self.msgs:
            if n.parent is m and not n.entry:
                out += self._msg(n, ind + "  ")
        done = set()
        for f in m.fields:
            if f.oo:
                if f.oo not in done:
                    done.add(f.oo)
                    out.append(ind + "  oneof %s {" % f.oo)
                    out += [self._field(g, ind + "    ") for g in m.fields if g.oo == f.oo]
                    out.append(ind + "  }")
            else:
                out.append(self._field(f, ind + "  "))
        out.append(ind + "}")
        return out

    def _type(self, f):
        pk = "." + (self.package + "." if self.package else "")
        if f.k == "msg" and f.msg.entry:
            return "map<%s, %s>" % (f.msg.fields[0].k, self._type(f.msg.fields[1]))
        if f.k == "msg":
            return pk + ".".join(self.scope(f.msg))
        if f.k == "enum":
            return pk + ".".join(self.scope(f.enum))
        return f.k

    def _field(self, f, ind):
        opt = ""
        if f.fix and f.sized:
            opt = " [(EmbeddedProto.options).maxLength = %d]" % (f.rcap if f.lab == "rep" else f.cap)
        lab = {"one": "", "opt": "optional ", "rep": "repeated "}[f.lab] if not f.oo and not (f.msg and f.msg.entry) else ""
        return "%s%s%s %s = %d%s;" % (ind, lab, self._type(f), f.name, f.num, opt)

    # -------------------------------------------------------------------- TLA
    def tla(self):
        res = []
        for m in self.msgs:
            res.append(dict(
                name=m.name, ord=[i + 1 for i in m.order()],
                fields=[dict(num=f.num, k=f.k, lab=f.lab,
                             oo=(m.oneofs.index(f.oo) + 1 if f.oo else 0),
                             max=f.cap, rmax=f.rcap, msg=(f.msg.idx if f.msg else 0),
                             name=[ord(c) for c in f.name]) for f in m.fields]))
        return res

    # -------------------------------------------------------------------- C++
    def cpp(self, m):
        ns = "::" + "::".join(self.package.split(".")) + "::" if self.package else "::"
        args = m.params()
        return ns + "::".join(self.scope(m)) + ("<%s>" % ", ".join(str(v) for _, _, v in args) if args else "")

    def cpp_enum(self, e):
        ns = "::" + "::".join(self.package.split(".")) + "::" if self.package else "::"
        if e.parent:
            return self.cpp(e.parent) + "::" + e.name
        return ns + e.name

    def cpp_elem(self, f):
        if f.k == "msg":
            return self.cpp(f.msg)
        if f.k == "enum":
            return "::EmbeddedProto::enumeration<%s>" % self.cpp_enum(f.enum)
        if f.k in ("string", "bytes"):
            return "::EmbeddedProto::Field%s<%d>" % (f.k.capitalize(), f.cap)
        return "::EmbeddedProto::" + ETYPE[f.k]

    def cpp_base(self, f):
        return self.cpp_enum(f.enum) if f.k == "enum" else CTYPE[f.k]


# ------------------------------------------------------------------ schemas
def fixed_schema(names=None):
    """The hand made schema: all kinds x labels and the structural corner cases."""
    col = E("Color", [("RED", 0), ("GREEN", 1), ("BLUE", 5), ("BIG", 2147483647)])
    enums = [col]
    allk = SCALARS + ["string", "bytes"]

    def flds(lab, nums, oo=None, fix=True, cap=6, rcap=4, kinds=allk, pre="f"):
        return [F("%s_%s" % (pre, k), n, k, lab, oo=oo, cap=cap, rcap=rcap, fix=fix, enum=col)
                for k, n in zip(kinds, nums)]
    empty = M("Empty", [])
    leaf = M("Leaf", [F("a", 1, "int32"), F("s", 2, "string", cap=5), F("o", 3, "uint32", "opt"),
                      F("r", 4, "sint32", "rep", rcap=3)])
    sca = M("Sca", flds("one", [1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 2047, 2048, 262143, 262144, 33554431, 536870911]))
    opt = M("Opt", flds("opt", range(1, 17)) + [F("m", 17, "msg", "opt", msg=leaf), F("e", 18, "msg", "opt", msg=empty)])
    rep = M("Rep", flds("rep", range(1, 17)) + [F("m", 17, "msg", "rep", msg=leaf, rcap=3),
                                               F("e", 4000, "msg", "rep", msg=empty, rcap=2)])
    one = M("One", [F("before", 1, "int32")]
            + flds("one", range(10, 26), oo="pick") + [F("pm", 26, "msg", oo="pick", msg=leaf),
                                                     F("pe", 27, "msg", oo="pick", msg=empty)]
            + [F("middle", 2, "string", cap=4)]
            + [F("ea", 30, "enum", oo="eo", enum=col), F("eb", 31, "enum", oo="eo", enum=col)]
            + [F("after", 3, "int32", "opt"), F("sole", 40, "bool", oo="single")])
    many = M("Many", [F("o%d" % i, i + 1, k, "opt", cap=3, enum=col)
                      for i, k in enumerate((["bool", "int32", "string", "uint32", "sint32", "enum", "fixed32"] * 10)[:67])])
    tpl = M("Tpl", [F("s", 1, "string", cap=3, fix=False), F("b", 2, "bytes", cap=7, fix=False),
                    F("r", 3, "int32", "rep", rcap=5, fix=False), F("rs", 4, "string", "rep", cap=4, rcap=2, fix=False),
                    F("x", 5, "int32"), F("os", 6, "string", oo="w", cap=6, fix=False), F("oi", 7, "int64", oo="w"),
                    F("opts", 8, "bytes", "opt", cap=2, fix=False)])
    tpl2 = M("Tpl2", [F("t", 1, "msg", msg=tpl), F("rt", 2, "msg", "rep", msg=tpl, rcap=2, fix=False),
                      F("ot", 3, "msg", "opt", msg=tpl), F("rf", 4, "msg", "rep", msg=tpl, rcap=2, fix=True)])
    mid = M("Mid", [F("l", 1, "msg", msg=leaf), F("rl", 2, "msg", "rep", msg=leaf, rcap=2), F("one", 3, "msg", msg=one),
                    F("v", 20, "uint64")])
    top = M("Top", [F("m", 1, "msg", msg=mid), F("om", 2, "msg", "opt", msg=mid), F("rm", 3, "msg", "rep", msg=mid, rcap=2),
                    F("xm", 4, "msg", oo="c", msg=mid), F("xl", 5, "msg", oo="c", msg=leaf), F("xs", 6, "string", oo="c", cap=8),
                    F("deep", 100, "msg", msg=sca)])
    big = M("Big", [F("s", 1, "string", cap=200), F("b", 2, "bytes", cap=150), F("p", 3, "fixed64", "rep", rcap=20),
                    F("v", 4, "uint64", "rep", rcap=16), F("rs", 5, "bytes", "rep", rcap=130), F("inner", 6, "msg", msg=None),
                    F("z", 70, "uint32")])
    inner = M("Inner", [F("s", 1, "string", cap=140), F("n", 2, "sint64")])
    big.fields[5].msg = inner
    one1 = M("Cap1", [F("s", 1, "string", cap=1), F("r", 2, "bool", "rep", rcap=1), F("m", 3, "msg", "rep", msg=leaf, rcap=1)])
    outer = M("Outer", [])
    nest = M("Nest", [], parent=outer)
    nn = M("NN", [F("q", 1, "int32"), F("w", 2, "bool")], parent=nest)
    kind = E("Kind", [("K0", 0), ("K1", 300)], parent=outer)
    enums.append(kind)
    nest.fields += [F("x", 1, "msg", msg=nn), F("k", 2, "enum", enum=kind)]
    outer.fields += [F("n", 1, "msg", msg=nest), F("g", 2, "msg", "rep", msg=nn, rcap=2), F("k", 3, "enum", "rep", rcap=3, enum=kind),
                     F("ok", 4, "enum", "opt", enum=kind)]
    one2 = M("TwoOne", [F("a1", 1, "msg", oo="a", msg=leaf), F("a2", 2, "string", oo="a", cap=5), F("a3", 3, "int32", oo="a"),
                        F("b1", 4, "msg", oo="b", msg=leaf), F("b2", 5, "bytes", oo="b", cap=5), F("b3", 6, "double", oo="b"),
                        F("p", 7, "int32"), F("q", 8, "int32", "opt")])
    # a map is a repeated message of key and value
    maps = M("Maps", [])
    ml = M("MlEntry", [F("key", 1, "uint32"), F("value", 2, "msg", msg=leaf)], parent=maps)
    mb = M("MBEntry", [F("key", 1, "sint64"), F("value", 2, "enum", enum=col)], parent=maps)
    ml.entry = mb.entry = True
    maps.fields += [F("ml", 1, "msg", "rep", msg=ml, rcap=2), F("m_b", 2, "msg", "rep", msg=mb, rcap=3), F("z", 3, "int32")]
    # deep nesting, each level with another label
    chain, sub = [], M("D0", [F("v", 1, "sint64"), F("s", 2, "bytes", cap=3)])
    chain.append(sub)
    for d in range(1, 9):
        lab = ["one", "opt", "rep", "oo"][d % 4]
        sub = M("D%d" % d, [F("n", d * 7, "msg", "one" if lab == "oo" else lab, oo="w" if lab == "oo" else None, msg=sub, rcap=2), F("x", d * 7 + 1, "uint32")])
        chain.append(sub)
    msgs = [top, mid, leaf, empty, sca, opt, rep, one, many, tpl2, tpl, big, inner, one1, outer, nest, nn, one2, maps, ml, mb] + chain
    if names:
        keep, todo = set(), [m for m in msgs if m.name in names]
        while todo:
            m = todo.pop()
            if m not in keep:
                keep.add(m)
                todo += [f.msg for f in m.fields if f.msg] + ([m.parent] if m.parent else [])
        msgs = [m for m in msgs if m in keep]
        enums = [e for e in enums if e.parent is None or e.parent in keep]
    return Schema("vp.fx", msgs, enums)


def huge_schema():
    """Lengths that need more than one or two bytes, capacities above 255 and 65535."""
    s = M("HugeS", [F("t", 1, "bytes", cap=17000), F("u", 2, "string", cap=300), F("n", 3, "int32")])
    p = M("HugeP", [F("p", 1, "fixed64", "rep", rcap=2100), F("b", 2, "bool", "rep", rcap=300), F("z", 3, "int32")])
    m = M("HugeM", [F("a", 1, "msg", "rep", msg=s, rcap=2), F("s", 2, "msg", msg=s), F("o", 3, "msg", oo="x", msg=s),
                    F("q", 4, "msg", "opt", msg=p), F("r", 5, "bytes", oo="x", cap=300), F("k", 6, "string", "rep", rcap=270)])
    w = M("HugeW", [F("w", 1, "bytes", cap=66000), F("n", 2, "uint32", "rep", rcap=130)])
    b = M("HugeB", [F("b", 1, "bool", "rep", rcap=66000), F("z", 2, "int32")])
    q = M("HugeQ", [F("q", 1, "fixed64", "rep", rcap=8300), F("z", 2, "int32")])
    v = M("HugeV", [F("s", 1, "string", cap=66000), F("z", 2, "int32")])
    g = M("HugeG", [F("v", 1, "msg", msg=v), F("z", 2, "int32"), F("r", 3, "msg", "rep", msg=v, rcap=2)])
    n = M("HugeN", [F("n", 1, "string", "rep", cap=300, rcap=260), F("z", 2, "int32")])
    return Schema("vp.huge", [m, s, p, w, b, q, v, g, n], [])


def crowd_schema():
    """More than 256 optional fields, members of a oneof, and fields."""
    o = M("CrowdO", [F("o%d" % i, i + 1, "bool" if i % 7 else "string", "opt", cap=2) for i in range(300)])
    n = M("CrowdN", [F("n%d" % i, i + 1, "bool" if i % 7 else "bytes", oo="x", cap=2) for i in range(300)] + [F("z", 301, "int32")])
    return Schema("vp.crowd", [o, n], [])


FIELD_NUMBERS = [1, 2, 3, 4, 5, 14, 15, 16, 17, 100, 127, 128, 2047, 2048, 16383, 16384, 262143, 262144,
                 18999, 20000, 2097151, 2097152, 33554431, 33554432, 268435455, 268435456, 536870911]


def random_schema(rng, package, n=6, budget=4000):
    """An acyclic random schema. budget bounds the number of scalar slots per message."""
    en = E("En", [("Z", 0)] + [("V%d" % i, rng.choice([1, 2, 127, 128, 300, 65536, 2147483647 - i]) + i) for i in range(rng.randint(1, 4))])
    seen, vals = set(), []
    for a, b in en.values:
        if b not in seen and b <= 2147483647:
            seen.add(b)
            vals.append((a, b))
    en.values = vals
    msgs, cost = [], {}
    for mi in range(n):
        nums = rng.sample(FIELD_NUMBERS + list(range(200, 240)), 12)
        fields, c, oos = [], 1, 0
        nf = rng.randint(0 if mi else 1, 9)
        i = 0
        # Fields of a oneof are declared together: protobuf orders them that way in the file.
        while i < nf:
            group = rng.randint(1, 4) if rng.random() < .25 else 0
            oo = None
            if group:
                oos += 1
                oo = "oo%d" % oos
            for _ in range(group or 1):
                if i >= 12:
                    break
                lab = "one" if oo else rng.choice(["one", "one", "opt", "rep", "rep"])
                k = rng.choice(SCALARS + ["string", "bytes", "string", "bytes", "msg", "msg", "msg", "msg"])
                if k == "msg" and not msgs:
                    k = "uint32"
                cap = rng.choice([1, 2, 3, 5, 8, 20])
                rcap = rng.choice([1, 2, 3, 4, 6])
                sub = None
                if k == "msg":
                    sub = rng.choice(msgs)
                    cc = cost[sub] * (rcap if lab == "rep" else 1)
                    if c + cc > budget:
                        k, sub = "int32", None
                    else:
                        c += cc
                c += rcap if lab == "rep" else 1
                fields.append(F("f%d" % i, nums[i], k, lab, oo=oo, cap=cap, rcap=rcap, msg=sub, enum=en,
                                fix=rng.random() < .6))
                i += 1
            if not group and i >= nf:
                break
        m = M("R%d" % mi, fields)
        cost[m] = c
        msgs.append(m)
    rng.shuffle(msgs)
    return Schema(package, msgs, [en])
