"""C++ glue between the driver and the generated message classes, rendered from a schema."""


def tname(pre, m):
    return "T%s_%d" % (pre, m.idx)


def elem(f):
    return "ElemMsg_%s" if f.k == "msg" else "ElemStr" if f.k in ("string", "bytes") else "ElemScalar"


def header(schemas):
    """types.h: the aliases and prototypes. schemas: [(prefix, Schema)]."""
    out = ['#pragma once', '#include "common.h"']
    for pre, s in schemas:
        out.append('#include "%s.h"' % s.name.replace(".", "_"))
    for pre, s in schemas:
        for m in s.msgs:
            t = tname(pre, m)
            out.append("using %s = %s;" % (t, s.cpp(m)))
            out.append("void proj_%s(std::string&, const %s&);" % (t, t))
            out.append("bool agrees_%s(const %s&);" % (t, t))
            out.append("void apply_%s(%s&, const Op&, size_t, Res&);" % (t, t))
            out.append("struct ElemMsg_%s : ElemMsg { static void put(std::string& o, const %s& e) { proj_%s(o, e); } };" % (t, t, t))
    return "\n".join(out) + "\n"


def table(schemas):
    out = ['#include "types.h"', "extern const Type TYPES[] = {"]
    for pre, s in schemas:
        for m in s.msgs:
            out.append("  TYPE_ENTRY(%s, %s)," % (tname(pre, m), tname(pre, m)))
    out.append("};")
    out.append("extern const int N_TYPES = sizeof(TYPES) / sizeof(TYPES[0]);")
    return "\n".join(out) + "\n"


def put_elem(pre, f, expr):
    if f.k == "msg":
        return "proj_%s(o, %s);" % (tname(pre, f.msg), expr)
    if f.k in ("string", "bytes"):
        return "put_str(o, %s);" % expr
    return "put_val(o, %s);" % expr


def message(pre, s, m):
    t = tname(pre, m)
    o = []
    # ---- projection
    o.append("void proj_%s(std::string& o, const %s& m)\n{\n  (void)m; o += '[';" % (t, t))
    for i, f in enumerate(m.fields):
        if i:
            o.append("  o += ',';")
        if f.lab == "rep":
            o.append("  o += '['; for(uint32_t i = 0; i < m.get_%s().get_length(); ++i) { if(i) o += ','; %s } o += ']';" % (
                f.name, put_elem(pre, f, "m.%s(i)%s" % (f.name, ".get()" if f.packed else ""))))
        elif f.tracked:
            o.append("  o += '['; if(m.has_%s()) { %s } o += ']';" % (f.name, put_elem(pre, f, "m.get_%s()" % f.name)))
        else:
            o.append("  " + put_elem(pre, f, "m.get_%s()" % f.name))
    o.append("  o += ']';\n}\n")
    # ---- agreement of the read accessors
    o.append("bool agrees_%s(const %s& m)\n{\n  (void)m; bool ok = true;" % (t, t))
    for oo in m.oneofs:
        mem = [f for f in m.fields if f.oo == oo]
        o.append("  { int n = 0; const auto w = m.get_which_%s();" % oo)
        for f in mem:
            o.append("    if(m.has_%s()) { ++n; ok = ok && (static_cast<uint32_t>(w) == %dU); }" % (f.name, f.num))
        o.append("    ok = ok && (n <= 1) && ((0 == n) == (0U == static_cast<uint32_t>(w))); }")
    for f in m.fields:
        cond = "if(m.has_%s()) " % f.name if f.oo else ""
        n = f.name
        if f.lab == "rep":
            E = s.cpp_elem(f)
            o.append("  ok = ok && (&m.get_%s() == &m.%s()) && rep_agrees<%s>(m.get_%s(), %d);" % (n, n, E, n, f.rcap))
            o.append("  for(uint32_t i = 0; ok && i < m.get_%s().get_length(); ++i) ok = (&m.%s(i) == &m.get_%s().get_const(i))%s;" % (
                n, n, n, " && str_agrees(m.%s(i), m.%s(i).get_const(), %d)" % (n, n, f.cap) if f.k in ("string", "bytes")
                else " && agrees_%s(m.%s(i))" % (tname(pre, f.msg), n) if f.k == "msg" else ""))
        elif f.k == "msg":
            o.append("  %sok = ok && (&m.get_%s() == &m.%s()) && agrees_%s(m.get_%s());" % (cond, n, n, tname(pre, f.msg), n))
        elif f.k in ("string", "bytes"):
            o.append("  %sok = ok && str_agrees(m.get_%s(), m.%s(), %d);" % (cond, n, n, f.cap))
        else:
            o.append("  %sok = ok && same<%s>(m.get_%s(), m.%s());" % (cond, s.cpp_base(f), n, n))
        if f.lab == "opt":
            if f.k == "msg":
                o.append("  if(!m.has_%s()) { std::string a, b; proj_%s(a, m.get_%s()); %s d; proj_%s(b, d); ok = ok && (a == b); }" % (
                    n, tname(pre, f.msg), n, tname(pre, f.msg), tname(pre, f.msg)))
            elif f.k in ("string", "bytes"):
                o.append("  if(!m.has_%s()) ok = ok && (0 == m.get_%s().get_length());" % (n, n))
            else:
                o.append("  if(!m.has_%s()) ok = ok && same<%s>(m.get_%s(), static_cast<%s>(0));" % (n, s.cpp_base(f), n, s.cpp_base(f)))
    o.append("  return ok;\n}\n")
    # ---- operations
    o.append("void apply_%s(%s& m, const Op& op, size_t d, Res& r)\n{\n  (void)m; const Bytes& v = op.vals.empty() ? none : op.vals[0]; (void)v;" % (t, t))
    o.append("  if(d < op.path.size())\n  {\n    const Step& st = op.path[d]; (void)st;\n    switch(st.f)\n    {")
    for i, f in enumerate(m.fields):
        if f.k == "msg":
            o.append("      case %d: apply_%s(m.mutable_%s(%s), op, d + 1, r); return;" % (
                i + 1, tname(pre, f.msg), f.name, "st.idx" if f.lab == "rep" else ""))
    o.append("      default: r.bad = true; return;\n    }\n  }")
    o.append("  const std::string& n = op.name; (void)n;\n  switch(op.f)\n  {")
    for i, f in enumerate(m.fields):
        o.append("    case %d:" % (i + 1))
        nm = f.name
        o.append('      if("clr" == n) { m.clear_%s(); return; }' % nm)
        two = f.lab == "rep" or f.k in ("msg", "string", "bytes")
        o.append('      if("self" == n) { %s%s m.set_%s(m.get_%s()); return; }' % (
            "if(!m.has_%s()) return; " % nm if f.oo else "", "if(op.var) m.mutable_%s() = m.get_%s(); else" % (nm, nm) if two else "", nm, nm))
        if f.lab == "rep":
            E = s.cpp_elem(f)
            EL = "ElemMsg_%s" % tname(pre, f.msg) if f.k == "msg" else elem(f)
            o.append('      if("mut" == n) { m.mutable_%s(); return; }' % nm)
            o.append('      if("add" == n) { %s e; %s::make(e, op, v); if(op.var) r.err = code(m.mutable_%s().add(e)); else m.add_%s(e); return; }' % (E, EL, nm, nm))
            o.append('      if("seti" == n) { %s e; %s::make(e, op, v); if(op.var) m.set_%s(op.idx, std::move(e)); else m.set_%s(op.idx, e); return; }' % (E, EL, nm, nm))
            if f.k == "enum":
                o.append('      if("muti" == n) { %s e; %s::make(e, op, v); m.mutable_%s(op.idx) = e; return; }' % (E, EL, nm))
            else:
                o.append('      if("muti" == n) { %s e; %s::make(e, op, v); if(op.var) m.mutable_%s(op.idx) = std::move(e); else m.mutable_%s(op.idx) = e; return; }' % (E, EL, nm, nm))
            o.append('      if("asgf" == n) { m.set_%s(static_cast<const %s*>(op.srcp)->get_%s()); return; }' % (nm, t, nm))
            if f.rcap > 1:
                o.append('      if("xcpy" == n) { typedef ::EmbeddedProto::RepeatedFieldFixedSize<%s, %d> D; ::EmbeddedProto::RepeatedFieldFixedSize<%s, %d> a; fill_rep<%s, %s>(a, op); '
                         'if(op.var) { const D d(std::move(a)); m.set_%s(d); } else { const D d(a); m.set_%s(d); } return; }' % (E, f.rcap, E, f.rcap - 1, EL, E, nm, nm))
            o.append('      if("getc" == n) { getc_rep<%s, %s>(m.get_%s(), op, r); return; }' % (EL, E, nm))
            o.append('      op_rep<%s, %s>(m.mutable_%s(), op, r); return;' % (EL, E, nm))
        elif f.k == "msg":
            o.append('      if("mut" == n) { m.mutable_%s(); return; }' % nm)
            o.append('      if("set" == n) { const auto& src = *static_cast<const %s*>(op.srcp); if(op.var) { %s tmp(src); m.set_%s(std::move(tmp)); } else m.set_%s(src); return; }' % (tname(pre, f.msg), tname(pre, f.msg), nm, nm))
            o.append('      if("mset" == n) { m.mutable_%s() = *static_cast<const %s*>(op.srcp); return; }' % (nm, tname(pre, f.msg)))
            o.append('      if("mclr" == n) { m.mutable_%s().clear(); return; }' % nm)
            o.append('      break;')
        elif f.k in ("string", "bytes"):
            o.append('      if("mut" == n) { m.mutable_%s(); return; }' % nm)
            o.append('      if("set" == n) { %s e; fill_str(e, v); m.set_%s(e); return; }' % (s.cpp_elem(f), nm))
            o.append('      if("sasg" == n) { if(op.var) { ::EmbeddedProto::Field%s<64> e; fill_str(e, v); m.mutable_%s() = e; } else { ::EmbeddedProto::Field%s<1> e; fill_str(e, v); m.mutable_%s() = e; } return; }' % (f.k.capitalize(), nm, f.k.capitalize(), nm))
            o.append('      %s(m.mutable_%s(), op, r); return;' % ("op_cstr" if f.k == "string" else "op_str", nm))
        else:
            T = s.cpp_base(f)
            o.append('      if("set" == n) { const %s x = from_bytes<%s>(v); if(op.var) m.set_%s(from_bytes<%s>(v)); else m.set_%s(x); return; }' % (T, T, nm, T, nm))
            if not f.oo and f.k != "enum":
                o.append('      if("mset" == n) { m.mutable_%s() = from_bytes<%s>(v); return; }' % (nm, T))
                o.append('      if("mut" == n) { m.mutable_%s(); return; }' % nm)
            o.append('      break;')
    o.append("    default: break;\n  }\n  r.bad = true;\n}\n")
    return "\n".join(o)


def units(schemas, n):
    """n translation units with about the same work."""
    msgs = sorted(((pre, s, m) for pre, s in schemas for m in s.msgs), key=lambda x: -len(x[2].fields))
    bins = [[0, []] for _ in range(n)]
    for x in msgs:
        b = min(bins, key=lambda b: b[0])
        b[0] += 3 + len(x[2].fields)
        b[1].append(message(*x))
    return ['#include "types.h"\n' + "\n".join(b[1]) for b in bins if b[1]]
