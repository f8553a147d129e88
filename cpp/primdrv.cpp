// Drives the primitive wire functions and the scalar field wrappers.
// stdin: one call per line, stdout: one JSON object per call. Values and data are in hex, values little endian.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <utility>
#include <WireFormatter.h>
#include <Fields.h>
#include <MessageSizeCalculator.h>
using namespace EmbeddedProto;
using WF = WireFormatter;
using Bytes = std::vector<uint8_t>;
enum class E : uint32_t { ZERO = 0, ONE = 1 };

struct Out : WriteBufferInterface
{
  Bytes d; uint32_t cap = 0;
  void clear() override { d.clear(); }
  uint32_t get_size() const override { return d.size(); }
  uint32_t get_max_size() const override { return cap; }
  uint32_t get_available_size() const override { return cap - d.size(); }
  bool push(const uint8_t b) override { if(d.size() >= cap) return false; d.push_back(b); return true; }
  bool push(const uint8_t* b, const uint32_t n) override { if(n > cap - d.size()) return false; d.insert(d.end(), b, b + n); return true; }
};
struct In : ReadBufferInterface
{
  Bytes d; size_t p = 0;
  uint32_t get_size() const override { return d.size() - p; }
  uint32_t get_max_size() const override { return d.size(); }
  bool peek(uint8_t& b) const override { if(p >= d.size()) return false; b = d[p]; return true; }
  bool advance() override { if(p >= d.size()) return false; ++p; return true; }
  bool advance(const uint32_t n) override { const bool ok = n <= d.size() - p; p += ok ? n : d.size() - p; return ok; }
  bool pop(uint8_t& b) override { if(p >= d.size()) return false; b = d[p++]; return true; }
};
static Bytes unhex(const std::string& s)
{
  Bytes r; if("-" == s) return r;
  for(size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
static std::string list(const Bytes& b) { std::string s = "["; for(size_t i = 0; i < b.size(); ++i) s += (i ? "," : "") + std::to_string(b[i]); return s + "]"; }
template<class T> T val(const Bytes& b) { T v; std::memset(&v, 0, sizeof v); std::memcpy(&v, b.data(), sizeof v); return v; }
template<> bool val<bool>(const Bytes& b) { return 0 != b.at(0); }
template<class T> Bytes bytes(const T& v) { Bytes b(sizeof v); std::memcpy(b.data(), &v, sizeof v); return b; }

#define FN(NAME, TYPE, FIELD, TAGGED, RAW, READ) struct NAME { using T = TYPE; using F = FIELD; \
  static Error tagged(uint32_t n, T v, Out& o) { return TAGGED; } \
  static Error raw(T v, Out& o) { return RAW; } \
  static Error read(In& in, T& v) { return READ; } };
FN(k_int32, int32_t, int32, WF::SerializeInt(n, v, o), WF::SerializeVarint(static_cast<uint32_t>(v), o), WF::DeserializeInt(in, v))
FN(k_int64, int64_t, int64, WF::SerializeInt(n, v, o), WF::SerializeVarint(static_cast<uint64_t>(v), o), WF::DeserializeInt(in, v))
FN(k_uint32, uint32_t, uint32, WF::SerializeUInt(n, v, o), WF::SerializeVarint(v, o), WF::DeserializeUInt(in, v))
FN(k_uint64, uint64_t, uint64, WF::SerializeUInt(n, v, o), WF::SerializeVarint(v, o), WF::DeserializeUInt(in, v))
FN(k_sint32, int32_t, sint32, WF::SerializeSInt(n, v, o), WF::SerializeVarint(WF::ZigZagEncode(v), o), WF::DeserializeSInt(in, v))
FN(k_sint64, int64_t, sint64, WF::SerializeSInt(n, v, o), WF::SerializeVarint(WF::ZigZagEncode(v), o), WF::DeserializeSInt(in, v))
FN(k_fixed32, uint32_t, fixed32, WF::SerializeFixed(n, v, o), WF::SerializeFixedNoTag(v, o), WF::DeserializeFixed(in, v))
FN(k_fixed64, uint64_t, fixed64, WF::SerializeFixed(n, v, o), WF::SerializeFixedNoTag(v, o), WF::DeserializeFixed(in, v))
FN(k_sfixed32, int32_t, sfixed32, WF::SerializeSFixed(n, v, o), WF::SerialzieSFixedNoTag(v, o), WF::DeserializeSFixed(in, v))
FN(k_sfixed64, int64_t, sfixed64, WF::SerializeSFixed(n, v, o), WF::SerialzieSFixedNoTag(v, o), WF::DeserializeSFixed(in, v))
FN(k_float, float, floatfixed, WF::SerializeFloat(n, v, o), WF::SerialzieFloatNoTag(v, o), WF::DeserializeFloat(in, v))
FN(k_double, double, doublefixed, WF::SerializeDouble(n, v, o), WF::SerialzieDoubleNoTag(v, o), WF::DeserializeDouble(in, v))
FN(k_bool, bool, boolean, WF::SerializeBool(n, v, o), boolean(v).serialize(o), WF::DeserializeBool(in, v))
FN(k_enum, E, enumeration<E>, WF::SerializeEnum(n, static_cast<uint32_t>(v), o), WF::SerializeVarint(static_cast<uint32_t>(v), o), WF::DeserializeEnum(in, v))

static std::string werr(Error e, const Out& o, const char* extra = "") { return "{\"err\":" + std::to_string(static_cast<int>(e)) + ",\"bytes\":" + list(o.d) + extra + "}"; }
static std::string rerr(Error e, const In& i, const Bytes& v) { return "{\"err\":" + std::to_string(static_cast<int>(e)) + ",\"pos\":" + std::to_string(i.p) + ",\"val\":" + list(v) + "}"; }

template<class K> std::string cmp(const Bytes& a, const Bytes& b)
{
  using T = typename K::T; using F = typename K::F;
  F x(val<T>(a)); F y(val<T>(b)); const T v = val<T>(b);
  std::string s = "[";
  const bool r[12] = { x == v, x != v, x > v, x < v, x >= v, x <= v, x == y, x != y, x > y, x < y, x >= y, x <= y };
  for(int i = 0; i < 12; ++i) s += std::string(i ? "," : "") + (r[i] ? "true" : "false");
  return "{\"cmp\":" + s + "]}";
}
// Wrappers of two kinds compared with each other.
template<class K, class K2> std::string xcmp(const Bytes& a, const Bytes& b)
{
  typename K::F x(val<typename K::T>(a)); typename K2::F y(val<typename K2::T>(b));
  const bool r[6] = { x == y, x != y, x > y, x < y, x >= y, x <= y };
  std::string s = "[";
  for(int i = 0; i < 6; ++i) s += std::string(i ? "," : "") + (r[i] ? "true" : "false");
  return "{\"cmp\":" + s + "]}";
}
template<class K> std::string xcmp_s(const std::string& k, const Bytes& a, const Bytes& b)
{
#define X(n) if(#n == k) return xcmp<K, k_##n>(a, b);
  X(int32) X(int64) X(sint32) X(sint64) X(sfixed32) X(sfixed64)
  std::exit(97);
}
template<class K> std::string xcmp_u(const std::string& k, const Bytes& a, const Bytes& b)
{
  X(uint32) X(uint64) X(fixed32) X(fixed64)
  std::exit(97);
}
template<class K> std::string wrap(const Bytes& a, const Bytes& b, int how)
{
  // Every way to give the wrapper holding a the value b; both wrappers are reported afterwards.
  using T = typename K::T; using F = typename K::F;
  F x(val<T>(a)); F y(val<T>(b)); const T v = val<T>(b);
  bool same = true;
  switch(how)
  {
    case 0: x.set(v); break;
    case 1: x.set(val<T>(b)); break;
    case 2: x.set(y); break;
    case 3: x.set(std::move(y)); break;
    case 4: same = &(x = v) == &x; break;
    case 5: same = &(x = val<T>(b)) == &x; break;
    case 6: same = &(x = y) == &x; break;
    case 7: same = &(x = std::move(y)) == &x; break;
    case 8: { F z(y); x = z; break; }
    case 9: { F z(v); x.get() = z.get(); break; }
    case 10: x.clear(); break;
    default: std::exit(97);
  }
  const F& cx = x;
  const T conv = cx;
  return "{\"x\":" + list(bytes<T>(cx.get())) + ",\"conv\":" + list(bytes<T>(conv)) + ",\"y\":" + list(bytes<T>(y.get())) + ",\"same\":" + (same ? "true" : "false") + "}";
}

template<class K> std::string call(const std::string& fn, std::istringstream& in)
{
  using T = typename K::T; using F = typename K::F;
  std::string a, b; uint32_t num = 0, cap = 0;
  if("cmp" == fn) { in >> a >> b; return cmp<K>(unhex(a), unhex(b)); }
  if("wrap" == fn) { int how; in >> how >> a >> b; return wrap<K>(unhex(a), unhex(b), how); }
  if('w' == fn[0])
  {
    Out o; in >> num >> a >> cap; o.cap = cap; const T v = val<T>(unhex(a)); const F f(v);
    Error e = Error::NO_ERRORS;
    if("wtag" == fn) e = K::tagged(num, v, o);
    else if("wraw" == fn) e = K::raw(v, o);
    else if("wfld" == fn) e = f.serialize(o);
    else if("wfid" == fn) e = f.serialize_with_id(num, o, true);
    else if("wfin" == fn) e = f.serialize_with_id(num, o, false);
    else std::exit(97);
    return werr(e, o, (",\"size\":" + std::to_string(f.serialized_size())).c_str());
  }
  In i; uint32_t wt; in >> wt >> a >> b; i.d = unhex(a); T v = val<T>(unhex(b)); F f(v);
  if("rraw" == fn) { const Error e = K::read(i, v); return rerr(e, i, bytes(v)); }
  Error e = Error::NO_ERRORS;
  if("rfld" == fn) e = f.deserialize(i);
  else if("rchk" == fn) e = f.deserialize_check_type(i, static_cast<WF::WireType>(wt));
  else std::exit(97);
  return rerr(e, i, bytes<T>(f.get()));
}

int main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  while(std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::string fn, k, a, b; in >> fn >> k;
    std::string r;
    if("tag" == k)
    {
      uint32_t num, wt; 
      if("make" == fn) { in >> num >> wt; r = "{\"val\":" + list(bytes(WF::MakeTag(num, static_cast<WF::WireType>(wt)))) + "}"; }
      else
      {
        In i; in >> a; i.d = unhex(a); WF::WireType t = WF::WireType::LENGTH_DELIMITED; uint32_t id = 0x12345;
        const Error e = WF::DeserializeTag(i, t, id);
        r = "{\"err\":" + std::to_string(static_cast<int>(e)) + ",\"pos\":" + std::to_string(i.p) + ",\"wt\":" + std::to_string(static_cast<uint32_t>(t)) + ",\"num\":" + std::to_string(id) + "}";
      }
    }
    else if("varint32" == k) { In i; in >> a >> b; i.d = unhex(a); uint32_t v = val<uint32_t>(unhex(b)); const Error e = WF::DeserializeVarint(i, v); r = rerr(e, i, bytes(v)); }
    else if("varint64" == k) { In i; in >> a >> b; i.d = unhex(a); uint64_t v = val<uint64_t>(unhex(b)); const Error e = WF::DeserializeVarint(i, v); r = rerr(e, i, bytes(v)); }
    else if("zz32" == k) { in >> a; r = "{\"val\":" + list("enc" == fn ? bytes(WF::ZigZagEncode(val<int32_t>(unhex(a)))) : bytes(WF::ZigZagDecode(val<uint32_t>(unhex(a))))) + "}"; }
    else if("zz64" == k) { in >> a; r = "{\"val\":" + list("enc" == fn ? bytes(WF::ZigZagEncode(val<int64_t>(unhex(a)))) : bytes(WF::ZigZagDecode(val<uint64_t>(unhex(a))))) + "}"; }
#define S(n) else if("xcmp" == fn && #n == k) { std::string k2; in >> k2 >> a >> b; r = xcmp_s<k_##n>(k2, unhex(a), unhex(b)); }
#define U(n) else if("xcmp" == fn && #n == k) { std::string k2; in >> k2 >> a >> b; r = xcmp_u<k_##n>(k2, unhex(a), unhex(b)); }
    S(int32) S(int64) S(sint32) S(sint64) S(sfixed32) S(sfixed64) U(uint32) U(uint64) U(fixed32) U(fixed64)
#define K(n) else if(#n == k) r = call<k_##n>(fn, in);
    K(int32) K(int64) K(uint32) K(uint64) K(sint32) K(sint64) K(fixed32) K(fixed64) K(sfixed32) K(sfixed64) K(float) K(double) K(bool) K(enum)
    else return 97;
    std::cout << r << '\n' << std::flush;
  }
  return 0;
}
