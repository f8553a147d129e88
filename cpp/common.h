// Shared by the generated glue and the driver: operations, results and the observation of values.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <new>
#include <utility>
#include <MessageInterface.h>
#include <WireFormatter.h>
#include <Fields.h>
#include <FieldStringBytes.h>
#include <RepeatedFieldFixedSize.h>
#include <ReadBufferSection.h>
#include <ReadBufferFixedSize.h>
#include <WriteBufferFixedSize.h>
#include <MessageSizeCalculator.h>

typedef std::vector<uint8_t> Bytes;
typedef ::EmbeddedProto::Error Error;

// Counting of dynamic memory: on while library code runs, off in the bookkeeping of the driver.
extern int g_count_on;
extern long g_allocs;
struct Quiet { int was; Quiet() : was(g_count_on) { g_count_on = 0; } ~Quiet() { g_count_on = was; } };
inline void* xmalloc(size_t n) { Quiet q; return malloc(n); }
inline void xfree(void* p) { Quiet q; free(p); }

struct Step { int f; bool has_idx; uint32_t idx; };

struct Op
{
  std::string name;
  int slot = 0, src = 0;          // slots, 0: none
  std::vector<Step> path;
  int f = 0;                      // field, 1 based
  int var = 0;                    // variant of the call
  uint32_t idx = 0;
  std::vector<Bytes> vals;
  const void* srcp = nullptr;     // the source slot
};

struct Res { int err = 0; bool has_val = false; std::string val; bool bad = false; };

inline int code(Error e)
{
  switch(e)
  {
    case Error::NO_ERRORS: return 0;
    case Error::END_OF_BUFFER: return 1;
    case Error::BUFFER_FULL: return 2;
    case Error::INVALID_WIRETYPE: return 3;
    case Error::ARRAY_FULL: return 4;
    case Error::INVALID_FIELD_ID: return 5;
    case Error::OVERLONG_VARINT: return 6;
    case Error::INDEX_OUT_OF_BOUND: return 7;
  }
  return 99;
}

inline void put_bytes(std::string& o, const void* p, size_t n)
{
  const uint8_t* b = static_cast<const uint8_t*>(p);
  char t[8];
  o += '[';
  for(size_t i = 0; i < n; ++i)
  {
    snprintf(t, sizeof t, i ? ",%u" : "%u", b[i]);
    o += t;
  }
  o += ']';
}
inline void put_val(std::string& o, bool v) { o += v ? "[1]" : "[0]"; }
template<class T> void put_val(std::string& o, const T& v) { put_bytes(o, &v, sizeof v); }

template<class T> T from_bytes(const Bytes& b)
{
  T v; memset(&v, 0, sizeof v);
  if(!b.empty()) memcpy(&v, b.data(), b.size() < sizeof v ? b.size() : sizeof v);
  return v;
}
template<> inline bool from_bytes<bool>(const Bytes& b) { return !b.empty() && b[0]; }

template<class T> bool same(const T& a, const T& b) { return 0 == memcmp(&a, &b, sizeof(T)); }

//----------------------------------------------------------------------- strings and bytes
template<class S> void put_str(std::string& o, const S& s) { put_bytes(o, s.get_const(), s.get_length()); }

template<class S> void fill_str(S& s, const Bytes& b)
{
  typedef typename std::remove_cv<typename std::remove_reference<decltype(*s.get_const())>::type>::type C;
  static const C none = 0;
  s.set(b.empty() ? &none : reinterpret_cast<const C*>(b.data()), static_cast<uint32_t>(b.size()));
}

// All read accessors of a string or bytes field tell the same.
template<class S> bool str_agrees(const S& s, const void* raw, uint32_t max)
{
  typedef typename std::remove_cv<typename std::remove_reference<decltype(*s.get_const())>::type>::type C;
  const uint32_t n = s.get_length();
  bool ok = (s.get_max_length() == max) && (n <= max) && (static_cast<const void*>(s.get_const()) == raw);
  for(uint32_t i = 0; ok && i < n; ++i)
  {
    C c = 7;
    ok = (Error::NO_ERRORS == s.get_const(i, c)) && (c == s.get_const()[i]) && (s.get_const(i) == c) && (s[i] == c);
  }
  if(ok && n < max) ok = (0 == s.get_const()[n]) && (0 == s.get_const(n));
  C c = 77;
  ok = ok && (Error::INDEX_OUT_OF_BOUND == s.get_const(n, c)) && (77 == c);
  ok = ok && (Error::INDEX_OUT_OF_BOUND == s.get_const(0xFFFFFFFFU, c)) && (77 == c);
  ok = ok && (&s.get_const(0xFFFFFFFFU) == s.get_const() + (max - 1)) && (&s[max] == s.get_const() + (max - 1));
  return ok;
}

static const Bytes none;
template<class S> void op_str(S& s, const Op& op, Res& r)
{
  typedef typename std::remove_cv<typename std::remove_reference<decltype(*s.get_const())>::type>::type C;
  const Bytes& b = op.vals.empty() ? none : op.vals[0];
  if("sset" == op.name)
  {
    // An exactly sized heap block: reading one byte too many is seen by the sanitizer.
    C* p = static_cast<C*>(xmalloc(b.size() ? b.size() : 1));
    if(!b.empty()) memcpy(p, b.data(), b.size());
    r.err = code(s.set(p, static_cast<uint32_t>(b.size())));
    xfree(p);
  }
  else if("sidx" == op.name) { if(op.var) s[op.idx] = static_cast<C>(b[0]); else s.get(op.idx) = static_cast<C>(b[0]); }
  else if("sclr" == op.name) s.clear();
  else r.bad = true;
}
template<class S> void op_cstr(S& s, const Op& op, Res& r)
{
  if("snull" == op.name) { if(op.var) s = static_cast<const char*>(nullptr); else s.set(static_cast<const char*>(nullptr)); return; }
  if("scstr" != op.name) { op_str(s, op, r); return; }
  char* p = static_cast<char*>(xmalloc(op.vals[0].size() + 1));
  if(!op.vals[0].empty()) memcpy(p, op.vals[0].data(), op.vals[0].size());
  p[op.vals[0].size()] = 0;
  if(op.var) s = p; else s.set(p);
  xfree(p);
}

//------------------------------------------------------------------------ repeated fields
struct ElemScalar
{
  template<class E> static void put(std::string& o, const E& e) { put_val(o, e.get()); }
  template<class E> static void make(E& e, const Op&, const Bytes& b)
  {
    typedef typename std::remove_cv<typename std::remove_reference<decltype(e.get())>::type>::type T;
    e = from_bytes<T>(b);
  }
};
struct ElemStr
{
  template<class E> static void put(std::string& o, const E& e) { put_str(o, e); }
  template<class E> static void make(E& e, const Op&, const Bytes& b) { fill_str(e, b); }
};
struct ElemMsg
{
  template<class E> static void make(E& e, const Op& op, const Bytes&) { e = *static_cast<const E*>(op.srcp); }
};

template<class EL, class E, class RF> void fill_rep(RF& rf, const Op& op)
{
  for(size_t i = 0; i < op.idx; ++i) { E e; EL::make(e, op, op.vals.size() > i ? op.vals[i] : none); rf.add(e); }
}
template<class EL, class E, class RF> void op_rep(RF& rf, const Op& op, Res& r)
{
  if("sdata" == op.name)
  {
    const size_t n = op.idx;
    E* p = static_cast<E*>(xmalloc(sizeof(E) * (n ? n : 1)));
    for(size_t i = 0; i < n; ++i) { new(p + i) E(); EL::make(p[i], op, op.vals.size() > i ? op.vals[i] : none); }
    r.err = code(rf.set_data(p, static_cast<uint32_t>(n)));
    for(size_t i = 0; i < n; ++i) p[i].~E();
    xfree(p);
  }
  else if("rclr" == op.name) rf.clear();
  else if("rset" == op.name) { E e; EL::make(e, op, op.vals.empty() ? none : op.vals[0]); rf.set(op.idx, e); }
  else if("rget" == op.name) { E e; EL::make(e, op, op.vals.empty() ? none : op.vals[0]); rf.get(op.idx) = e; }
  else if("radd" == op.name) { E e; EL::make(e, op, op.vals.empty() ? none : op.vals[0]); r.err = code(rf.add(e)); }
  else r.bad = true;
}

// The bounds and the size queries of a repeated field tell the same.
template<class E, class RF> bool rep_agrees(const RF& rf, uint32_t max)
{
  const uint32_t n = rf.get_length();
  bool ok = (n <= max) && (rf.get_max_length() == max) && (rf.get_size() == n * sizeof(E)) && (rf.get_max_size() == max * sizeof(E));
  for(uint32_t i = 0; ok && i < n; ++i) ok = (&rf[i] == &rf.get_const(i)) && (&rf.get_const(i) == &rf.get_data_const()[i]);
  ok = ok && (&rf.get_const(max) == &rf.get_data_const()[max - 1]) && (&rf[0xFFFFFFFFU] == &rf.get_data_const()[max - 1]);
  return ok;
}
template<class EL, class E, class RF> void getc_rep(const RF& rf, const Op& op, Res& r)
{
  E e;
  r.err = code(rf.get_const(op.idx, e));
  r.has_val = (0 == r.err);
  if(r.has_val) { Quiet q; EL::put(r.val, e); }
}

//-------------------------------------------------------------------------- type erasure
struct Type
{
  const char* name;
  size_t size, align;
  void (*make)(void*);
  void (*copy)(void*, const void*);
  void (*move)(void*, void*);
  void (*assign)(void*, const void*);
  void (*massign)(void*, void*);
  void (*destroy)(void*);
  void (*proj)(std::string&, const void*);
  bool (*agrees)(const void*);
  void (*apply)(void*, const Op&, size_t depth, Res&);
  ::EmbeddedProto::MessageInterface* (*base)(void*);
#ifdef MSG_TO_STRING
  ::EmbeddedProto::string_view (*text)(void*, ::EmbeddedProto::string_view&);
#endif
};
#ifdef MSG_TO_STRING
template<class M> ::EmbeddedProto::string_view text_of(void* p, ::EmbeddedProto::string_view& v) { return static_cast<const M*>(p)->to_string(v); }
#define TEXT_OF(M) , text_of<M>
#else
#define TEXT_OF(M)
#endif

template<class M> ::EmbeddedProto::MessageInterface* base_of(void* p) { return static_cast<M*>(p); }
template<class M> void make_of(void* p) { new(p) M; }
template<class M> void copy_of(void* p, const void* s) { new(p) M(*static_cast<const M*>(s)); }
template<class M> void move_of(void* p, void* s) { new(p) M(std::move(*static_cast<M*>(s))); }
template<class M> void assign_of(void* p, const void* s) { *static_cast<M*>(p) = *static_cast<const M*>(s); }
template<class M> void massign_of(void* p, void* s) { *static_cast<M*>(p) = std::move(*static_cast<M*>(s)); }
template<class M> void destroy_of(void* p) { static_cast<M*>(p)->~M(); }

#define TYPE_ENTRY(i, M) { #M, sizeof(M), alignof(M), make_of<M>, copy_of<M>, move_of<M>, assign_of<M>, massign_of<M>, destroy_of<M>, \
    [](std::string& o, const void* p) { proj_##i(o, *static_cast<const M*>(p)); }, \
    [](const void* p) { return agrees_##i(*static_cast<const M*>(p)); }, \
    [](void* p, const Op& op, size_t d, Res& r) { apply_##i(*static_cast<M*>(p), op, d, r); }, base_of<M> TEXT_OF(M) }
