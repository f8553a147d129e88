// Executes operation sequences on generated messages and reports what is observed. One line per operation.
#include "types.h"
#include "buffers.h"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <algorithm>
#include <memory>
#include <sstream>
#include <iostream>

extern const Type TYPES[];
extern const int N_TYPES;

int g_count_on = 0;
long g_allocs = 0;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_malloc(const volatile void*, size_t) { if(g_count_on) ++g_allocs; }
static void on_free(const volatile void*) {}

static std::string out;
static void flush_out()
{
  size_t o = 0;
  while(o < out.size()) { ssize_t w = write(1, out.data() + o, out.size() - o); if(w <= 0) break; o += w; }
  out.clear();
}
static void on_death() { flush_out(); }
static void on_alarm(int) { flush_out(); const char m[] = "TIMEOUT\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }

static const int N_SLOTS = 4;
struct Slot { const Type* t = nullptr; unsigned char* mem = nullptr; };
static Slot slots[N_SLOTS + 1];

static Bytes hex(const std::string& s)
{
  Bytes b;
  if(s == ".") return b;
  auto d = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for(size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(static_cast<uint8_t>(d(s[i]) * 16 + d(s[i + 1])));
  return b;
}

// Every object lives in its own heap block, filled with garbage before construction.
static unsigned char* fresh(const Type* t)
{
  void* p = nullptr;
  if(posix_memalign(&p, t->align < 16 ? 16 : t->align, t->size)) abort();
  memset(p, 0xAA, t->size);
  return static_cast<unsigned char*>(p);
}
static void drop(Slot& s) { if(s.t) { s.t->destroy(s.mem); free(s.mem); s.t = nullptr; s.mem = nullptr; } }

static Bytes last_ser;
template<uint32_t N> struct Exact
{
  static void ser(uint32_t n, ::EmbeddedProto::MessageInterface* m, int& err, Bytes& got)
  {
    if(n == N)
    {
      ::EmbeddedProto::WriteBufferFixedSize<N> b;
      g_count_on = 1; Error e = m->serialize(b); g_count_on = 0;
      err = code(e);
      got.assign(b.get_data(), b.get_data() + b.get_size());
    }
    else Exact<N - 1>::ser(n, m, err, got);
  }
};
template<> struct Exact<0> { static void ser(uint32_t, ::EmbeddedProto::MessageInterface*, int& err, Bytes&) { err = 98; } };

static const uint32_t BIG = 4096;
static ::EmbeddedProto::WriteBufferFixedSize<BIG> wbig;
static ::EmbeddedProto::ReadBufferFixedSize<BIG> rbig;

static void do_ser(std::istringstream& in, Slot& s)
{
  int kind; uint32_t cap; long refuse; int pers; std::string caps;
  in >> kind >> caps >> refuse >> pers;
  ::EmbeddedProto::MessageInterface* m = s.t->base(s.mem);
  if('@' == caps[0])
  {
    // Relative to the size of the message.
    const long c = static_cast<long>(m->serialized_size()) + atol(caps.c_str() + 1);
    cap = static_cast<uint32_t>(c < 0 ? 0 : (2 != kind && c > 4096) ? 4096 : c);
    if(1 == kind && (cap < 1 || cap > 80)) kind = 2;
    out += "\"cap\":" + std::to_string(cap) + ",";
  }
  else cap = static_cast<uint32_t>(strtoul(caps.c_str(), nullptr, 10));
  int err = 0; Bytes got; bool ok = true; long refused = 0;
  std::string before, after;
  s.t->proj(before, s.mem);
  g_count_on = 1; const uint32_t size = m->serialized_size(); g_count_on = 0;
  for(int round = 0; round < 2; ++round)
  {
    Bytes g; int e = 0;
    if(0 == kind)
    {
      wbig.clear();
      for(uint32_t i = 0; i < BIG; ++i) wbig.push(static_cast<uint8_t>(round ? 0x5A : 0xA5));
      wbig.clear();
      const uint32_t pre = BIG - cap;
      for(uint32_t i = 0; i < pre; ++i) wbig.push(static_cast<uint8_t>(i * 7 + 1));
      g_count_on = 1; Error er = m->serialize(wbig); g_count_on = 0;
      e = code(er);
      ok = ok && wbig.get_size() >= pre && wbig.get_size() <= BIG && wbig.get_available_size() == BIG - wbig.get_size();
      for(uint32_t i = 0; ok && i < pre; ++i) ok = wbig.get_data()[i] == static_cast<uint8_t>(i * 7 + 1);
      if(ok) g.assign(wbig.get_data() + pre, wbig.get_data() + wbig.get_size());
    }
    else if(1 == kind) Exact<80>::ser(cap, m, e, g);
    else
    {
      UserWriteBuffer b(cap);
      b.refuse_at = refuse; b.persistent = pers;
      g_count_on = 1; Error er = m->serialize(b); g_count_on = 0;
      e = code(er); refused = b.refused;
      g.assign(b.data(), b.data() + b.get_size());
    }
    if(0 == round) { err = e; got = g; }
    else ok = ok && (err == e) && (got == g);
  }
  g_count_on = 1; const uint32_t size2 = m->serialized_size(); g_count_on = 0;
  s.t->proj(after, s.mem);
  ok = ok && (size == size2) && (before == after);
  last_ser = got;
  out += "\"r\":[" + std::to_string(err) + ",";
  put_bytes(out, got.data(), got.size());
  out += "," + std::to_string(size) + "," + (ok ? "1" : "0") + "," + (refused ? "1" : "0") + "]";
}


static void do_des(std::istringstream& in, Slot& s)
{
  int kind; uint32_t a, b; std::string h;
  in >> kind >> a >> b >> h;
  // "=": the bytes of the last serialize.
  const Bytes d = (h == "=") ? last_ser : hex(h);
  if(h == "=") { out += "\"d\":"; put_bytes(out, d.data(), d.size()); out += ","; }
  ::EmbeddedProto::MessageInterface* m = s.t->base(s.mem);
  Error e = Error::NO_ERRORS; uint32_t left = 0;
  if((0 == kind || 1 == kind) && d.size() > BIG) kind = 2;
  if(0 == kind || 1 == kind)
  {
    rbig.clear();
    for(uint32_t i = 0; i < BIG; ++i) rbig.get_data()[i] = (i % 2) ? 1 : 8;
    if(0 == kind) { if(!d.empty()) memcpy(rbig.get_data(), d.data(), d.size()); rbig.set_bytes_written(d.size()); }
    else for(uint8_t x : d) rbig.push(x);
    g_count_on = 1; e = m->deserialize(rbig); g_count_on = 0;
    uint8_t x; while(rbig.pop(x)) ++left;
  }
  else if(2 == kind || 3 == kind)
  {
    UserReadBuffer rb(d, 3 == kind);
    g_count_on = 1; e = m->deserialize(rb); g_count_on = 0;
    left = rb.left();
  }
  else
  {
    // A section of a larger buffer: a bytes before it, b bytes behind it.
    Bytes all(a, 0x80); all.insert(all.end(), d.begin(), d.end());
    for(uint32_t i = 0; i < b; ++i) all.push_back((i % 2) ? 1 : 8);
    UserReadBuffer rb(all, 5 == kind);
    rb.advance(a);
    ::EmbeddedProto::ReadBufferSection sec(rb, static_cast<uint32_t>(d.size()));
    g_count_on = 1; e = m->deserialize(sec); g_count_on = 0;
    left = rb.left() - b;
  }
  out += "\"r\":[" + std::to_string(code(e)) + "," + std::to_string(left) + "]";
}

#ifdef MSG_TO_STRING
// Text in a view of exactly the given size: the terminated text, or [-1], and how much of the view is returned as rest.
static std::string text_in(Slot& s, uint32_t size, uint32_t& rest_off, int64_t& rest)
{
  std::unique_ptr<char[]> mem(new char[size ? size : 1]);
  memset(mem.get(), 0x5A, size ? size : 1);
  ::EmbeddedProto::string_view view{mem.get(), size};
  g_count_on = 1;
  const ::EmbeddedProto::string_view left = s.t->text(s.mem, view);
  g_count_on = 0;
  // The rest must be the tail of the view.
  rest = (left.size <= size && left.data == mem.get() + (size - left.size)) ? static_cast<int64_t>(left.size) : -1;
  if(view.data != mem.get() || view.size != size) rest = -2;
  rest_off = 0;
  std::string r = "[";
  uint32_t n = 0;
  while(n < size && mem[n]) ++n;
  if(0 == size) return (0x5A == mem[0]) ? "[]" : "[-1]";
  if(n == size) return "[-1]";
  for(uint32_t i = 0; i < n; ++i) { if(i) r += ','; r += std::to_string(static_cast<uint8_t>(mem[i])); }
  return r + "]";
}
static void do_txt(std::istringstream& in, Slot& s)
{
  const uint32_t BIG = 200000;
  uint32_t off; int64_t rest;
  const std::string full = text_in(s, BIG, off, rest);
  const uint32_t len = ("[]" == full) ? 0 : 1 + std::count(full.begin(), full.end(), ',');
  std::string r = "\"r\":[" + full + "," + std::to_string(rest) + ",[";
  int32_t v; bool first = true;
  while(in >> v)
  {
    // Sizes from the start, or from the end of the text when 1000000 and more.
    const int64_t want = v < 1000000 ? v : static_cast<int64_t>(len) + (v - 2000000);
    const uint32_t size = want < 0 ? 0 : static_cast<uint32_t>(want);
    const std::string t = text_in(s, size, off, rest);
    if(!first) r += ',';
    first = false;
    r += "[" + std::to_string(size) + "," + t + "," + std::to_string(rest) + "]";
  }
  out += r + "]," + std::to_string(BIG) + "]";
}
#endif

int main()
{
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  __sanitizer_set_death_callback(on_death);
  signal(SIGALRM, on_alarm);
  std::string line;
  int n_slots = 0;
  while(std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::string name;
    in >> name;
    if("T" == name)
    {
      // A new trace: the types of its slots.
      for(int i = 1; i <= N_SLOTS; ++i) drop(slots[i]);
      n_slots = 0;
      int t;
      while(in >> t) { Slot& s = slots[++n_slots]; s.t = &TYPES[t]; s.mem = fresh(s.t); s.t->make(s.mem); }
      alarm(20);
      flush_out();
      continue;
    }
    Op op;
    op.name = name;
    in >> op.slot;
    Slot& s = slots[op.slot];
    g_allocs = 0;
    out += "{";
    if("ser" == name) do_ser(in, s);
#ifdef MSG_TO_STRING
    else if("txt" == name) do_txt(in, s);
#endif
    else if("des" == name) do_des(in, s);
    else if("new" == name || "clear" == name)
    {
      if("new" == name) { s.t->destroy(s.mem); memset(s.mem, 0xAA, s.t->size); g_count_on = 1; s.t->make(s.mem); g_count_on = 0; }
      else { g_count_on = 1; s.t->base(s.mem)->clear(); g_count_on = 0; }
      out += "\"r\":[0]";
    }
    else if("cpy" == name || "mov" == name || "asg" == name || "masg" == name)
    {
      in >> op.src;
      Slot& q = slots[op.src];
      if("cpy" == name || "mov" == name) { s.t->destroy(s.mem); memset(s.mem, 0xAA, s.t->size); }
      g_count_on = 1;
      if("cpy" == name) s.t->copy(s.mem, q.mem);
      else if("mov" == name) s.t->move(s.mem, q.mem);
      else if("asg" == name) s.t->assign(s.mem, q.mem);
      else s.t->massign(s.mem, q.mem);
      g_count_on = 0;
      out += "\"r\":[0]";
    }
    else
    {
      std::string path; int nv;
      in >> path >> op.f >> op.src >> op.var >> op.idx >> nv;
      for(int i = 0; i < nv; ++i) { std::string h; in >> h; op.vals.push_back(hex(h)); }
      if(path != "-")
      {
        std::istringstream ps(path);
        std::string tok;
        while(std::getline(ps, tok, ','))
        {
          Step st; st.has_idx = tok.find(':') != std::string::npos; st.f = atoi(tok.c_str()); st.idx = 0;
          if(st.has_idx) st.idx = static_cast<uint32_t>(strtoul(tok.c_str() + tok.find(':') + 1, nullptr, 10));
          op.path.push_back(st);
        }
      }
      if(op.src) op.srcp = slots[op.src].mem;
      Res r;
      g_count_on = 1; s.t->apply(s.mem, op, 0, r); g_count_on = 0;
      if(r.bad) { fprintf(stderr, "BADOP %s\n", line.c_str()); flush_out(); return 97; }
      out += "\"r\":[" + std::to_string(r.err);
      if(r.has_val) out += "," + r.val;
      out += "]";
    }
    out += ",\"al\":" + std::to_string(g_allocs) + ",\"st\":[";
    bool agrees = true;
    for(int i = 1; i <= n_slots; ++i)
    {
      if(i > 1) out += ',';
      slots[i].t->proj(out, slots[i].mem);
      agrees = agrees && slots[i].t->agrees(slots[i].mem);
    }
    out += std::string("],\"a\":") + (agrees ? "1" : "0") + "}\n";
    flush_out();
  }
  for(int i = 1; i <= N_SLOTS; ++i) drop(slots[i]);
  flush_out();
  return 0;
}
