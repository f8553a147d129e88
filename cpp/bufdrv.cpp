// Drives the buffers of the library. stdin: traces, one operation per line. stdout: one JSON object per operation.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <WriteBufferFixedSize.h>
#include <ReadBufferFixedSize.h>
#include <ReadBufferSection.h>
#include <MessageSizeCalculator.h>
using namespace EmbeddedProto;

static const uint8_t SENTINEL = 0xA5;
// Numbers as the specification takes them.
static std::string num(uint32_t x) { return std::to_string(x < 2000000000U ? x : 2000000000U); }

struct Dev
{
  virtual ~Dev() = default;
  virtual WriteBufferInterface* w() { return nullptr; }
  virtual ReadBufferInterface* r() { return nullptr; }
  virtual uint8_t* data() { return nullptr; }
  virtual bool push(uint8_t) { return false; }
  virtual void setw(uint32_t) {}
  virtual void clear() {}
};
template<uint32_t N> struct W : Dev
{
  WriteBufferFixedSize<N> b;
  WriteBufferInterface* w() override { return &b; }
  uint8_t* data() override { return b.get_data(); }
};
struct C : Dev { MessageSizeCalculator b; WriteBufferInterface* w() override { return &b; } };
template<uint32_t N> struct F : Dev
{
  ReadBufferFixedSize<N> b;
  ReadBufferInterface* r() override { return &b; }
  uint8_t* data() override { return b.get_data(); }
  bool push(uint8_t x) override { return b.push(x); }
  void setw(uint32_t n) override { b.set_bytes_written(n); }
  void clear() override { b.clear(); }
};
// A user's buffer of which get_size gives the bytes left.
struct S : Dev, ReadBufferInterface
{
  std::vector<uint8_t> d; size_t p = 0;
  ReadBufferInterface* r() override { return this; }
  uint32_t get_size() const override { return d.size() - p; }
  uint32_t get_max_size() const override { return d.size(); }
  bool peek(uint8_t& b) const override { if(p >= d.size()) return false; b = d[p]; return true; }
  bool advance() override { if(p >= d.size()) return false; ++p; return true; }
  bool advance(const uint32_t n) override { const bool ok = n <= d.size() - p; p += ok ? n : d.size() - p; return ok; }
  bool pop(uint8_t& b) override { if(p >= d.size()) return false; b = d[p++]; return true; }
};

template<template<uint32_t> class T> static Dev* make(uint32_t cap)
{
  switch(cap)
  {
    case 1: return new T<1>; case 2: return new T<2>; case 3: return new T<3>; case 4: return new T<4>; case 5: return new T<5>;
    case 7: return new T<7>; case 8: return new T<8>; case 13: return new T<13>; case 33: return new T<33>;
    case 255: return new T<255>; case 256: return new T<256>; case 300: return new T<300>; case 70000: return new T<70000>;
  }
  std::fprintf(stderr, "capacity\n"); std::exit(97);
}

int main()
{
  std::ios::sync_with_stdio(false);
  std::string line;
  std::unique_ptr<Dev> dev;
  std::vector<std::unique_ptr<ReadBufferSection>> secs;
  while(std::getline(std::cin, line))
  {
    std::istringstream in(line);
    std::string op; in >> op;
    if("T" == op)
    {
      std::string k; uint32_t cap; in >> k >> cap;
      secs.clear();
      if("write" == k) dev.reset(make<W>(cap));
      else if("count" == k) dev.reset(new C);
      else if("read" == k) dev.reset(make<F>(cap));
      else
      {
        S* s = new S; int b; while(in >> b) s->d.push_back(b);
        dev.reset(s);
      }
      continue;
    }
    bool res = true; uint8_t out = SENTINEL;
    const auto lay = [&](uint32_t l) -> ReadBufferInterface& { return 0 == l ? *dev->r() : *secs.at(l - 1); };
    if(dev->w())
    {
      WriteBufferInterface& w = *dev->w();
      if("push" == op) { int b; in >> b; res = w.push(static_cast<uint8_t>(b)); }
      else if("clear" == op) w.clear();
      else
      {
        uint32_t n; in >> n; std::vector<uint8_t> a; int b; while(in >> b) a.push_back(b);
        // Exactly the given bytes are readable; refused lengths may be larger than what is there.
        std::unique_ptr<uint8_t[]> mem(new uint8_t[a.size() ? a.size() : 1]);
        if(a.size()) std::memcpy(mem.get(), a.data(), a.size());
        res = w.push(mem.get(), n);
      }
      std::string v = "{\"size\":" + num(w.get_size());
      if(dev->data())
      {
        v += ",\"max\":" + num(w.get_max_size()) + ",\"avail\":" + num(w.get_available_size()) + ",\"data\":[";
        for(uint32_t i = 0; i < w.get_size() && i < w.get_max_size(); ++i) v += (i ? "," : "") + std::to_string(dev->data()[i]);
        v += "]";
      }
      std::cout << "{\"res\":" << (res ? "true" : "false") << ",\"out\":-1,\"v\":" << v << "}}\n" << std::flush;
      continue;
    }
    uint32_t l = 0, n = 0;
    if("peek" == op) { in >> l; const auto& b = lay(l); res = b.peek(out); }
    else if("pop" == op) { in >> l; res = lay(l).pop(out); }
    else if("adv" == op) { in >> l; res = lay(l).advance(); }
    else if("advn" == op) { in >> l >> n; res = lay(l).advance(n); }
    else if("open" == op) { in >> n; ReadBufferInterface& p = lay(secs.size()); secs.emplace_back(new ReadBufferSection(p, n)); }
    else if("close" == op) secs.pop_back();
    else if("push" == op) { int b; in >> b; res = dev->push(b); }
    else if("poke" == op) { int b; in >> n >> b; dev->data()[n] = b; }
    else if("setw" == op) { in >> n; dev->setw(n); }
    else if("clear" == op) dev->clear();
    else return 97;
    std::string v;
    for(uint32_t i = 0; i <= secs.size(); ++i)
    {
      const auto& b = lay(i);
      uint8_t x = SENTINEL; const bool has = b.peek(x);
      v += (i ? ",[" : "[") + num(b.get_size()) + "," + num(b.get_max_size()) + "," + (has ? std::to_string(x) : SENTINEL == x ? "-1" : "-2") + "]";
    }
    std::cout << "{\"res\":" << (res ? "true" : "false") << ",\"out\":" << (SENTINEL == out ? std::string("-1") : std::to_string(out)) << ",\"v\":{\"lay\":[" << v << "]}}\n" << std::flush;
  }
  return 0;
}
