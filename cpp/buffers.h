// Buffer implementations of a user of the library.
#pragma once
#include "common.h"

// A write buffer with an exact capacity, optionally refusing one push (or all from that one on).
class UserWriteBuffer : public ::EmbeddedProto::WriteBufferInterface
{
  public:
    UserWriteBuffer(uint32_t cap) : cap_(cap), data_(static_cast<uint8_t*>(xmalloc(cap ? cap : 1))) {}
    ~UserWriteBuffer() override { xfree(data_); }
    void clear() override { n_ = 0; }
    uint32_t get_size() const override { return n_; }
    uint32_t get_max_size() const override { return cap_; }
    uint32_t get_available_size() const override { return cap_ - n_; }
    bool push(const uint8_t byte) override { return push(&byte, 1); }
    bool push(const uint8_t* bytes, const uint32_t length) override
    {
      const long k = calls++;
      if((k == refuse_at) || (persistent && (refuse_at >= 0) && (k > refuse_at))) { ++refused; return false; }
      if(length > cap_ - n_) { ++refused; return false; }
      for(uint32_t i = 0; i < length; ++i) data_[n_++] = bytes[i];
      return true;
    }
    const uint8_t* data() const { return data_; }
    long refuse_at = -1, calls = 0, refused = 0;
    bool persistent = false;
  private:
    uint32_t cap_, n_ = 0;
    uint8_t* data_;
};

// A read buffer over an exactly sized block. total_size: get_size() tells the stored bytes instead of the remaining.
class UserReadBuffer : public ::EmbeddedProto::ReadBufferInterface
{
  public:
    UserReadBuffer(const Bytes& d, bool total_size) : n_(static_cast<uint32_t>(d.size())), total_(total_size),
      data_(static_cast<uint8_t*>(xmalloc(d.size() ? d.size() : 1))) { if(n_) memcpy(data_, d.data(), n_); }
    ~UserReadBuffer() override { xfree(data_); }
    uint32_t get_size() const override { return total_ ? n_ : n_ - pos_; }
    uint32_t get_max_size() const override { return n_; }
    bool peek(uint8_t& byte) const override { if(pos_ < n_) { byte = data_[pos_]; return true; } return false; }
    bool advance() override { if(pos_ < n_) { ++pos_; return true; } return false; }
    bool advance(const uint32_t N) override
    {
      if(N <= n_ - pos_) { pos_ += N; return true; }
      pos_ = n_;
      return false;
    }
    bool pop(uint8_t& byte) override { if(pos_ < n_) { byte = data_[pos_++]; return true; } return false; }
    uint32_t left() const { return n_ - pos_; }
  private:
    uint32_t n_, pos_ = 0;
    bool total_;
    uint8_t* data_;
};
