// Stand-in for the dingo-serial submodule's byte buffer (empty in this sandbox).
#pragma once
#include <cstdint>
#include <optional>
#include <string>
namespace dingodb {
class Buf {
 public:
  Buf() = default;
  explicit Buf(int size) { buf_.reserve(size); }
  explicit Buf(int size, bool) { buf_.reserve(size); }
  explicit Buf(const std::string& s) : buf_(s) {}
  explicit Buf(const std::string& s, bool) : buf_(s) {}
  void Write(uint8_t b) { buf_.push_back(static_cast<char>(b)); }
  void WriteLong(int64_t v) {
    for (int i = 56; i >= 0; i -= 8) buf_.push_back(static_cast<char>(static_cast<uint64_t>(v) >> i));
  }
  void WriteInt(int32_t v) {
    for (int i = 24; i >= 0; i -= 8) buf_.push_back(static_cast<char>(static_cast<uint32_t>(v) >> i));
  }
  uint8_t Read() { return static_cast<uint8_t>(buf_.at(pos_++)); }
  int64_t ReadLong() {
    uint64_t l = 0;
    for (int i = 0; i < 8; ++i) l = (l << 8) | Read();
    return static_cast<int64_t>(l);
  }
  int32_t ReadInt() {
    uint32_t l = 0;
    for (int i = 0; i < 4; ++i) l = (l << 8) | Read();
    return static_cast<int32_t>(l);
  }
  void Skip(int n) { pos_ += n; }
  const std::string& GetString() const { return buf_; }
  void GetBytes(std::string& out) { out = buf_; }
  int GetBytes(std::string& out, int) { out = buf_; return static_cast<int>(buf_.size()); }
  size_t Size() const { return buf_.size(); }
  bool IsEnd() const { return pos_ >= buf_.size(); }

 private:
  std::string buf_;
  size_t pos_{0};
};
}  // namespace dingodb
