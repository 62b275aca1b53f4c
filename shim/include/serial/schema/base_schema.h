#pragma once
#include <any>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "serial/buf.h"
namespace dingodb {
class BaseSchema {
 public:
  enum Type { kBool, kInteger, kFloat, kLong, kDouble, kString, kBoolList, kIntegerList, kFloatList, kLongList, kDoubleList, kStringList, kDecimal, kDecimalList };
  virtual ~BaseSchema() = default;
  virtual Type GetType() { return kLong; }
  virtual bool AllowNull() { return true; }
  virtual int GetIndex() { return index_; }
  virtual bool IsKey() { return key_; }
  virtual void SetIsKey(bool k) { key_ = k; }
  virtual void SetAllowNull(bool) {}
  virtual void SetIndex(int i) { index_ = i; }
  void SetName(const std::string& n) { name_ = n; }
  const std::string& GetName() const { return name_; }
 private:
  int index_{0};
  bool key_{false};
  std::string name_;
};
template <class T>
class DingoSchema : public BaseSchema {
 public:
};
template <>
class DingoSchema<std::optional<int64_t>> : public BaseSchema {
 public:
  static void InternalEncodeKey(Buf* buf, int64_t data) {
    buf->WriteLong(static_cast<int64_t>(static_cast<uint64_t>(data) ^ (1ULL << 63)));
  }
  static int64_t InternalDecodeKey(Buf* buf) {
    return static_cast<int64_t>(static_cast<uint64_t>(buf->ReadLong()) ^ (1ULL << 63));
  }
};
}  // namespace dingodb
