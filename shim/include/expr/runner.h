#pragma once
#include "expr/operand.h"
namespace dingodb::expr {
class Runner {
 public:
  const Byte* Decode(const Byte* c, size_t) { return c; }
  void BindTuple(const Tuple*) {}
  void Run() {}
  template <typename T>
  std::optional<T> GetOptional() { return std::nullopt; }
  Operand Get() { return Operand(); }
  std::shared_ptr<Operand> GetResult() { return nullptr; }
};
}  // namespace dingodb::expr
