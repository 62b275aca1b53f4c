#pragma once
// Stand-in for the expr library: enough for declarations; evaluating expressions is out of reach here.
#include <any>
#include <cstddef>
#include <cstdint>
#include <exception>
#include <memory>
#include <optional>
#include <string>
#include <vector>
namespace dingodb::expr {
using Byte = uint8_t;
class Operand {
 public:
  Operand() = default;
  template <typename T>
  Operand(T v) : v_(std::move(v)) {}
  std::any v_;
};
using Tuple = std::vector<Operand>;
}  // namespace dingodb::expr
