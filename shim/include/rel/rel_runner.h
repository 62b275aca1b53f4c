#pragma once
#include "expr/operand.h"
namespace dingodb::rel {
class RelRunner {
 public:
  const expr::Byte* Decode(const expr::Byte* c, size_t) { return c; }
  const expr::Tuple* Put(const expr::Tuple* t) const { return t; }
  const expr::Tuple* Get() const { return nullptr; }
};
}  // namespace dingodb::rel
