#pragma once
#include "serial/schema/base_schema.h"
namespace dingodb {
class RecordEncoder {
 public:
  RecordEncoder(int, std::shared_ptr<std::vector<std::shared_ptr<BaseSchema>>>, long) {}
  RecordEncoder(int, std::vector<std::shared_ptr<BaseSchema>>, long) {}
  int Encode(char, const std::vector<std::any>&, std::string&, std::string&) { return -1; }
};
}  // namespace dingodb
