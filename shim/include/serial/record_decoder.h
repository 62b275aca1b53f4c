#pragma once
#include "serial/schema/base_schema.h"
namespace dingodb {
class RecordDecoder {
 public:
  RecordDecoder(int, std::shared_ptr<std::vector<std::shared_ptr<BaseSchema>>>, long) {}
  RecordDecoder(int, std::vector<std::shared_ptr<BaseSchema>>, long) {}
  int Decode(const std::string&, const std::string&, std::vector<std::any>&) { return -1; }
  int Decode(const std::string&, const std::string&, const std::vector<int>&, std::vector<std::any>&) { return -1; }
};
}  // namespace dingodb
