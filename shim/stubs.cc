// symbols that live in sources the framework does not compile
#include <gflags/gflags.h>
namespace dingodb {
DEFINE_int64(vector_max_batch_count, 4096, "server/index_service.cc");
}
