// The coordinator role: timestamp oracle, auto-increment, version kv with leases and watches, cluster metadata.
#include "coord_world.h"
using namespace dingodb;
using namespace cw;
using namespace vt;

namespace {
struct Init {
  Init() {
    InitHook() = [] {
      env::C().role = "coordinator";
      env::InitProcess();
    };
  }
} g_init;
}  // namespace

#include "coord_inc.h"
#include "coord_kv.h"
#include "coord_tso.h"

int main(int argc, char** argv) {
  FLAGS_minloglevel = getenv("VT_LOG") ? 0 : 3;
  return vt::Main(argc, argv);
}
