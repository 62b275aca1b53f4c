// small helpers for the demonstrations of planted bugs
#pragma once
#include <unistd.h>
#include "env.h"
#define REQ(c, m) do { if (!(c)) { std::cout << "FAILED: " << m << std::endl; _exit(1); } } while (0)
namespace demo {
inline void Start(const char* role = "store") {
  google::InitGoogleLogging("demo");
  FLAGS_minloglevel = 3;
  FLAGS_logtostderr = true;
  char b[4096];
  vt::ScratchRoot() = getcwd(b, sizeof b);
  env::C().role = role;
  env::InitProcess();
}
inline void Done() { std::cout << "ok" << std::endl; _exit(0); }
}  // namespace demo
