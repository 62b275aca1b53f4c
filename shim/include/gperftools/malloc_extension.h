#pragma once
#include <string>
class MallocExtension { public: static MallocExtension* instance() { static MallocExtension m; return &m; } void GetStats(char*, int) {} void ReleaseFreeMemory() {} void SetMemoryReleaseRate(double) {} bool GetNumericProperty(const char*, size_t*) { return false; } };
