#pragma once
#include "vshim/butil.h"
inline const char* berror(int e) { return strerror(e); }
inline const char* berror() { return strerror(errno); }
