#pragma once
#include "vshim/rocksdb.h"
