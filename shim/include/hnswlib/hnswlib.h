#pragma once
#include "vshim/hnswlib.h"
