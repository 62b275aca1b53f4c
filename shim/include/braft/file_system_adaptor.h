#pragma once
#include "vshim/braft.h"
