#pragma once
#include "vshim/butil.h"
