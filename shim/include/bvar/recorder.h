#pragma once
#include "vshim/bvar.h"
