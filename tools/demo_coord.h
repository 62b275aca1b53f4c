#pragma once
#include "demo.h"
#include "coord_world.h"
using namespace dingodb;
