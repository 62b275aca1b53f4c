#pragma once
#include "vshim/brpc.h"
