#pragma once
#include "vshim/bthread.h"
